------------------------------- MODULE Decode -------------------------------
(* What a reader makes of an arbitrary byte string.                          *)
(*                                                                           *)
(* The buffer B is a tuple of bytes; positions count from 0. A region p..e-1  *)
(* holds one message, element or payload; h is the end of the whole buffer.   *)
(*                                                                           *)
(* The README's reader reads nothing outside the enclosing region, treats a   *)
(* size that exceeds its region as an error, and text that is not UTF-8 too.  *)
(* The generated readers deviate from it in named points, so that one         *)
(* definition, parameterised by a set dv of deviations, describes all three:  *)
(*   CLAMP     a size exceeding the region is cut to the region, for Bytes,    *)
(*             String, arrays and messages (Rust);                            *)
(*   HANG      skipping an unknown field that exceeds the region never         *)
(*             returns (Rust);                                                *)
(*   HUGE      the announced size of Bytes, String or [F64] is allocated up    *)
(*             front (Rust; reported from HugeLimit bytes on);                *)
(*   OVERREAD  sizes are only checked against the end of the buffer (TS);      *)
(*   LAXUTF8   invalid UTF-8 is replaced (TS);                                *)
(*   BOM       a leading byte order mark is dropped from text (TS);           *)
(*   UNITLEN   the announced length of a [Unit] is materialised (TS): reported *)
(*             from HugeLimit on, an error from 2^32 on;                      *)
(*   RESYNC    after an array of scalars reading goes on where its last        *)
(*             complete element ended (TS);                                   *)
(*   INTR      an interruption of the reader is reported as an error in some   *)
(*             places instead of being retried (Rust);                        *)
(*   CLAIM     not a deviation: marks where more is allocated than there is     *)
(*             (Cost);                                                        *)
(*   LAST      of repeated fields the last is kept, not the first (TS).       *)
(* LAST is by design and UNITLEN documented (README, "Security"); the others  *)
(* are listed in known_findings.txt.                                          *)
(*                                                                           *)
(* Results are <<status, position after, value>>; status is "ok", "err",      *)
(* "hang", "huge", "fail" or "intr". Where text was replaced the value is LaxText.            *)
EXTENDS Wire

CONSTANT HugeLimit

Deviations(impl) ==
    CASE impl = "doc"  -> {}
      [] impl = "rust" -> {"CLAMP", "HANG", "HUGE", "INTR"}
      [] impl = "ts"   -> {"OVERREAD", "LAXUTF8", "BOM", "UNITLEN", "RESYNC", "LAST"}

Err == <<"err", 0, <<>> >>
Hang == <<"hang", 0, <<>> >>
Huge == <<"huge", 0, <<>> >>
IsOk(r) == r[1] = "ok"

LaxText == << -1 >>

ByDesign == {"LAST", "UNITLEN"}

-----------------------------------------------------------------------------
(* UTF-8 well-formedness (Unicode, table 3-7), as an automaton over bytes:    *)
(* <<continuation bytes missing, least next byte, greatest next byte>>.       *)
Utf8Bad == << -1, 0, 0 >>
Utf8Step(s, b) ==
    IF s[1] < 0 THEN s
    ELSE IF s[1] = 0
    THEN CASE b <= 127 -> <<0, 0, 0>>
           [] b \in 194..223 -> <<1, 128, 191>>
           [] b = 224 -> <<2, 160, 191>>
           [] b \in (225..236) \cup {238, 239} -> <<2, 128, 191>>
           [] b = 237 -> <<2, 128, 159>>
           [] b = 240 -> <<3, 144, 191>>
           [] b \in 241..243 -> <<3, 128, 191>>
           [] b = 244 -> <<3, 128, 143>>
           [] OTHER -> Utf8Bad
    ELSE IF b \in s[2]..s[3] THEN <<s[1] - 1, IF s[1] = 1 THEN 0 ELSE 128, IF s[1] = 1 THEN 0 ELSE 191>>
    ELSE Utf8Bad
IsUtf8(bytes) == FoldLeft(Utf8Step, <<0, 0, 0>>, bytes)[1] = 0

HasBom(bytes) == Len(bytes) >= 3 /\ bytes[1] = 239 /\ bytes[2] = 187 /\ bytes[3] = 191

-----------------------------------------------------------------------------
(* The input. S.b are the bytes that can be had; when S.ends is FALSE, asking  *)
(* for more than them fails (the reader is broken) instead of ending. At the   *)
(* positions S.intr the reader is interrupted once before it delivers.        *)
(* A reader that fails ends in status "fail"; with deviation INTR, one that is *)
(* interrupted while the size of an integer is peeked at, or while bytes are   *)
(* skipped, ends in status "intr".                                            *)
Whole(B) == [b |-> B, ends |-> TRUE, intr |-> {}]
Fail == <<"fail", 0, <<>> >>
Intr == <<"intr", 0, <<>> >>

\* Up to where bytes p..q-1 of a region ending at e can be read: "ok", "eof" or "fail".
Reach(S, p, q, e) ==
    IF q <= e /\ q <= Len(S.b) THEN "ok"
    ELSE IF e <= Len(S.b) \/ S.ends THEN "eof" ELSE "fail"

Slice(S, p, q) == SubSeq(S.b, p + 1, q)

-----------------------------------------------------------------------------
(* Variable-width integers and headers. <<"eof">> means the region ended.     *)
ReadVarint(S, p, e) ==
    LET first == Reach(S, p, p + 1, e) IN
    IF first # "ok" THEN <<first, 0, Zero8>>
    ELSE LET n == TrailingZeros(S.b[p + 1])
             rest == Reach(S, p, p + 1 + n, e)
         IN IF rest # "ok" THEN <<rest, 0, Zero8>>
            ELSE <<"ok", p + 1 + n, VarintValue(Slice(S, p, p + 1 + n))>>

\* <<"ok", position of the payload, index, size>>
ReadHeader(dv, S, p, e) ==
    LET tag == ReadVarint(S, p, e) IN
    IF tag[1] # "ok" THEN tag
    ELSE LET index == Shr8(tag[3], 2)
             mode  == tag[3][1] % 4
             q     == tag[2]
         IN CASE mode = 0 -> <<"ok", q, index, 0>>
              [] mode = 1 -> <<"ok", q, index, 8>>
              [] mode = 2 -> IF "INTR" \in dv /\ q \in S.intr /\ q < e THEN Intr
                             ELSE LET x == Reach(S, q, q + 1, e) IN
                                  IF x # "ok" THEN <<x, 0, Zero8>>
                                  ELSE <<"ok", q, index, 1 + TrailingZeros(S.b[q + 1])>>
              [] mode = 3 -> LET s == ReadVarint(S, q, e) IN
                             IF s[1] # "ok" THEN s ELSE <<"ok", s[2], index, ToNat(s[3])>>

\* Position of the declared field with that index, 0 if there is none.
FieldAt(d, index) ==
    IF \E j \in 1..Len(d.f) : d.f[j].i = index THEN CHOOSE j \in 1..Len(d.f) : d.f[j].i = index ELSE 0

\* End of a region of size s that starts at p inside a region ending at e; -1 if refused.
RegionEnd(dv, p, s, e, h) ==
    IF p + s <= e THEN p + s
    ELSE IF "CLAMP" \in dv THEN e
    ELSE IF "OVERREAD" \in dv /\ p + s <= h THEN p + s
    ELSE -1

-----------------------------------------------------------------------------
RECURSIVE DecodeMessage(_, _, _, _, _, _, _), DecodeStruct(_, _, _, _, _, _, _), DecodeChoice(_, _, _, _, _, _, _),
          DecodePayload(_, _, _, _, _, _, _, _), DecodeElement(_, _, _, _, _, _, _, _), ElementLoop(_, _, _, _, _, _, _)

AllocRefused(dv, t, s, room) ==
    LET texts == t[1] \in {"Bytes", "String"}
        floats == t = <<"Array", <<"F64">> >>
    IN \/ "CLAIM" \in dv /\ s > room + 64 /\ (texts \/ floats)
       \/ "HUGE" \in dv /\ texts /\ s >= HugeLimit
       \/ "HUGE" \in dv /\ floats /\ s >= HugeLimit \div 8

DecodeText(dv, bytes, e) ==
    IF ~IsUtf8(bytes) THEN IF "LAXUTF8" \in dv THEN <<"ok", e, LaxText>> ELSE Err
    ELSE IF "BOM" \in dv /\ HasBom(bytes) THEN <<"ok", e, SubSeq(bytes, 4, Len(bytes))>>
    ELSE <<"ok", e, bytes>>

\* The length of a [Unit].
UnitCount(dv, r) ==
    IF IsOk(r) /\ "UNITLEN" \in dv
    THEN IF \E i \in 5..8 : r[3][i] # 0 THEN Err
         ELSE IF ~Less8(r[3], FromNat(HugeLimit)) THEN Huge ELSE r
    ELSE r

ReadInt(kind, S, p, e) ==
    LET r == ReadVarint(S, p, e)
    IN CASE r[1] = "ok" -> <<"ok", r[2], UnScalar(kind, r[3])>>
         [] r[1] = "eof" -> Err
         [] OTHER -> Fail

\* Eight bytes.
ReadFixed(S, p, e) ==
    LET r == Reach(S, p, p + 8, e)
    IN CASE r = "ok" -> <<"ok", p + 8, Slice(S, p, p + 8)>>
         [] r = "eof" -> Err
         [] OTHER -> Fail

\* Everything up to the end of the region.
ReadRest(S, p, e) ==
    IF e <= Len(S.b) \/ S.ends THEN <<"ok", e, Slice(S, p, e)>> ELSE Fail

\* One scalar as an array element.
ReadScalar(t, S, p, e) ==
    IF t[1] = "F64" THEN ReadFixed(S, p, e)
    ELSE ReadInt(t[1], S, p, e)

\* Loops are folds over the positions of the region: a step is taken at the positions that reading
\* reaches, every step advances, and a result other than "run" ends the loop. (Recursion would do, but TLC's
\* cost per operator application grows with the depth of the recursion.)
Positions(S, p, e) ==
    LET last == IF e <= Len(S.b) THEN e ELSE Len(S.b) + 1 IN [k \in 1..(IF last > p THEN last - p ELSE 0) |-> p + k - 1]
Loop(step(_), S, p, e, acc) ==
    FoldLeft(LAMBDA st, q : IF st[1] = "run" /\ st[2] = q THEN step(st) ELSE st, <<"run", p, acc>>, Positions(S, p, e))
Go(pos, acc) == <<"run", pos, acc>>
\* The result of a loop that ran into the end of its region.
Ended(st, pos) == IF st[1] = "run" THEN <<"ok", pos, st[3]>> ELSE st

\* Scalars up to the end of the region; an incomplete last one is dropped.
ScalarLoop(dv, t, S, p, e) ==
    LET st == Loop(LAMBDA s : LET r == ReadScalar(t, S, s[2], e)
                              IN IF IsOk(r) THEN Go(r[2], Append(s[3], r[3]))
                                 ELSE IF r = Fail THEN Fail ELSE <<"stop", s[2], s[3]>>,
                   S, p, e, <<>>)
    IN IF st = Fail THEN Fail ELSE <<"ok", IF "RESYNC" \in dv THEN st[2] ELSE e, st[3]>>

\* (size, element) pairs up to the end of the region.
ElementLoop(dv, env, t, S, p, e, h) ==
    LET st == Loop(LAMBDA acc :
                 LET s == ReadVarint(S, acc[2], e) IN
                 IF s[1] = "fail" THEN Fail
                 ELSE IF s[1] # "ok" THEN <<"ok", IF "RESYNC" \in dv THEN acc[2] ELSE e, acc[3]>>
                 ELSE LET n == ToNat(s[3])
                          end == RegionEnd(dv, s[2], n, e, h)
                      IN IF end < 0 THEN Err
                         ELSE LET r == DecodeElement(dv, env, t, n, S, s[2], end, h)
                              IN IF IsOk(r) THEN Go(r[2], Append(acc[3], r[3])) ELSE r,
                 S, p, e, <<>>)
    IN Ended(st, IF "RESYNC" \in dv THEN st[2] ELSE e)

\* A value that is an array element (or the elements of a nested array) in region p..e-1,
\* announced with size s.
DecodeElement(dv, env, t, s, S, p, e, h) ==
    CASE AllocRefused(dv, t, s, e - p) -> Huge
      [] t[1] = "Bytes" -> ReadRest(S, p, e)
      [] t[1] = "String" -> LET r == ReadRest(S, p, e) IN IF IsOk(r) THEN DecodeText(dv, r[3], e) ELSE r
      [] t[1] = "Ref" -> DecodeMessage(dv, env, t[2], S, p, e, h)
      [] t[1] = "Array" ->
            LET k == t[2][1] IN
            IF k = "Unit" THEN UnitCount(dv, ReadInt("U64", S, p, e))
            ELSE IF k = "F64" \/ IsScalarKind(k) THEN ScalarLoop(dv, t[2], S, p, e)
            ELSE ElementLoop(dv, env, t[2], S, p, e, h)
      [] OTHER -> Err

\* A value that is the payload of a field with announced size s, in region p..e-1.
DecodePayload(dv, env, t, s, S, p, e, h) ==
    CASE t[1] = "Unit" -> <<"ok", p, <<>> >>
      [] t[1] = "F64" -> IF s = 0 THEN <<"ok", p, Zero8>> ELSE ReadScalar(t, S, p, e)
      [] IsScalarKind(t[1]) \/ IsUnitArray(t) ->
            LET kind == IF t[1] = "Array" THEN "U64" ELSE t[1]
                r == CASE s = 0 -> <<"ok", p, UnScalar(kind, Zero8)>>
                       [] s = 8 -> LET f == ReadFixed(S, p, e) IN IF IsOk(f) THEN <<"ok", f[2], UnScalar(kind, f[3])>> ELSE f
                       [] OTHER -> ReadInt(kind, S, p, e)
            IN IF t[1] = "Array" THEN UnitCount(dv, r) ELSE r
      [] OTHER -> DecodeElement(dv, env, t, s, S, p, e, h)

\* Where reading goes on after an unknown field of size s.
Skip(dv, S, p, s, e) ==
    LET last == IF p + s <= e THEN p + s ELSE e IN
    IF "INTR" \in dv /\ \E q \in S.intr : p <= q /\ q < last THEN Intr
    ELSE IF ~S.ends /\ last > Len(S.b) THEN Fail
    ELSE IF p + s <= e \/ "OVERREAD" \in dv THEN <<"ok", p + s, <<>> >>
    ELSE IF "HANG" \in dv THEN Hang ELSE Err

\* What follows the message proper is skipped: the result r, at the end of the region.
Finish(dv, S, r, e, value) ==
    IF "INTR" \in dv /\ \E q \in S.intr : r[2] <= q /\ q < e THEN Intr
    ELSE IF ~S.ends /\ e > Len(S.b) THEN Fail
    ELSE <<"ok", e, value>>

DecodeStruct(dv, env, n, S, p, e, h) ==
    LET d == env[n]
        st == Loop(LAMBDA acc :
                LET hd == ReadHeader(dv, S, acc[2], e) IN
                IF hd[1] \in {"fail", "intr"} THEN <<hd[1], 0, <<>> >>
                ELSE IF hd[1] # "ok" THEN <<"ok", e, acc[3]>>
                ELSE LET j == FieldAt(d, hd[3])
                         s == hd[4]
                     IN IF j = 0
                        THEN LET k == Skip(dv, S, hd[2], s, e)
                             IN IF IsOk(k) THEN Go(k[2], acc[3]) ELSE k
                        ELSE LET end == RegionEnd(dv, hd[2], s, e, h)
                             IN IF end < 0 THEN Err
                                ELSE LET r == DecodePayload(dv, env, d.f[j].t, s, S, hd[2], end, h)
                                     IN IF ~IsOk(r) THEN r
                                        ELSE Go(r[2], IF acc[3][j] # <<>> /\ "LAST" \notin dv THEN acc[3]
                                                      ELSE [acc[3] EXCEPT ![j] = <<r[3]>>]),
                S, p, e, [j \in 1..Len(d.f) |-> <<>>])
        r == Ended(st, e)
    IN IF IsOk(r) /\ \E j \in 1..Len(d.f) : d.f[j].r = "req" /\ r[3][j] = <<>> THEN Err ELSE r

DecodeChoice(dv, env, n, S, p, e, h) ==
    LET d == env[n]
        hd == ReadHeader(dv, S, p, e)
    IN IF hd[1] \in {"fail", "intr"} THEN <<hd[1], 0, <<>> >>
       ELSE IF hd[1] # "ok" THEN Err
       ELSE LET j == FieldAt(d, hd[3])
                s == hd[4]
            IN IF j = 0
               THEN LET k == Skip(dv, S, hd[2], s, e)
                    IN IF IsOk(k) THEN DecodeChoice(dv, env, n, S, k[2], e, h) ELSE k
               ELSE LET end == RegionEnd(dv, hd[2], s, e, h)
                    IN IF end < 0 THEN Err
                       ELSE LET r == DecodePayload(dv, env, d.f[j].t, s, S, hd[2], end, h)
                            IN IF ~IsOk(r) THEN r
                               ELSE IF d.f[j].r # "opt" THEN Finish(dv, S, r, e, <<j, r[3]>>)
                               ELSE IF r[2] > e THEN Err
                               ELSE LET fb == DecodeChoice(dv, env, n, S, r[2], e, h)
                                    IN IF IsOk(fb) THEN <<"ok", e, <<j, r[3], fb[3]>> >> ELSE fb

DecodeMessage(dv, env, n, S, p, e, h) ==
    IF env[n].k = "struct"
    THEN DecodeStruct(dv, env, n, S, p, e, h)
    ELSE DecodeChoice(dv, env, n, S, p, e, h)

\* Decoding a message that is all of the bytes B from p up to e. Only a reader with OVERREAD knows about more.
DecodeWith(devs, env, n, B, p, e) == DecodeMessage(devs, env, n, Whole(B), p, e, Len(B))
Decode(i, env, n, B, p, e) == DecodeWith(Deviations(i), env, n, B, p, e)

\* Decoding from a reader that delivers B and then ends, or (if it does not end) fails, being interrupted at intr.
DecodeStream(devs, env, n, B, ends, intr) ==
    DecodeMessage(devs, env, n, [b |-> B, ends |-> ends, intr |-> intr], 0, IF ends THEN Len(B) ELSE BIG, Len(B))

\* Do two decoded values agree, given that NaN bit patterns and replaced text are not observable in "ts"?
IsNaN(v) == (v[8] % 128 = 127 /\ v[7] >= 240) /\ ((v[7] % 16) + v[6] + v[5] + v[4] + v[3] + v[2] + v[1] > 0)
RECURSIVE SameSeen(_, _, _, _), SameSeenMessage(_, _, _, _)
SameSeen(env, t, a, b) ==
    CASE t[1] = "F64" -> a = b \/ (IsNaN(a) /\ IsNaN(b))
      [] t[1] = "String" -> a = LaxText \/ a = b
      [] t[1] = "Array" /\ ~IsUnitArray(t) -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameSeen(env, t[2], a[i], b[i])
      [] t[1] = "Ref" -> SameSeenMessage(env, t[2], a, b)
      [] OTHER -> a = b
SameSeenMessage(env, n, a, b) ==
    LET d == env[n] IN
    IF d.k = "struct"
    THEN /\ Len(a) = Len(b)
         /\ \A j \in 1..Len(a) : IF a[j] = <<>> \/ b[j] = <<>> THEN Len(a[j]) = Len(b[j])
                                 ELSE SameSeen(env, d.f[j].t, a[j][1], b[j][1])
    ELSE /\ Len(a) = Len(b) /\ a[1] = b[1]
         /\ SameSeen(env, d.f[a[1]].t, a[2], b[2])
         /\ (Len(a) = 3 => SameSeenMessage(env, n, a[3], b[3]))
=============================================================================
