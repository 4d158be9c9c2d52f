-------------------------------- MODULE Wire --------------------------------
(* Types, values and the binary encoding (README, "Binary encoding").        *)
(*                                                                           *)
(* A schema environment env is a sequence of declarations                    *)
(*    [k |-> "struct" | "choice", f |-> <<field, ...>>]                       *)
(* and a field is [r |-> "req" | "opt" | "asym", i |-> index, t |-> type].    *)
(* Types: <<"Unit">>, <<"Bool">>, <<"U64">>, <<"S64">>, <<"F64">>, <<"Bytes">>, *)
(* <<"String">>, <<"Array", t>>, <<"Ref", n>> (the n-th declaration).          *)
(*                                                                           *)
(* Values are nested tuples whose shape the type determines:                  *)
(*   Unit <<>>; Bool <<0>> or <<1>>; U64, S64, F64 eight bytes (F64: the bits); *)
(*   Bytes, String: their bytes; [Unit]: the length as eight bytes;           *)
(*   other arrays: the tuple of elements;                                     *)
(*   struct: per declared field <<>> (absent) or <<v>>;                       *)
(*   choice: <<k, v>> or <<k, v, fallback>>, k the position of the case.      *)
EXTENDS ByteArith, FiniteSets, SequencesExt

TagOf(index, mode) == Add8(Shl8(index, 2), FromNat(mode))

IsScalarKind(k) == k \in {"Bool", "U64", "S64"}

\* The unsigned integer that stands for a scalar on the wire.
Scalar(kind, v) ==
    CASE kind = "Bool" -> FromNat(v[1])
      [] kind = "U64"  -> v
      [] kind = "S64"  -> ZigZag(v)

\* The inverse; every nonzero integer is a true Bool.
UnScalar(kind, u) ==
    CASE kind = "Bool" -> IF u = Zero8 THEN <<0>> ELSE <<1>>
      [] kind = "U64"  -> u
      [] kind = "S64"  -> UnZigZag(u)

\* Payload of an integer that is the value of a field: 0 takes no bytes, and
\* integers whose variable-width encoding has 8 or more bytes take 8.
FieldInt(u) == IF u = Zero8 THEN <<>> ELSE IF Less8(u, VarBase[8]) THEN VarintBytes(u) ELSE u

IsUnitArray(t) == t[1] = "Array" /\ t[2][1] = "Unit"

\* Deviation UNITARRAYMODE (see DESIGN.md): the README's rules make a [Unit] field
\* integer-encoded (size mode 2); the generators announce an explicit size (mode 3).
CONSTANT UnitArrayExplicit

IntegerEncoded(t) == IsScalarKind(t[1]) \/ (IsUnitArray(t) /\ ~UnitArrayExplicit)

Header(index, t, size) ==
    IF size = 0 THEN VarintBytes(TagOf(index, 0))
    ELSE IF size = 8 THEN VarintBytes(TagOf(index, 1))
    ELSE IF IntegerEncoded(t) THEN VarintBytes(TagOf(index, 2))
    ELSE VarintBytes(TagOf(index, 3)) \o VarintBytes(FromNat(size))

\* The concatenation of the byte strings op(x) over the elements x of a sequence.
Concat(op(_), seq) == FoldLeft(LAMBDA acc, x : acc \o op(x), <<>>, seq)

\* A byte string preceded by its length.
Announced(b) == VarintBytes(FromNat(Len(b))) \o b

RECURSIVE EncodeMessage(_, _, _), EncodeElement(_, _, _), EncodePayload(_, _, _), EncodeField(_, _, _)

\* A value inside an array (no header, no special cases).
EncodeElement(env, t, v) ==
    CASE t[1] = "Unit" -> <<>>
      [] t[1] = "F64" -> v
      [] IsScalarKind(t[1]) -> VarintBytes(Scalar(t[1], v))
      [] t[1] \in {"Bytes", "String"} -> v
      [] t[1] = "Array" ->
            LET e == t[2] IN
            IF e[1] = "Unit" THEN VarintBytes(v)
            ELSE IF e[1] = "F64" \/ IsScalarKind(e[1])
                 THEN Concat(LAMBDA x : EncodeElement(env, e, x), v)
                 ELSE Concat(LAMBDA x : Announced(EncodeElement(env, e, x)), v)
      [] t[1] = "Ref" -> EncodeMessage(env, t[2], v)

\* A value that is the payload of a field.
EncodePayload(env, t, v) ==
    CASE t[1] = "F64" -> IF v = Zero8 THEN <<>> ELSE v
      [] IsScalarKind(t[1]) -> FieldInt(Scalar(t[1], v))
      [] IsUnitArray(t) -> FieldInt(v)
      [] OTHER -> EncodeElement(env, t, v)

EncodeField(env, f, v) ==
    LET p == EncodePayload(env, f.t, v) IN Header(f.i, f.t, Len(p)) \o p

EncodeMessage(env, n, v) ==
    LET d == env[n] IN
    IF d.k = "struct"
    THEN Concat(LAMBDA j : IF v[j] = <<>> THEN <<>> ELSE EncodeField(env, d.f[j], v[j][1]),
                [j \in 1..Len(d.f) |-> j])
    ELSE EncodeField(env, d.f[v[1]], v[2])
         \o (IF d.f[v[1]].r = "req" THEN <<>> ELSE EncodeMessage(env, n, v[3]))

-----------------------------------------------------------------------------
(* What a reader sees of a value that was written: optional and asymmetric   *)
(* fields arrive as they were; the fallback of an asymmetric case does not.  *)

RECURSIVE Received(_, _, _), ReceivedMessage(_, _, _)
Received(env, t, v) ==
    CASE t[1] = "Array" /\ t[2][1] \in {"Array", "Ref"} /\ ~IsUnitArray(t) ->
            [i \in 1..Len(v) |-> Received(env, t[2], v[i])]
      [] t[1] = "Ref" -> ReceivedMessage(env, t[2], v)
      [] OTHER -> v
ReceivedMessage(env, n, v) ==
    LET d == env[n] IN
    IF d.k = "struct"
    THEN [j \in 1..Len(d.f) |-> IF v[j] = <<>> THEN <<>> ELSE << Received(env, d.f[j].t, v[j][1]) >>]
    ELSE IF d.f[v[1]].r = "opt" THEN << v[1], Received(env, d.f[v[1]].t, v[2]), ReceivedMessage(env, n, v[3]) >>
    ELSE << v[1], Received(env, d.f[v[1]].t, v[2]) >>

\* A value a writer may construct.
RECURSIVE Writable(_, _, _), WritableMessage(_, _, _)
Writable(env, t, v) ==
    CASE t[1] = "Array" /\ ~IsUnitArray(t) -> \A i \in 1..Len(v) : Writable(env, t[2], v[i])
      [] t[1] = "Ref" -> WritableMessage(env, t[2], v)
      [] OTHER -> TRUE
WritableMessage(env, n, v) ==
    LET d == env[n] IN
    IF d.k = "struct"
    THEN /\ Len(v) = Len(d.f)
         /\ \A j \in 1..Len(d.f) : IF v[j] = <<>> THEN d.f[j].r = "opt" ELSE Writable(env, d.f[j].t, v[j][1])
    ELSE /\ v[1] \in 1..Len(d.f)
         /\ Writable(env, d.f[v[1]].t, v[2])
         /\ IF d.f[v[1]].r = "req" THEN Len(v) = 2 ELSE Len(v) = 3 /\ WritableMessage(env, n, v[3])
=============================================================================
