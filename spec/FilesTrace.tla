----------------------------- MODULE FilesTrace -----------------------------
(* Judges what commands leave behind. Records:                                 *)
(*   op "fmt": [w, entry, rc, after, chk, chk2, again]                          *)
(*      format was run on w; after is the sequence of [p, x] of all files after  *)
(*      it. chk, chk2 are [rc, same] of format --check before and after it, again  *)
(*      that of a second format; same says that no file was touched.             *)
(*   op "fmtro": [w, entry, rc, said, after, good, ro]                           *)
(*      format was run by someone who cannot write the files ro; good is what    *)
(*      is there after formatting by someone who can.                            *)
(*   op "layout": [w, v, entry, after, after2]                                   *)
(*      format was run on both w and v.                                         *)
(*   op "style": [w, entry, rc, after]                                           *)
(*      format was run on w.                                                    *)
(*   op "gen": [w, entry, outs, rc, said, changed, dirs, right, blocked, had]    *)
(*      generate was asked to write the files outs; changed are the files that   *)
(*      are new or different, dirs the directories that are new, said whether an  *)
(*      error was printed, right the files asked for that have the contents a    *)
(*      run of its own gives, blocked those that cannot be written, had the      *)
(*      directories there were.                                                  *)
(*   op "same": [w, entry, v, entry2, same]                                      *)
(*      whether the code generated from two worlds is the same.                 *)
(*   op "part": [w, entry, v, same]                                             *)
(*      the same for v, where a file of w was formatted on its own.              *)
EXTENDS Tool, Printer, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TV_TRACE)
VARIABLES l, verdict

TextAfter(after, p) == after[CHOOSE i \in 1..Len(after) : after[i].p = p].x
SamePaths(w, after) == {after[i].p : i \in 1..Len(after)} = {w.files[i].p : i \in FileNumbers(w)} /\ Len(after) = Len(w.files)
Untouched(w, after, except) ==
    \A i \in FileNumbers(w) : w.files[i].p \in except \/ w.files[i].bad \/ TextAfter(after, w.files[i].p) = w.files[i].x

SameSchema(x, y) == LET a == Schema(x) b == Schema(y) IN a.ok /\ b.ok /\ Plain(a.schema) = Plain(b.schema)

FmtFaults(r) ==
    LET ld == Load(r.w, r.entry)
        changed == {p \in ld.paths : ld.ok /\ TextAfter(r.after, p) # r.w.files[FileAt(r.w, p)].x}
    IN IF ~SamePaths(r.w, r.after) THEN {"files"}
       ELSE IF ~ld.ok THEN (IF r.rc = 1 THEN {} ELSE {"status"}) \cup (IF Untouched(r.w, r.after, {}) THEN {} ELSE {"touched"})
                           \cup (IF r.chk = [rc |-> 1, same |-> TRUE] THEN {} ELSE {"check"})
       ELSE (IF r.rc = 0 THEN {} ELSE {"status"})
            \cup (IF Untouched(r.w, r.after, ld.paths) THEN {} ELSE {"touched"})
            \cup (IF \A p \in ld.paths : SameSchema(r.w.files[FileAt(r.w, p)].x, TextAfter(r.after, p)) THEN {} ELSE {"meaning"})
            \cup (IF r.chk = [rc |-> IF changed = {} THEN 0 ELSE 1, same |-> TRUE] THEN {} ELSE {"check"})
            \cup (IF r.chk2 = [rc |-> 0, same |-> TRUE] THEN {} ELSE {"check2"})
            \cup (IF r.again = [rc |-> 0, same |-> TRUE] THEN {} ELSE {"again"})

\* Files that cannot be written keep their text, and the command fails if one of them is not formatted. The others are
\* formatted or as they were.
BlockedFaults(r) ==
    LET ld == Load(r.w, r.entry)
        ro == {r.ro[i] : i \in 1..Len(r.ro)}
        stuck == {p \in ld.paths \cap ro : TextAfter(r.good, p) # r.w.files[FileAt(r.w, p)].x}
    IN (IF SamePaths(r.w, r.after) THEN {} ELSE {"files"})
       \cup (IF (r.rc = 0) = (ld.ok /\ stuck = {}) /\ r.rc \in {0, 1} THEN {} ELSE {"status"})
       \cup (IF r.rc = 0 \/ r.said THEN {} ELSE {"silent"})
       \cup (IF Untouched(r.w, r.after, IF ld.ok THEN ld.paths \ ro ELSE {}) THEN {} ELSE {"touched"})
       \cup (IF ld.ok /\ \E p \in ld.paths : TextAfter(r.after, p) \notin {TextAfter(r.good, p), r.w.files[FileAt(r.w, p)].x} THEN {"contents"} ELSE {})
       \cup (IF r.rc = 0 /\ \E p \in ld.paths : TextAfter(r.after, p) # TextAfter(r.good, p) THEN {"unformatted"} ELSE {})

\* Schemas that differ in layout only become the same text, and others do not.
LayoutFaults(r) ==
    LET a == Load(r.w, r.entry) b == Load(r.v, r.entry)
    IN IF ~a.ok \/ ~b.ok \/ a.paths # b.paths THEN {}
       ELSE IF \A p \in a.paths :
                 (TextAfter(r.after, p) = TextAfter(r.after2, p))
                 = (Plain(SchemaOf(r.w, a, p)) = Plain(SchemaOf(r.v, b, p)))
            THEN {} ELSE {"layout"}

\* A file that format has been through has the one text that is right.
StyleFaults(r) ==
    LET ld == Load(r.w, r.entry)
    IN IF ~ld.ok THEN {}
       ELSE IF r.rc = 0 /\ \A p \in ld.paths : Formatted(TextAfter(r.after, p), Items(SchemaOf(r.w, ld, p))) THEN {} ELSE {"style"}

Accepted(w, ld) == ld.ok /\ Validate(w, ld).ok
AsSet(s) == {s[i] : i \in 1..Len(s)}
\* The directories that the given files need and that are not there yet.
NewDirs(r, outs) == {d \in UNION {{SubSeq(o, 1, k) : k \in 1..(Len(o) - 1)} : o \in outs} : d \notin AsSet(r.had)}
\* Nothing happens unless all schemas are accepted. Then every file asked for gets its contents (one that has them may be left
\* alone) and nothing else is touched. If some file cannot be written the command fails, and no file is half written.
GenFaults(r) ==
    LET accepted == Accepted(r.w, Load(r.w, r.entry))
        outs == AsSet(r.outs)
        blocked == AsSet(r.blocked)
        free == outs \ blocked
        changed == AsSet(r.changed)
        right == AsSet(r.right)
    IN IF ~accepted
       THEN (IF r.rc = 1 THEN {} ELSE {"status"}) \cup (IF r.said THEN {} ELSE {"silent"})
            \cup (IF changed = {} THEN {} ELSE {"touched"}) \cup (IF r.dirs = <<>> THEN {} ELSE {"dirs"})
       ELSE IF blocked # {}
       THEN (IF r.rc = 1 THEN {} ELSE {"status"}) \cup (IF r.said THEN {} ELSE {"silent"})
            \cup (IF changed \subseteq free THEN {} ELSE {"touched"})
            \cup (IF changed \subseteq right THEN {} ELSE {"contents"})
            \cup (IF AsSet(r.dirs) \subseteq NewDirs(r, outs) THEN {} ELSE {"dirs"})
       ELSE (IF r.rc = 0 THEN {} ELSE {"status"})
            \cup (IF changed \subseteq outs THEN {} ELSE {"touched"})
            \cup (IF right = outs THEN {} ELSE {"contents"})
            \cup (IF AsSet(r.dirs) = NewDirs(r, outs) THEN {} ELSE {"dirs"})

SameFaults(r) ==
    LET a == Load(r.w, r.entry) b == Load(r.v, r.entry2)
    IN IF ~Accepted(r.w, a) \/ ~Accepted(r.v, b) THEN {}
       ELSE IF r.same = (Meaning(r.w, a) = Meaning(r.v, b)) THEN {} ELSE {"code"}

PartFaults(r) ==
    LET a == Load(r.w, r.entry) b == Load(r.v, r.entry)
    IN IF ~Accepted(r.w, a) THEN {}
       ELSE IF ~Accepted(r.v, b) \/ ~r.same THEN {"code"}
       ELSE IF Meaning(r.w, a) = Meaning(r.v, b) THEN {} ELSE {"meaning"}

Faults(r) ==
    CASE r.op = "fmt" -> FmtFaults(r) [] r.op = "layout" -> LayoutFaults(r) [] r.op = "gen" -> GenFaults(r) [] r.op = "same" -> SameFaults(r)
      [] r.op = "part" -> PartFaults(r) [] r.op = "fmtro" -> BlockedFaults(r) [] r.op = "style" -> StyleFaults(r)

Kind(r) ==
    CASE r.op \in {"fmt", "gen", "fmtro", "style"} -> IF r.rc = 0 THEN "done" ELSE "refused"
      [] r.op = "layout" -> IF r.after = r.after2 THEN "equal" ELSE "different"
      [] r.op \in {"same", "part"} -> IF r.same THEN "equal" ELSE "different"

Init == l \in 1..Len(Trace) /\ verdict = "rec"
Next == /\ verdict = "rec"
        /\ UNCHANGED l
        /\ LET f == Faults(Trace[l]) IN
           /\ verdict' = IF f = {} THEN Kind(Trace[l]) ELSE "bad"
           /\ IF f = {} THEN PrintT("TVKIND " \o Trace[l].op \o " " \o verdict')
              ELSE PrintT("TVBAD " \o ToString(l) \o " " \o ToJson([faults |-> f]))
Spec == Init /\ [][Next]_<<l, verdict>>
=============================================================================
