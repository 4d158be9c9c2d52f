------------------------------ MODULE ToolTrace ------------------------------
(* Judges recorded runs of the tool. A record is                              *)
(*   [w: world, entry: path, asks: set of what is judged (a tuple),             *)
(*    f, g: what format and generate did: [rc, errs, un, cyc], ls: files listed] *)
(* errs are the errors shown with a file, [f: path, a, z: lines, s: the text of  *)
(* these lines as shown, m: what is marked of each, n: what is named, as texts], *)
(* un counts the errors shown without one, cyc are the    *)
(* chains of types reported as cycles, each a tuple of [n: namespace, t: name].  *)
EXTENDS Tool, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TV_TRACE)
VARIABLES l, verdict

Asked(r, x) == \E i \in 1..Len(r.asks) : r.asks[i] = x

Places(errs) == [i \in 1..Len(errs) |-> <<errs[i].f, errs[i].a, errs[i].z>>]

\* Lines of a text, without white space at their end.
LinesOf(x) ==
    LET r == FoldLeft(LAMBDA acc, c : IF c = 10 THEN <<Append(acc[1], acc[2]), <<>> >> ELSE <<acc[1], Append(acc[2], c)>>,
                      << <<>>, <<>> >>, x)
    IN Append(r[1], r[2])
TrimEnd(line) ==
    LET k == {i \in 1..Len(line) : ~IsSpace(line[i])}
    IN IF k = {} THEN <<>> ELSE SubSeq(line, 1, CHOOSE i \in k : \A j \in k : j <= i)
ShownRight(w, e) ==
    IsFile(w, e.f) /\ LET ls == LinesOf(w.files[FileAt(w, e.f)].x)
                      IN /\ e.z <= Len(ls) /\ Len(e.s) = e.z - e.a + 1
                         /\ \A k \in 1..Len(e.s) : e.s[k] = TrimEnd(ls[e.a + k - 1])
AllShownRight(w, errs) == \A i \in 1..Len(errs) : ShownRight(w, errs[i])

\* A reported cycle is a walk along references that comes back to a type it has passed.
TypeNamed(w, ld, n) ==
    LET hits == {x \in Types(w, ld) : NamespaceKey(ld.base, x[1]) = [i \in 1..Len(n.n) |-> Snake(n.n[i])]
                                      /\ Clash(SchemaOf(w, ld, x[1]).decls[x[2]].name, n.t)}
    IN IF hits = {} THEN <<>> ELSE CHOOSE x \in hits : TRUE
Chain(w, ld, c) ==
    LET t == [i \in 1..Len(c) |-> TypeNamed(w, ld, c[i])]
    IN /\ Len(c) >= 2
       /\ \A i \in 1..Len(c) : t[i] # <<>>
       /\ \A i \in 1..(Len(c) - 1) : t[i + 1] \in Refers(w, ld, t[i])
       /\ \E i \in 1..(Len(c) - 1) : t[i] = t[Len(c)]

SeenAll(w, tables, must) == [k \in 1..Len(must) |-> SeenAs(w, tables, must[k])]

LoadFaults(w, ld, o) ==
    LET places == Places(o.errs)
        tables == Tables(w)
    IN
    IF ld.ok THEN {}
    ELSE (IF LoadErrorsAgree(w, tables, ld, places) THEN {} ELSE {"places"})
         \cup (IF AllFit(SeenAll(w, tables, ld.must), o.errs) THEN {} ELSE {"marks"})
         \cup (IF AllShownRight(w, o.errs) THEN {} ELSE {"lines"})
         \cup (IF o.un = (IF ld.entry THEN 1 ELSE 0) THEN {} ELSE {"nofile"})

FormatFaults(r, ld) ==
    IF r.f.rc # (IF ld.ok THEN 0 ELSE 1) THEN {"format"}
    ELSE IF Asked(r, "errors") THEN LoadFaults(r.w, ld, r.f) ELSE {}

GenerateFaults(r, ld) ==
    IF ~ld.ok THEN (IF r.g.rc # 1 THEN {"generate"} ELSE IF Asked(r, "errors") THEN LoadFaults(r.w, ld, r.g) ELSE {})
    ELSE LET va == Validate(r.w, ld) IN
         IF r.g.rc # (IF va.ok THEN 0 ELSE 1) THEN {"generate"}
         ELSE IF va.ok \/ ~Asked(r, "errors") THEN {}
         ELSE LET tables == Tables(r.w) IN
              (IF SameBag([k \in 1..Len(va.must) |-> Lines(r.w, tables, va.must[k])], Places(r.g.errs)) THEN {} ELSE {"places"})
              \cup (IF AllFit(SeenAll(r.w, tables, va.must), r.g.errs) THEN {} ELSE {"marks"})
              \cup (IF AllShownRight(r.w, r.g.errs) THEN {} ELSE {"lines"})
              \cup (IF va.cyclic THEN (IF Len(r.g.cyc) >= 1 /\ \A i \in 1..Len(r.g.cyc) : Chain(r.w, ld, r.g.cyc[i]) THEN {} ELSE {"cycle"})
                    ELSE IF r.g.cyc # <<>> THEN {"cycle"} ELSE {})
              \cup (IF r.g.un = Len(r.g.cyc) THEN {} ELSE {"nofile"})

ListFaults(r, ld) ==
    IF ~Asked(r, "list") \/ r.g.rc # 0 THEN {}
    ELSE IF {r.ls[i] : i \in 1..Len(r.ls)} = ld.paths /\ Len(r.ls) = Cardinality(ld.paths) THEN {} ELSE {"list"}

Faults(r, ld) == (IF Asked(r, "format") THEN FormatFaults(r, ld) ELSE {})
                 \cup (IF Asked(r, "generate") THEN GenerateFaults(r, ld) ELSE {}) \cup ListFaults(r, ld)

Explain(r) ==
    LET ld == Load(r.w, r.entry)
        va == IF ld.ok THEN Validate(r.w, ld) ELSE [must |-> <<>>, cyclic |-> FALSE, ok |-> FALSE]
    IN [faults |-> Faults(r, ld), load |-> ld.ok, valid |-> va.ok, cyclic |-> va.cyclic, must |-> SeenAll(r.w, Tables(r.w), ld.must \o va.must), oneof |-> ld.oneof,
        clash |-> ld.clash, loose |-> ld.loose, paths |-> ld.paths]

Kind(r, ld) == IF ~ld.ok THEN "unloadable" ELSE LET va == Validate(r.w, ld) IN IF va.ok THEN "fine" ELSE IF va.cyclic THEN "cyclic" ELSE "invalid"

Init == l \in 1..Len(Trace) /\ verdict = "rec"
Next == /\ verdict = "rec"
        /\ UNCHANGED l
        /\ LET r == Trace[l]
               ld == Load(r.w, r.entry)
           IN verdict' = IF Faults(r, ld) = {} THEN Kind(r, ld) ELSE "bad"
        /\ IF verdict' = "bad" THEN PrintT("TVBAD " \o ToString(l) \o " " \o ToJson(Explain(Trace[l])))
           ELSE PrintT("TVKIND " \o verdict')
Spec == Init /\ [][Next]_<<l, verdict>>
=============================================================================
