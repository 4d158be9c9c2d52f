------------------------------ MODULE PrinterMC ------------------------------
(* Schemas of all shapes: what they are formatted to means the same and is      *)
(* formatted to itself. Source of the cases replayed against the tool.         *)
EXTENDS Printer, Json

W(a) == <<96 + a>>
NoComment == <<>>
One == << <<W(1), W(2)>> >>
Two == << <<W(3)>>, <<W(4), W(5), W(6)>> >>
Choice == <<99, 104, 111, 105, 99, 101>>     \* a keyword
FooBar == <<70, 111, 111, 66, 97, 114>>
Types == {<<"Unit">>, <<"Array", <<"Unit">> >>, <<"Name", <<>>, FooBar, 1, 1>>,
          <<"Array", <<"Array", <<"Name", Choice, Choice, 1, 1>> >> >>}
FieldSet == [comment : {NoComment, One}, r : {"required", "optional", "asymmetric"}, t : Types]
FieldNames == <<Choice, FooBar, W(1)>>
Mk(f, k) == [comment |-> f.comment, r |-> f.r, name |-> FieldNames[k], t |-> f.t, i |-> DigitsOf(11 - k), a |-> 1, z |-> 1]
FieldSeqs == {<<>>} \cup {<<Mk(f, 1)>> : f \in FieldSet} \cup {<<Mk(f, 1), Mk(g, 2)>> : f, g \in FieldSet}
DeletedSeqs == {<<>>, << <<3>> >>, << <<1, 2>>, <<9>>, <<1, 1>> >>}
Dcl(c, kind, name, fields, deleted) == [comment |-> c, k |-> kind, name |-> name, fields |-> fields, deleted |-> deleted, a |-> 1, z |-> 1]
Imp(name, path) == [name |-> name, path |-> path, a |-> 1, z |-> 1]
Sch(c, ims, ds) == [comment |-> c, imports |-> ims, decls |-> ds]

Wide1 == {Sch(NoComment, <<>>, <<Dcl(c, k, Choice, fs, d)>>) : c \in {NoComment, Two}, k \in {"struct", "choice"}, fs \in FieldSeqs, d \in DeletedSeqs}
Plainf == Mk([comment |-> NoComment, r |-> "required", t |-> <<"Unit">>], 1)
SomeFields == {<<>>, <<Plainf>>, <<[Plainf EXCEPT !.comment = Two]>>, <<Plainf, [Plainf EXCEPT !.name = FooBar, !.comment = One], [Plainf EXCEPT !.name = W(1)]>>}
SomeDecls(name) == {Dcl(c, "struct", name, fs, d) : c \in {NoComment, One}, fs \in SomeFields, d \in {<<>>, << <<7>> >>}}
DeclSeqs == {<<>>} \cup {<<d>> : d \in SomeDecls(FooBar)} \cup {<<d, e>> : d \in SomeDecls(FooBar), e \in SomeDecls(<<233>>)}
BarT == <<98, 97, 114, 46, 116>>                          \* bar.t
SubFooT == <<115, 117, 98, 47, 102, 111, 111, 66, 97, 114, 46, 116>>  \* sub/fooBar.t
ImportSeqs == {<<>>, <<Imp(<<98, 97, 114>>, BarT)>>, <<Imp(<<66, 97, 114>>, BarT)>>, <<Imp(Choice, BarT)>>,
               <<Imp(FooBar, SubFooT), Imp(<<98, 97, 114>>, BarT)>>, <<Imp(<<122>>, BarT), Imp(<<102, 111, 111, 95, 98, 97, 114>>, SubFooT)>>}
Deep == {Sch(c, ims, ds) : c \in {NoComment, One, Two}, ims \in ImportSeqs, ds \in DeclSeqs}

VARIABLES s, ph
Init == s \in Wide1 \cup Deep /\ ph = "schema"
Next == /\ ph = "schema" /\ ph' = "printed" /\ UNCHANGED s
        /\ PrintT("TVCASE " \o ToJson([x |-> Printed(Items(s))]))
Spec == Init /\ [][Next]_<<s, ph>>

Again == LET items == Items(s) x == Printed(items) q == Schema(x)
         IN /\ q.ok
            /\ Plain(q.schema) = Plain(s)
            /\ Items(q.schema) = items
            /\ Formatted(x, items)
=============================================================================
