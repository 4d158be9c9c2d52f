------------------------------- MODULE RulesMC -------------------------------
(* All small declarations, sets of references and graphs of types, checked     *)
(* against a direct statement of the rules; source of the cases replayed       *)
(* against the tool.                                                          *)
(*   Mode "indices": up to three fields with indices 0..3 and every set of       *)
(*     deleted indices.                                                        *)
(*   Mode "names": two fields, two types, or two imports with every pair of      *)
(*     names.                                                                  *)
(*   Mode "graphs": every graph of references between three types, spread over   *)
(*     files in every way, with references of every form.                       *)
(*   Mode "refs": every reference from a file to a name, under every way to      *)
(*     import two files of which one imports the other.                         *)
EXTENDS Tool, Json

CONSTANT Mode

VARIABLES c, done

\* Names, as code points: foo Foo foo_bar fooBar FooBar foo_1 foo1 bar foo__bar
\* foobar FOO f_o_o, and some with other letters: e acute in both cases, sharp and long s
Foo == <<102,111,111>>
Bar == <<98,97,114>>
NamePool == {Foo, <<70,111,111>>, <<102,111,111,95,98,97,114>>, <<102,111,111,66,97,114>>, <<70,111,111,66,97,114>>, <<102,111,111,95,49>>,
             <<102,111,111,49>>, Bar, <<102,111,111,95,95,98,97,114>>, <<102,111,111,98,97,114>>, <<70,79,79>>, <<102,95,111,95,111>>,
             <<97,233,97>>, <<97,201,97>>, <<97,95,233,97>>, <<97,223>>, <<97,95,83,83>>, <<97,83,83>>, <<383,97>>, <<83,97>>, <<115,97>>,
             <<937,97>>, <<8486,97>>, <<969,97>>, <<97,8486>>, <<97,95,937>>, <<97,969>>, <<453,97>>, <<454,97>>}

Letter(i) == <<96 + i>>
Fld(name, i) == [comment |-> <<>>, r |-> "required", name |-> name, t |-> <<"Unit">>, i |-> i, a |-> 1, z |-> 1]
Dcl(name, fields, deleted) == [comment |-> <<>>, k |-> "struct", name |-> name, fields |-> fields, deleted |-> deleted, a |-> 1, z |-> 1]

\* A world of one file, as far as validation looks at it.
OneFile(decls) ==
    LET p == << <<109>> >> IN
    <<[files |-> << [p |-> p, x |-> <<>>, bad |-> FALSE] >>, links |-> <<>>, dirs |-> <<>>],
      [base |-> <<>>, ps |-> << [ok |-> TRUE, schema |-> [comment |-> <<>>, imports |-> <<>>, decls |-> decls]] >>, paths |-> {p}]>>

SortedDeleted(s) == LET r == SortSeq(SetToSeq(s), <) IN [k \in 1..Len(r) |-> DigitsOf(r[k])]

\* The rules, stated directly: used and deleted indices are distinct and are exactly 0, 1, ..., n - 1.
RuleIndices(is, del) ==
    LET used == {is[j] : j \in 1..Len(is)}
    IN /\ Cardinality(used) = Len(is)
       /\ used \cap del = {}
       /\ used \cup del = 0..(Cardinality(used \cup del) - 1)

IndexCases == [m : {"indices"}, is : UNION {[1..n -> 0..3] : n \in 0..3}, del : SUBSET (0..3)]
NameCases == [m : {"names"}, of : {"fields", "types", "imports"}, a : NamePool, b : NamePool]
\* e[i]: what type i refers to. place[i]: its file. form: how.
GraphCases == [m : {"graphs"}, e : [1..3 -> SUBSET (1..3)], place : {<<1, 1, 1>>, <<1, 2, 2>>, <<1, 1, 2>>, <<1, 2, 1>>, <<1, 2, 3>>},
               form : {"plain", "array", "optional", "deep"}]
\* File 1 (main) imports 2 under name x (or not at all, "none"), 3 under name y; file 2 imports 3 under name z. has[i]: types of
\* file i. Main refers to <<q, n>>.
Names3 == {Foo, Bar}
RefCases == [m : {"refs"}, x : {"none", "b", "foo", "c"}, y : {"none", "c", "bar", "b"}, z : {"none", "c", "foo"},
             has : [1..3 -> SUBSET {"Foo", "Bar_1"}], q : {"", "b", "c", "foo", "bar", "Foo", "main"}, n : {"Foo", "foo", "bar1"}]

Cases == CASE Mode = "indices" -> IndexCases [] Mode = "names" -> NameCases [] Mode = "graphs" -> GraphCases [] Mode = "refs" -> RefCases

Init == c \in Cases /\ done = FALSE
\* Imports under the same name are not cases here.
Useful == c.m # "refs" \/ ((c.x = "none" \/ c.x # c.y))
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ IF Useful THEN PrintT("TVCASE " \o ToJson(c)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, done>>

-----------------------------------------------------------------------------
AgreeIndices ==
    c.m = "indices" =>
        LET d == Dcl(Foo, [j \in 1..Len(c.is) |-> Fld(Letter(j), DigitsOf(c.is[j]))], SortedDeleted(c.del))
            o == OneFile(<<d>>)
        IN (Validate(o[1], o[2]).ok) = RuleIndices(c.is, c.del)

\* Names are the same ignoring case style if they have the same words; they also clash if the words run together the same.
AgreeNames ==
    c.m = "names" =>
        LET f == OneFile(<<Dcl(Foo, <<Fld(c.a, <<0>>), Fld(c.b, <<1>>)>>, <<>>)>>)
            t == OneFile(<<Dcl(c.a, <<>>, <<>>), Dcl(c.b, <<>>, <<>>)>>)
        IN /\ Validate(f[1], f[2]).ok = ~Clash(c.a, c.b)
           /\ Validate(t[1], t[2]).ok = ~Clash(c.a, c.b)
           /\ (SameName(c.a, c.b) => Clash(c.a, c.b))
           /\ Pascal(Pascal(c.a)) = Pascal(c.a) /\ Snake(Snake(c.a)) = Snake(c.a)
           /\ SameName(c.a, c.b) = (Map(LowerWord, WordsOf(c.a)) = Map(LowerWord, WordsOf(c.b)))

\* A graph is cyclic iff its types cannot be put in an order in which each refers to earlier ones only.
Orders == {f \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => f[i] # f[j]}
AgreeGraphs ==
    c.m = "graphs" =>
        LET d == [i \in 1..3 |-> Dcl(<<70 + i>>, [j \in 1..Cardinality(c.e[i]) |->
                         LET k == SetToSeq(c.e[i])[j] IN [Fld(Letter(j), DigitsOf(j - 1)) EXCEPT !.t = <<"Name", <<>>, <<70 + k>>, 1, 1>>]], <<>>)]
            o == OneFile(d)
        IN Validate(o[1], o[2]).cyclic = ~(\E f \in Orders : \A i \in 1..3 : \A k \in c.e[i] : f[k] < f[i])
=============================================================================
