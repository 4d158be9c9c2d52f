-------------------------------- MODULE Tool --------------------------------
(* What the tool does with a file system: which schemas it loads, what it      *)
(* finds wrong with them and where (README, "Schema reference").              *)
(*                                                                           *)
(* A world is [files, links, dirs]: files is a sequence of [p, x, bad] (path,   *)
(* text, whether it is not UTF-8), links a sequence of [p, to], dirs a         *)
(* sequence of paths of directories without files. Paths are tuples of        *)
(* components (tuples of code points) from the root of the world. The entry    *)
(* is a path that is no link. Files are known by their number.                 *)
EXTENDS Grammar, TLC

Parent(p) == SubSeq(p, 1, Len(p) - 1)
IsPrefix2(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

FileNumbers(w) == 1..Len(w.files)
IsFile(w, p) == \E i \in FileNumbers(w) : w.files[i].p = p
FileAt(w, p) == CHOOSE i \in FileNumbers(w) : w.files[i].p = p
IsDir(w, p) == p = <<>> \/ (\E i \in FileNumbers(w) : Len(w.files[i].p) > Len(p) /\ IsPrefix2(p, w.files[i].p))
               \/ (\E i \in 1..Len(w.dirs) : IsPrefix2(p, w.dirs[i])) \/ (\E i \in 1..Len(w.links) : p = Parent(w.links[i].p))

\* Where a path leads, one component at a time, following links. <<"no">> if nowhere.
Walk(w, from, comps) ==
    FoldLeft(LAMBDA at, c :
                 IF at = <<"no">> \/ ~IsDir(w, at[2]) THEN <<"no">>
                 ELSE IF c = DotDot THEN IF at[2] = <<>> THEN <<"no">> ELSE <<"at", Parent(at[2])>>   \* nothing is above the root
                 ELSE LET q == Append(at[2], c) IN
                      IF \E i \in 1..Len(w.links) : w.links[i].p = q
                      THEN LET l == CHOOSE i \in 1..Len(w.links) : w.links[i].p = q IN <<"at", w.links[l].to>>
                      ELSE IF IsFile(w, q) \/ IsDir(w, q) THEN <<"at", q>> ELSE <<"no">>,
             <<"at", from>>, comps)

\* Where an import of a file leads: "missing", "outside" the base directory, or "file" with the path.
\* A path that ends with a slash or a dot must lead to a directory (which cannot be read as a schema).
NeedsDir(path) == LET c == SplitPath(path) IN c # <<>> /\ c[Len(c)] \in {<<>>, Dot} /\ path # <<>>
IsAbsolute(path) == path # <<>> /\ path[1] = 47
Target(w, base, importer, path) ==
    LET r == IF IsAbsolute(path) THEN <<"no">> ELSE Walk(w, Parent(importer), Components(path))
        \* An empty path is the directory itself.
    IN IF r = <<"no">> THEN IF IsAbsolute(path) THEN <<"elsewhere">> ELSE <<"missing">>
       ELSE IF NeedsDir(path) /\ ~IsDir(w, r[2]) THEN <<"missing">>
       ELSE IF ~IsPrefix2(base, r[2]) THEN <<"outside">>
       ELSE <<"file", r[2]>>

\* The namespace of a schema: the path from the base directory, without the ending; names that are the same in snake
\* case are the same.
Relative(base, p) == SubSeq(p, Len(base) + 1, Len(p))
NamespaceKey(base, p) ==
    LET r == Relative(base, p)
    IN [i \in 1..Len(r) |-> Snake(IF i = Len(r) THEN Stem(r[i]) ELSE r[i])]

-----------------------------------------------------------------------------
(* Loading. The state is the set of paths seen; an iteration follows all the   *)
(* imports of the files that are readable and well-formed.                     *)

Parsed(w) == TLCEval([i \in FileNumbers(w) |-> IF w.files[i].bad THEN [ok |-> FALSE, schema |-> <<>>, errs |-> <<>>, all |-> TRUE]
                                               ELSE Schema(w.files[i].x)])

ImportsOf(w, ps, base, p) ==
    IF IsFile(w, p) /\ ps[FileAt(w, p)].ok
    THEN LET im == ps[FileAt(w, p)].schema.imports
         IN {<<p, im[j].a, im[j].z, j, Target(w, base, p, im[j].path)>> : j \in 1..Len(im)}
    ELSE {}

RECURSIVE Closure(_, _, _, _)
Closure(w, ps, base, seen) ==
    LET next == seen \cup UNION { {x[5][2] : x \in {y \in ImportsOf(w, ps, base, p) : y[5][1] = "file"}} : p \in seen }
    IN IF next = seen THEN seen ELSE Closure(w, ps, base, next)

\* [paths]: everything the entry leads to. [must]: errors that must be reported, as <<path, from, to, subject>>, one each.
\* [oneof]: for each file that cannot be read, where it may be reported, as <<path, from, to>>. [loose]: files whose further errors are not
\* judged. [clash]: places of imports that lead to files which share a namespace, one of which must be reported.
Load(w, entry) ==
    LET base == Parent(entry)
        ps == Parsed(w)
        paths == Closure(w, ps, base, {entry})
        imports == UNION { ImportsOf(w, ps, base, p) : p \in paths }
        readable == {p \in paths : IsFile(w, p) /\ ~w.files[FileAt(w, p)].bad}
        faulty == {p \in readable : ~ps[FileAt(w, p)].ok}
        unreadable == paths \ readable
        clashing == {p \in paths : \E q \in paths : p # q /\ NamespaceKey(base, p) = NamespaceKey(base, q)}
        \* What is reached without passing through a clashing file, which may be refused.
        firm == LET RECURSIVE Firm(_)
                    Firm(seen) == LET next == seen \cup (UNION { {x[5][2] : x \in {y \in ImportsOf(w, ps, base, p) : y[5][1] = "file"}} : p \in seen } \ clashing)
                                  IN IF next = seen THEN seen ELSE Firm(next)
                IN IF clashing = {} THEN paths ELSE Firm({entry})
        failed == {x \in imports : x[5][1] # "file"}
        surely == {x \in failed : x[1] \in firm}
        syntax == LET RECURSIVE Sum(_)
                      Sum(s) == IF s = {} THEN <<>> ELSE LET p == CHOOSE p \in s : TRUE
                                                              e == ps[FileAt(w, p)].errs
                                                          IN [k \in 1..Len(e) |-> <<p, e[k][1], e[k][2], e[k][3]>>] \o Sum(s \ {p})
                  IN Sum(faulty \cap firm)
    IN [base |-> base, ps |-> ps, paths |-> paths,
        must |-> syntax \o [k \in 1..Cardinality(surely) |-> LET x == SetToSeq(surely)[k] IN <<x[1], x[2], x[3], <<>> >>],
        oneof |-> {{<<x[1], x[2], x[3]>> : x \in {y \in imports : y[5] = <<"file", p>>}} : p \in (unreadable \cap firm) \ {entry}},
        entry |-> entry \in unreadable,
        loose |-> {p \in faulty : ~ps[FileAt(w, p)].all},
        clash |-> {<<x[1], x[2], x[3]>> : x \in {y \in imports : y[5][1] = "file" /\ y[5][2] \in clashing}},
        ok |-> faulty = {} /\ failed = {} /\ unreadable = {} /\ clashing = {}]

-----------------------------------------------------------------------------
(* Validation. Types are known as <<path, number of the declaration>>.         *)

SchemaOf(w, ld, p) == ld.ps[FileAt(w, p)].schema

MaxIndex == <<4,6,1,1,6,8,6,0,1,8,4,2,7,3,8,7,9,0,3>>

\* Which declaration a reference in file p denotes: <<"type", path, number>>, <<"import">> or <<"name">> if unknown.
InFile(w, ld, p, name) ==
    LET ds == SchemaOf(w, ld, p).decls
        \* Types that would clash are one, so that it does not matter whether a file was formatted: foo_1 becomes Foo1.
        hits == {i \in 1..Len(ds) : Clash(ds[i].name, name)}
    IN IF hits = {} THEN <<"name">> ELSE <<"type", p, CHOOSE i \in hits : \A j \in hits : i <= j>>
Denotes(w, ld, p, t) ==
    IF t[2] = <<>> THEN InFile(w, ld, p, t[3])
    ELSE LET im == SchemaOf(w, ld, p).imports
             hits == {i \in 1..Len(im) : SameName(im[i].name, t[2])}
         IN IF hits = {} THEN <<"import">>
            ELSE InFile(w, ld, Target(w, ld.base, p, im[CHOOSE i \in hits : TRUE].path)[2], t[3])

RECURSIVE Leaf(_)
Leaf(t) == IF t[1] = "Array" THEN Leaf(t[2]) ELSE t

Times(b, x) == IF b THEN <<x>> ELSE <<>>
FieldErrors(w, ld, p, d, j) ==
    LET f == d.fields[j]
        t == Leaf(f.t)
        Here(subject) == <<p, f.a, f.z, subject>>
        index == DigitText(f.i)
    IN Times(\E i \in 1..(j - 1) : Clash(d.fields[i].name, f.name), Here(f.name))
       \o Times(\E i \in 1..(j - 1) : d.fields[i].i = f.i, Here(index))
       \o Times(\E i \in 1..Len(d.deleted) : d.deleted[i] = f.i, Here(index))
       \o Times(LessDigits(MaxIndex, f.i), Here(index))
       \o (IF t[1] # "Name" THEN <<>>
           ELSE LET what == Denotes(w, ld, p, t)[1]
                IN CASE what = "type" -> <<>>
                     [] what = "import" -> << <<p, t[4], t[5], t[2]>> >>
                     [] what = "name" -> << <<p, t[4], t[5], t[3]>> >>)

Used(d) == {d.fields[i].i : i \in 1..Len(d.fields)}
Deleted(d) == {d.deleted[i] : i \in 1..Len(d.deleted)}
\* Indices that are missing, below the number of indices there are (beyond, every index is missing or a consequence).
Gaps(d) == {k \in 0..(Cardinality(Used(d) \cup Deleted(d)) - 1) : DigitsOf(k) \notin Used(d) \cup Deleted(d)}

DeclErrors(w, ld, p, i) ==
    LET ds == SchemaOf(w, ld, p).decls
        d == ds[i]
        g == Gaps(d)
        gaps == SetToSeq(g)
    IN Times(\E k \in 1..(i - 1) : Clash(ds[k].name, d.name), <<p, d.a, d.z, d.name>>)
       \o FlattenSeq([j \in 1..Len(d.fields) |-> FieldErrors(w, ld, p, d, j)])
       \o [k \in 1..Len(gaps) |-> <<p, d.a, d.z, DigitText(DigitsOf(gaps[k]))>>]

FileErrors(w, ld, p) == FlattenSeq([i \in 1..Len(SchemaOf(w, ld, p).decls) |-> DeclErrors(w, ld, p, i)])

\* The types a type refers to.
Types(w, ld) == UNION { {<<p, i>> : i \in 1..Len(SchemaOf(w, ld, p).decls)} : p \in ld.paths }
Refers(w, ld, x) ==
    LET d == SchemaOf(w, ld, x[1]).decls[x[2]]
        leaves == {Leaf(d.fields[j].t) : j \in 1..Len(d.fields)}
    IN {LET r == Denotes(w, ld, x[1], t) IN <<r[2], r[3]>> : t \in {t \in leaves : t[1] = "Name"}}

RECURSIVE Below(_, _)
Below(next, s) == LET n == s \cup UNION {next[x] : x \in s} IN IF n = s THEN s ELSE Below(next, n)
Cyclic(w, ld) ==
    LET next == TLCEval([x \in Types(w, ld) |-> Refers(w, ld, x)])
    IN \E x \in Types(w, ld) : x \in Below(next, next[x])

\* The outcome of validating what has been loaded: the errors, and whether the types are cyclic (only asked of schemas
\* that are right otherwise).
Validate(w, ld) ==
    LET errs == TLCEval(FlattenSeq([k \in 1..Cardinality(ld.paths) |-> FileErrors(w, ld, SetToSeq(ld.paths)[k])]))
    IN [must |-> errs, cyclic |-> errs = <<>> /\ Cyclic(w, ld), ok |-> errs = <<>> /\ ~Cyclic(w, ld)]

-----------------------------------------------------------------------------
(* What generated code depends on: the schemas by namespace, and the names as   *)
(* they appear in it (types and the cases of choices in Pascal case, in which   *)
(* foo_1 and foo1 are the same; fields of structs and files in snake case), and *)
(* what references denote. Comments, deleted indices, imports and layout do     *)
(* not matter; the order of declarations and fields does.                      *)
RECURSIVE Resolved(_, _, _, _)
Resolved(w, ld, p, t) ==
    CASE t[1] = "Array" -> <<"Array", Resolved(w, ld, p, t[2])>>
      [] t[1] = "Name" -> LET r == Denotes(w, ld, p, t)
                          IN <<"Type", NamespaceKey(ld.base, r[2]), Pascal(SchemaOf(w, ld, r[2]).decls[r[3]].name)>>
      [] OTHER -> t
MeaningOf(w, ld, p) ==
    LET ds == SchemaOf(w, ld, p).decls
    IN <<NamespaceKey(ld.base, p),
         [i \in 1..Len(ds) |->
            <<ds[i].k, Pascal(ds[i].name),
              [j \in 1..Len(ds[i].fields) |->
                 LET f == ds[i].fields[j] IN <<f.r, IF ds[i].k = "struct" THEN Snake(f.name) ELSE Pascal(f.name), Resolved(w, ld, p, f.t), f.i>>]>>]>>
Meaning(w, ld) == {MeaningOf(w, ld, p) : p \in ld.paths}

-----------------------------------------------------------------------------
(* Whether what the tool reported is what there is to report.                  *)
Count(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
CountIn(seq, s) == Cardinality({i \in 1..Len(seq) : seq[i] \in s})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])

\* What the errors of the tool look like: a place is <<path, first line, last line>>. An error reported is [f, a, z, m, n]: a
\* place, what is marked in each line, and what is named.
Tables(w) == TLCEval([i \in FileNumbers(w) |-> LineTable(w.files[i].x)])
Lines(w, tables, e) ==
    LET table == tables[FileAt(w, e[1])] IN <<e[1], FirstLine(table, <<e[2], e[3]>>), LastLine(table, <<e[2], e[3]>>)>>
SeenAs(w, tables, e) == [f |-> e[1], at |-> Lines(w, tables, e), m |-> Marks(tables[FileAt(w, e[1])], <<e[2], e[3]>>), n |-> e[4]]
Fits(e, o) ==
    /\ e.at = <<o.f, o.a, o.z>>
    /\ Len(e.m) = Len(o.m)
    /\ \A k \in 1..Len(e.m) : e.m[k] = o.m[k] \/ (Len(e.m[k]) = 1 /\ o.m[k] # <<>> /\ o.m[k][1] = e.m[k][1])
    /\ e.n = <<>> \/ \E k \in 1..Len(o.n) : SameName(o.n[k], e.n)
\* Everything that must be reported is, with the right part of the text marked and the right thing named.
AllFit(must, errs) ==
    \A i \in 1..Len(must) : Cardinality({k \in 1..Len(errs) : Fits(must[i], errs[k])}) >= Count(must, must[i])

\* places: what was reported, as places.
LoadErrorsAgree(w, tables, ld, places) ==
    LET errs == places
        Place(e) == Lines(w, tables, e)
        must == [k \in 1..Len(ld.must) |-> Place(ld.must[k])]
        clash == {Place(e) : e \in ld.clash}
        oneof == {{Place(e) : e \in s} : s \in ld.oneof}
        strict == SelectSeq(errs, LAMBDA e : e[1] \notin ld.loose /\ e \notin clash)
        mustStrict == SelectSeq(must, LAMBDA e : e[1] \notin ld.loose /\ e \notin clash)
        reports == {s \in oneof : s \cap clash = {} /\ \A e \in s : e[1] \notin ld.loose}
        all == UNION reports
    IN /\ \A i \in 1..Len(must) : Count(errs, must[i]) >= Count(must, must[i])
       /\ \A s \in oneof : CountIn(errs, s) >= 1
       /\ (clash # {} => CountIn(errs, clash) >= 1)
       /\ (clash = {} => SameBag(SelectSeq(mustStrict, LAMBDA e : e \notin all), SelectSeq(strict, LAMBDA e : e \notin all)))
       /\ (clash = {} /\ ld.loose = {} => Len(errs) = Len(must) + Cardinality(ld.oneof))
       /\ \A i \in 1..Len(errs) : errs[i][1] \in ld.paths
=============================================================================
