-------------------------------- MODULE Lexer --------------------------------
(* From text to tokens (README, "Schema reference"), as a machine that reads   *)
(* one character at a time.                                                   *)
(* A token is [k, v, a, z, n]: kind, content, where it begins and where it has  *)
(* ended (as places in the text, from 1), and the number of line feeds between *)
(* the previous token and this one. The content of a comment is a tuple of     *)
(* paragraphs, each a tuple of words.                                         *)
EXTENDS Names

Word(s) == s
\* Keywords, as code points.
KEYWORDS ==
    << << <<97,115>>, "as" >>, << <<97,115,121,109,109,101,116,114,105,99>>, "asymmetric" >>,
       << <<66,111,111,108>>, "Bool" >>, << <<66,121,116,101,115>>, "Bytes" >>, << <<99,104,111,105,99,101>>, "choice" >>,
       << <<100,101,108,101,116,101,100>>, "deleted" >>, << <<70,54,52>>, "F64" >>, << <<105,109,112,111,114,116>>, "import" >>,
       << <<111,112,116,105,111,110,97,108>>, "optional" >>, << <<83,54,52>>, "S64" >>, << <<83,116,114,105,110,103>>, "String" >>,
       << <<115,116,114,117,99,116>>, "struct" >>, << <<85,54,52>>, "U64" >>, << <<85,110,105,116>>, "Unit" >> >>
KeywordText == {KEYWORDS[i][1] : i \in 1..Len(KEYWORDS)}
KeywordKind(t) == KEYWORDS[CHOOSE i \in 1..Len(KEYWORDS) : KEYWORDS[i][1] = t][2]

Symbols == {58, 46, 61, 123, 91, 125, 93}
SymbolKind(c) == CASE c = 58 -> ":" [] c = 46 -> "." [] c = 61 -> "=" [] c = 123 -> "{" [] c = 91 -> "[" [] c = 125 -> "}" [] c = 93 -> "]"

\* 2^64 - 1, in decimal digits.
MaxU64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
\* Numbers are tuples of decimal digits without leading zeros (zero is <<0>>).
LessDigits(a, b) ==
    IF Len(a) # Len(b) THEN Len(a) < Len(b)
    ELSE \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Normal(digits) ==
    LET s == FoldLeft(LAMBDA acc, d : IF acc = <<>> /\ d = 0 THEN acc ELSE Append(acc, d), <<>>, digits)
    IN IF s = <<>> THEN <<0>> ELSE s
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)

\* Words of a line.
SplitWords(line) ==
    LET r == FoldLeft(LAMBDA acc, c : IF IsSpace(c) THEN (IF acc[2] = <<>> THEN acc ELSE <<Append(acc[1], acc[2]), <<>> >>)
                                      ELSE <<acc[1], Append(acc[2], c)>>, << <<>>, <<>> >>, line)
    IN IF r[2] = <<>> THEN r[1] ELSE Append(r[1], r[2])
\* Lines of a comment make paragraphs separated by empty lines.
Paragraphs(lines) ==
    LET r == FoldLeft(LAMBDA acc, l : LET w == SplitWords(l) IN
                          IF w = <<>> THEN (IF acc[2] = <<>> THEN acc ELSE <<Append(acc[1], acc[2]), <<>> >>)
                          ELSE <<acc[1], acc[2] \o w>>, << <<>>, <<>> >>, lines)
    IN IF r[2] = <<>> THEN r[1] ELSE Append(r[1], r[2])

-----------------------------------------------------------------------------
\* m: mode; b: characters of the token so far; t: tokens; e: errors, each <<from, to>>; l: where we are; a: where the token
\* began; n: line feeds since the previous token; q: lines of the comment so far; z: end of the last line of the comment.
Lex0 == [m |-> "top", b |-> <<>>, t |-> <<>>, e |-> <<>>, l |-> 1, a |-> 1, n |-> 0, q |-> <<>>, z |-> 1]

Emit(s, k, v, z) == [s EXCEPT !.m = "top", !.b = <<>>, !.n = 0, !.q = <<>>,
                              !.t = Append(@, [k |-> k, v |-> v, a |-> s.a, z |-> z, n |-> s.n])]
Complain(s, from, to) == [s EXCEPT !.e = Append(@, <<from, to>>)]
Somewhere == 0     \* the end of something the text does not define, such as what is drawn as one symbol
Begin(s, mode, b) == [s EXCEPT !.m = mode, !.b = b, !.a = s.l]

\* A character that begins something.
Top(s, c) ==
    CASE c = -1 -> s
      [] c \in Symbols -> Emit([s EXCEPT !.a = s.l], SymbolKind(c), <<>>, s.l + 1)
      [] IsAlpha(c) \/ c = 95 \/ c = 36 -> Begin(s, "name", <<c>>)
      [] IsDigit(c) -> Begin(s, "int", <<c - 48>>)
      [] c = 39 -> Begin(s, "path", <<>>)
      [] c = 35 -> Begin(s, "comment", <<>>)
      [] IsSpace(c) -> IF c = 10 THEN [s EXCEPT !.n = @ + 1] ELSE s
      [] OTHER -> Complain(s, s.l, Somewhere)

EndName(s) ==
    IF s.b \in KeywordText THEN Emit(s, KeywordKind(s.b), <<>>, s.l)
    ELSE LET id == IF s.b[1] = 36 THEN Tail(s.b) ELSE s.b
             x  == IF id = <<>> \/ ~IsAlpha(id[1]) THEN Complain(s, s.a, s.l) ELSE s
         IN Emit(x, "name", id, s.l)
EndInt(s) == IF LessDigits(MaxU64, Normal(s.b)) THEN Complain([s EXCEPT !.m = "top", !.b = <<>>], s.a, s.l)
             ELSE Emit(s, "int", Normal(s.b), s.l)
EndComment(s) == Emit(s, "comment", Paragraphs(s.q), s.z)
EndLine(s) == [s EXCEPT !.q = Append(@, s.b), !.b = <<>>, !.z = s.l]

Step(s, c) ==
    CASE s.m = "top" -> Top(s, c)
      [] s.m = "name" -> IF IsAlnum(c) \/ c = 95 THEN [s EXCEPT !.b = Append(@, c)] ELSE Top(EndName(s), c)
      [] s.m = "int" -> IF IsDigit(c) THEN [s EXCEPT !.b = Append(@, c - 48)] ELSE Top(EndInt(s), c)
      [] s.m = "path" -> IF c = 39 THEN Emit(s, "path", s.b, s.l + 1)
                         ELSE IF c = -1 THEN Complain([s EXCEPT !.m = "top"], s.a, s.a + 1) ELSE [s EXCEPT !.b = Append(@, c)]
      [] s.m = "comment" -> IF c = 10 THEN [EndLine(s) EXCEPT !.m = "gap"]
                            ELSE IF c = -1 THEN EndComment(EndLine(s)) ELSE [s EXCEPT !.b = Append(@, c)]
      \* Past the line feed that ends a line of a comment.
      [] s.m = "gap" -> IF c = 35 THEN [s EXCEPT !.m = "comment"]
                        ELSE IF c # 10 /\ IsSpace(c) THEN s
                        ELSE Top([EndComment(s) EXCEPT !.n = 1], c)

LexStep(s, c) == [Step(s, c) EXCEPT !.l = @ + 1]

Lex(text) == LexStep(FoldLeft(LexStep, Lex0, text), -1)

-----------------------------------------------------------------------------
(* The lines of a text: [s, t, f], where a line begins, its length without the  *)
(* white space at its end, and how much white space it begins with.            *)
LineTable(x) ==
    LET starts == <<1>> \o SelectSeq([i \in 1..Len(x) |-> IF x[i] = 10 THEN i + 1 ELSE 0], LAMBDA i : i # 0)
        Line(k) == LET s == starts[k]
                       e == IF k < Len(starts) THEN starts[k + 1] - 2 ELSE Len(x)
                       solid == {i \in s..e : ~IsSpace(x[i])}
                   IN IF solid = {} THEN [s |-> s, t |-> 0, f |-> 0]
                      ELSE [s |-> s, t |-> (CHOOSE i \in solid : \A j \in solid : j <= i) - s + 1,
                            f |-> (CHOOSE i \in solid : \A j \in solid : i <= j) - s]
    IN [k \in 1..Len(starts) |-> Line(k)]
LineOf(table, at) == CHOOSE k \in 1..Len(table) : table[k].s <= at /\ (k = Len(table) \/ table[k + 1].s > at)
FirstLine(table, e) == LineOf(table, e[1])
LastLine(table, e) == LineOf(table, IF e[2] <= e[1] THEN e[1] ELSE e[2] - 1)

\* What is marked of the lines from a place to another: for each line <<from, to>>, counted from 0, or <<>> for nothing.
\* The end is <<from>> where the text does not define it.
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a < b THEN b ELSE a
Marks(table, e) ==
    LET k1 == FirstLine(table, e)
        Mark(k) == LET from == Lesser(Greater(e[1] - table[k].s, table[k].f), table[k].t)
                       to == Lesser(e[2] - table[k].s, table[k].t)
                   IN IF e[2] = Somewhere THEN <<from>> ELSE IF from >= to THEN <<>> ELSE <<from, to>>
    IN [i \in 1..(LastLine(table, e) - k1 + 1) |-> Mark(k1 + i - 1)]
=============================================================================
