------------------------------- MODULE Printer -------------------------------
(* The one text a schema is formatted to. It is a sequence of items: a line,   *)
(* or a paragraph of a comment, which may be broken into lines between words.  *)
EXTENDS Grammar, TLC

MaxColumns == 79
KeywordChars(kind) == KEYWORDS[CHOOSE i \in 1..Len(KEYWORDS) : KEYWORDS[i][2] = kind][1]
Space == <<32>>
Indent == <<32, 32, 32, 32>>
Escaped(name) == IF name \in KeywordText THEN <<36>> \o name ELSE name
Digits(n) == [i \in 1..Len(n) |-> 48 + n[i]]

Line(x) == [k |-> "line", in |-> <<>>, x |-> x, w |-> <<>>]
Para(indent, words) == [k |-> "para", in |-> indent, x |-> <<>>, w |-> words]
Blank == Line(<<>>)

CommentItems(indent, comment) ==
    Concat0([i \in 1..Len(comment) |-> (IF i = 1 THEN <<>> ELSE <<Line(indent \o <<35>>)>>) \o <<Para(indent, comment[i])>>])

RECURSIVE TypeText(_)
TypeText(t) ==
    CASE t[1] = "Array" -> <<91>> \o TypeText(t[2]) \o <<93>>
      [] t[1] = "Name" -> (IF t[2] = <<>> THEN <<>> ELSE Escaped(Snake(t[2])) \o <<46>>) \o Escaped(Pascal(t[3]))
      [] OTHER -> KeywordChars(t[1])

FieldItems(f) ==
    CommentItems(Indent, f.comment)
    \o <<Line(Indent \o (IF f.r = "required" THEN <<>> ELSE KeywordChars(f.r) \o Space) \o Escaped(Snake(f.name))
              \o (IF f.t = <<"Unit">> THEN <<>> ELSE <<58, 32>> \o TypeText(f.t)) \o <<32, 61, 32>> \o Digits(f.i))>>

\* Fields with comments stand apart.
FieldsItems(fields) ==
    Concat0([i \in 1..Len(fields) |->
        (IF i > 1 /\ (fields[i].comment # <<>> \/ fields[i - 1].comment # <<>>) THEN <<Blank>> ELSE <<>>) \o FieldItems(fields[i])])

DeletedItems(d) ==
    IF d.deleted = <<>> THEN <<>>
    ELSE LET s == SortSeq(d.deleted, LessDigits)
         IN (IF d.fields = <<>> THEN <<>> ELSE <<Blank>>)
            \o <<Line(Indent \o KeywordChars("deleted") \o Concat0([i \in 1..Len(s) |-> Space \o Digits(s[i])]))>>

DeclItems(d) ==
    CommentItems(<<>>, d.comment)
    \o <<Line(KeywordChars(d.k) \o Space \o Escaped(Pascal(d.name)) \o <<32, 123>>)>>
    \o FieldsItems(d.fields) \o DeletedItems(d) \o <<Line(<<125>>)>>

RECURSIVE LessText(_, _)
LessText(a, b) ==
    IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LessText(Tail(a), Tail(b)))
ImportText(im) ==
    KeywordChars("import") \o <<32, 39>> \o im.path \o <<39>>
    \o (IF HasStem(im.path) /\ SameName(im.name, PathStem(im.path)) THEN <<>> ELSE Space \o KeywordChars("as") \o Space \o Escaped(Snake(im.name)))
\* A path may contain line feeds.
LinesOf(x) ==
    LET r == FoldLeft(LAMBDA acc, c : IF c = 10 THEN <<Append(acc[1], acc[2]), <<>> >> ELSE <<acc[1], Append(acc[2], c)>>, << <<>>, <<>> >>, x)
    IN Append(r[1], r[2])
ImportItems(im) == LET ls == LinesOf(ImportText(im)) IN [i \in 1..Len(ls) |-> Line(ls[i])]

Items(s) ==
    LET imports == SortSeq(s.imports, LAMBDA a, b : LessText(Snake(a.name), Snake(b.name)))
    IN CommentItems(<<>>, s.comment)
       \o (IF s.comment # <<>> /\ (s.imports # <<>> \/ s.decls # <<>>) THEN <<Blank>> ELSE <<>>)
       \o Concat0([i \in 1..Len(imports) |-> ImportItems(imports[i])])
       \o Concat0([i \in 1..Len(s.decls) |-> (IF i = 1 /\ imports = <<>> THEN <<>> ELSE <<Blank>>) \o DeclItems(s.decls[i])])

-----------------------------------------------------------------------------
(* Whether a text consists of given items.                                     *)
\* Outside of ASCII a character takes up to two columns.
Narrow(x) == Cardinality({i \in 1..Len(x) : x[i] \in 32..126})
Wide(x) == 2 * Len(x) - Narrow(x)
Spaced(words) == Joined(words, Space)

\* Lines are broken so as to be even, at the cost of being too long where the words are long.
Even(words) == (\A i \in 1..Len(words) : Wide(words[i]) <= 12) /\ Wide(Spaced(words)) <= 560

\* A line of a paragraph, of which the words w are left: what is left after it. even: whether no line may be too long.
TakeLine(line, in, w, even) ==
    LET head == in \o <<35, 32>>
        n == Len(head)
        words == SplitWords(SubSeq(line, n + 1, Len(line)))
    IN IF /\ Len(line) > n /\ SubSeq(line, 1, n) = head
          /\ words # <<>> /\ Len(words) <= Len(w) /\ SubSeq(w, 1, Len(words)) = words
          /\ SubSeq(line, n + 1, Len(line)) = Spaced(words)
          /\ (Len(words) = 1 \/ Narrow(line) <= MaxColumns \/ ~even)
          \* The rest would not have fitted.
          /\ (Len(words) = Len(w) \/ n + Wide(Spaced(w)) > MaxColumns)
       THEN [ok |-> TRUE, left |-> SubSeq(w, Len(words) + 1, Len(w))]
       ELSE [ok |-> FALSE, left |-> <<>>]

MatchLine(items, acc, line) ==
    IF ~acc.ok THEN acc
    ELSE IF acc.left # <<>> \/ (acc.i <= Len(items) /\ items[acc.i].k = "para")
    THEN LET w == IF acc.left # <<>> THEN acc.left ELSE items[acc.i].w
             r == TakeLine(line, items[acc.i].in, w, Even(items[acc.i].w))
         IN [ok |-> r.ok, i |-> IF r.left = <<>> THEN acc.i + 1 ELSE acc.i, left |-> r.left]
    ELSE [ok |-> acc.i <= Len(items) /\ line = items[acc.i].x, i |-> acc.i + 1, left |-> <<>>]

\* Every line, the last one too, is ended by a line feed.
Formatted(text, items) ==
    LET ls == LinesOf(text)
        r == FoldLeft(LAMBDA acc, x : MatchLine(items, acc, x), [ok |-> TRUE, i |-> 1, left |-> <<>>], SubSeq(ls, 1, Len(ls) - 1))
    IN /\ ls[Len(ls)] = <<>>
       /\ r.ok /\ r.i = Len(items) + 1 /\ r.left = <<>>

\* A text for items whose paragraphs fit on a line.
Printed(items) == Concat0([i \in 1..Len(items) |-> (IF items[i].k = "para" THEN items[i].in \o <<35, 32>> \o Spaced(items[i].w) ELSE items[i].x) \o <<10>>])
=============================================================================
