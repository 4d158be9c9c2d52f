-------------------------------- MODULE Names --------------------------------
(* Characters and identifiers. Text is a tuple of code points. ASCII is        *)
(* classified completely; outside of it the checks only use the characters    *)
(* listed here and characters that are neither letters, digits nor spaces.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Range2(a, b) == a..b
LowerAscii == 97..122
UpperAscii == 65..90
DigitChars == 48..57
\* Pairs of other letters with their upper case: e with acute, Cyrillic ya, Greek omega. Sharp s, long s, dotless i and the
\* fi ligature have upper cases that are ASCII, of one or two letters; that of n with an apostrophe is a letter without case and N.
\* The lower case of the Ohm sign is that of omega. The lower case of I with a dot and the upper case of j with a caron are a letter
\* and a combining character, which cannot be part of an identifier, so these have no other case here.
OtherLower == {233, 1103, 969, 223, 383, 305, 64257, 454, 329, 496}
OtherUpper == {201, 1071, 937, 304, 8486, 452}
\* Letters without case (CJK, Hangul, an apostrophe, and dz with caron in title case, which has both), and characters that are numeric but no
\* letters (1/2, superscript 2, Arabic digit 3).
Caseless == {26085, 26412, 35486, 453, 700, 63744, 35912, 4352, 4449, 44032}
OtherNumeric == {189, 178, 1635}
\* White space: ASCII, NEL, NBSP, em space, line separator, ideographic space.
Spaces == (9..13) \cup {32, 133, 160, 8195, 8232, 12288}

IsUpper(c) == c \in UpperAscii \/ c \in OtherUpper
IsLower(c) == c \in LowerAscii \/ c \in OtherLower
IsAlpha(c) == IsLower(c) \/ IsUpper(c) \/ c \in Caseless
IsDigit(c) == c \in DigitChars
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in OtherNumeric
IsSpace(c) == c \in Spaces

\* The other case of a character may be several characters.
ToLower(c) == IF c \in UpperAscii THEN <<c + 32>>
              ELSE CASE c = 201 -> <<233>> [] c = 1071 -> <<1103>> [] c = 937 -> <<969>> [] c = 8486 -> <<969>>
                     [] c \in {452, 453} -> <<454>> [] OTHER -> <<c>>
ToUpper(c) == IF c \in LowerAscii THEN <<c - 32>>
              ELSE CASE c = 233 -> <<201>> [] c = 1103 -> <<1071>> [] c = 969 -> <<937>> [] c = 223 -> <<83, 83>> [] c = 383 -> <<83>> [] c = 305 -> <<73>>
                     [] c = 64257 -> <<70, 73>> [] c \in {453, 454} -> <<452>> [] c = 329 -> <<700, 78>> [] OTHER -> <<c>>

Map(op(_), s) == [i \in 1..Len(s) |-> op(s[i])]
Concat0(seqs) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, seqs)

-----------------------------------------------------------------------------
(* Words of an identifier: separated by _ and -, and before capital letters.   *)
Underscore == 95
WordStep(acc, c) ==
    LET done == IF acc[2] = <<>> THEN acc[1] ELSE Append(acc[1], acc[2])
    IN IF c \in {95, 45} THEN <<done, <<>> >>
       ELSE IF IsUpper(c) THEN <<done, <<c>> >>
       ELSE <<acc[1], Append(acc[2], c)>>
WordsOf(name) ==
    LET r == FoldLeft(WordStep, << <<>>, <<>> >>, name) IN IF r[2] = <<>> THEN r[1] ELSE Append(r[1], r[2])

Joined(words, sep) ==
    FoldLeft(LAMBDA acc, w : IF acc = <<>> THEN w ELSE acc \o sep \o w, <<>>, words)

LowerWord(w) == Concat0(Map(ToLower, w))
Snake(name) == Joined(Map(LowerWord, WordsOf(name)), <<Underscore>>)
Capital(w) == LET l == LowerWord(w) IN ToUpper(l[1]) \o Tail(l)
Pascal(name) == Concat0(Map(Capital, WordsOf(name)))
Camel(name) ==
    LET w == WordsOf(name)
    IN IF w = <<>> THEN <<>> ELSE LowerWord(w[1]) \o Concat0(Map(Capital, Tail(w)))

\* Names that differ at most in case style are the same name.
SameName(a, b) == Snake(a) = Snake(b)
\* Names that generated code could not tell apart must not be declared together.
Clash(a, b) == Pascal(a) = Pascal(b)
=============================================================================
