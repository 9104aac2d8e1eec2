------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Texts are sequences of Unicode code points.  TLC has no character type, *)
(* and code points keep what matters here exact: the octets a character    *)
(* takes once written, the control characters, and the order of names.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf(ch) == 31 + CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = ch

\* The code points of a (printable ASCII) string.
C(str) == FoldLeft(LAMBDA acc, i : Append(acc, CodeOf(SubSeq(str, i, i))),
                   <<>>, [i \in 1..Len(str) |-> i])

LF == 10
CR == 13
SP == 32
DQ == 34
PLUS == 43
COMMA == 44
MINUS == 45
DOT == 46
SLASH == 47
COLON == 58
SEMI == 59
EQ == 61
BSL == 92

IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsNameChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c = MINUS \/ c = SLASH
IsLower(c) == c >= 97 /\ c <= 122

\* Octets of a character written in UTF-8.
Octets(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

OctetLen(s) == FoldLeft(LAMBDA acc, c : acc + Octets(c), 0, s)

\* First position at or after p of a character satisfying T; Len(s)+1 if there is none.
FirstFrom(s, p, T(_)) ==
    LET i == IF p > Len(s) THEN 0 ELSE SelectInSubSeq(s, p, Len(s), T)
    IN IF i = 0 THEN Len(s) + 1 ELSE i

From(s, p) == SubSeq(s, p, Len(s))
Upto(s, p) == SubSeq(s, 1, p)

StartsWith(s, pre) == Len(s) >= Len(pre) /\ SubSeq(s, 1, Len(pre)) = pre

Has(s, c) == SelectInSeq(s, LAMBDA x : x = c) # 0

\* The same sequence, computed once and for all: TLC evaluates a function each time it's applied.
Now(f) == SubSeq(f, 1, Len(f))

\* Cuts s on every separator satisfying At(position).
CutAt(s, Sep(_)) ==
    LET cuts == SelectSeq([i \in 1..Len(s) |-> i], Sep)
        ends == Append(cuts, Len(s) + 1)
    IN Now([k \in 1..Len(ends) |->
          SubSeq(s, IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k] - 1)])

SplitOn(s, c) == CutAt(s, LAMBDA i : s[i] = c)

\* A character is escaped by an odd number of backslashes before it.
Escaped(s, i) ==
    LET j == FoldLeft(LAMBDA acc, k : IF acc.run /\ s[i - k] = BSL
                                      THEN [run |-> TRUE, n |-> acc.n + 1]
                                      ELSE [run |-> FALSE, n |-> acc.n],
                      [run |-> TRUE, n |-> 0], [k \in 1..(i - 1) |-> k])
    IN j.n % 2 = 1

SplitUnescaped(s, c) == CutAt(s, LAMBDA i : s[i] = c /\ ~Escaped(s, i))

\* Lexicographic order of texts, that of their octets in UTF-8.
LexLess(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        d == FirstFrom([i \in 1..n |-> a[i] - b[i]], 1, LAMBDA x : x # 0)
    IN IF d > n THEN Len(a) < Len(b) ELSE a[d] < b[d]

AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])

\* The number written by (few) digits.
Num(s) == FoldLeft(LAMBDA acc, c : 10 * acc + (c - 48), 0, s)

\* Digits without leading zeros: numbers too big for TLC are kept as such.
Strip0(s) ==
    LET p == FirstFrom(s, 1, LAMBDA c : c # 48)
    IN IF p > Len(s) THEN <<48>> ELSE From(s, p)

\* a <= b for numbers kept as stripped digits.
DigitsLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~LexLess(b, a))

Upper(s) == Now([i \in 1..Len(s) |-> IF IsLower(s[i]) THEN s[i] - 32 ELSE s[i]])

\* Sequence of pairs sorted by their first component; inserting replaces.
InsertKV(kvs, k, kv) ==
    SelectSeq(kvs, LAMBDA x : LexLess(x[1], k))
      \o <<kv>> \o SelectSeq(kvs, LAMBDA x : LexLess(k, x[1]))

Flatten(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
=============================================================================
