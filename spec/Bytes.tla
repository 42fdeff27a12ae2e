---- MODULE Bytes ----
\* Texts are sequences of byte codes 0..255.  Common helpers.
EXTENDS Integers, Sequences, SequencesExt, Texts

\* What a C "%s" / "%.*s" shows of a text: everything before the first NUL.
CText(s) ==
    LET z == { i \in 1..Len(s) : s[i] = 0 }
    IN  IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)

\* Decimal rendering of a (small) natural number.
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))

\* The elements of `parts` separated by `sep`.
Join(parts, sep) ==
    IF parts = <<>> THEN <<>>
    ELSE FoldLeft(LAMBDA acc, p : acc \o sep \o p, parts[1], Tail(parts))

LowerByte(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerByte(s[i])]
====
