---- MODULE MC_Text ----
(***************************************************************************)
(* Texts built byte by byte, and values built text by text, over a small   *)
(* alphabet: laws of CoilText, and for every one of them (and every pair)  *)
(* the inputs that show the same to the code.                              *)
(***************************************************************************)
EXTENDS CoilText, TLC, IOUtils

deep == IOEnv.VH_DEEP = "1"
Alphabet == {0, 97, 255}
MaxLen == IF deep THEN 4 ELSE 3
MaxParts == IF deep THEN 3 ELSE 2

VARIABLES s,    \* a text
          t,    \* another one
          v     \* a value
mvars == <<s, t, v>>

HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE HexOf(_)
HexOf(x) == IF x = <<>> THEN "" ELSE HexDigit[(Head(x) \div 16) + 1] \o HexDigit[(Head(x) % 16) + 1] \o HexOf(Tail(x))
Hex(x) == IF x = <<>> THEN "-" ELSE HexOf(x)
RECURSIVE ListOf(_)
ListOf(x) == IF x = <<>> THEN "_" ELSE IF Len(x) = 1 THEN Hex(x[1]) ELSE Hex(Head(x)) \o "," \o ListOf(Tail(x))

Tell(x) == PrintT("PATH " \o x)
Init == s = <<>> /\ t = <<>> /\ v = <<>>
Grow == /\ Len(s) < MaxLen
        /\ \E c \in Alphabet : s' = Append(s, c)
        /\ UNCHANGED <<t, v>>
        /\ Tell("view " \o Hex(s')) /\ Tell("std " \o Hex(s')) /\ Tell("pair " \o Hex(s') \o " " \o Hex(t))
        /\ Tell("pair " \o Hex(s') \o " " \o Hex(s))
\* the text becomes the other one
Turn == s # <<>> /\ t = <<>> /\ v = <<>> /\ t' = s /\ s' = <<>> /\ UNCHANGED v
Take == /\ Len(v) < MaxParts /\ t = <<>> /\ Len(s) < 2
        /\ v' = Append(v, s) /\ s' = <<>>
        /\ UNCHANGED t
        /\ Tell("value " \o ListOf(v') \o " " \o ListOf(v)) /\ Tell("value " \o ListOf(v') \o " " \o ListOf(Append(v, s \o s)))
        /\ Tell("value " \o ListOf(v') \o " " \o ListOf(v')) /\ Tell("value " \o ListOf(v') \o " " \o Hex(ValueText(v')))
Next == Grow \/ Turn \/ Take
Spec == Init /\ [][Next]_mvars

\* laws
PartsAreTexts == \A o \in 0..Len(s) : \A n \in 0..(Len(s) - o) :
                    /\ Part(s, 0, o) \o Part(s, o, Len(s) - o) = s
                    /\ \A p \in 0..n : Part(Part(s, o, n), p, n - p) = Part(s, o + p, n - p)
ShownText == CText(CText(s)) = CText(s) /\ \A i \in 1..Len(CText(s)) : CText(s)[i] # 0
Padding == \A w \in -5..5 :
    /\ Len(Field(s, w)) = (IF Len(s) >= (IF w < 0 THEN -w ELSE w) THEN Len(s) ELSE IF w < 0 THEN -w ELSE w)
    /\ w >= 0 => Len(Stream(s, w, 42, "l")) = Len(Field(s, w)) /\ Stream(s, w, 32, "r") = Field(s, w)
\* the text of a value says which value it is where its texts have no spaces
TextOfValue == Len(v) >= 1 => Len(ValueText(v)) = Len(FlattenSeq(v)) + Len(v) - 1
====
