---- MODULE Paths ----
(***************************************************************************)
(* The program that led to a state, in the notation of the driver; it is   *)
(* printed at every transition explored, so that the programs printed are  *)
(* an edge cover of the state graph (of each view of it).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils
VARIABLES path, count
pvars == <<path, count>>
PathInit == path = "" /\ count = 0
Op(s) == /\ count' = count + 1
         /\ path' = path \o ";" \o s
         /\ PrintT("PATH " \o path')
deep == IOEnv.VH_DEEP = "1"
N(n) == ToString(n)
S(s) == N(s - 1)      \* slots are numbered from 0 in the notation
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE HexOf(_)
HexOf(s) == IF s = <<>> THEN "" ELSE HexDigit[(Head(s) \div 16) + 1] \o HexDigit[(Head(s) % 16) + 1] \o HexOf(Tail(s))
Hex(s) == IF s = <<>> THEN "-" ELSE HexOf(s)
====
