---- MODULE CoilText ----
(***************************************************************************)
(* Texts and untyped values at the boundary of the API.  A text is a       *)
(* sequence of bytes, a value a sequence of texts; there is nothing else   *)
(* to them.                                                                *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

Part(s, off, len) == SubSeq(s, off + 1, off + len)

\* the text of a value
ValueText(v) == Join(v, <<32>>)
\* named values: a key and a value
Named(k, v) == [k |-> k, v |-> v]
FirstOf(v) == IF v = <<>> THEN <<>> ELSE v[1]

Fill(c, n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
\* what an output stream makes of a text in a field of width w
Stream(s, w, c, adj) == IF adj = "l" THEN s \o Fill(c, w - Len(s)) ELSE Fill(c, w - Len(s)) \o s

\* printf: a field of width w (negative: to the left)
Field(s, w) == IF w < 0 THEN s \o Fill(32, -w - Len(s)) ELSE Fill(32, w - Len(s)) \o s
Zeros(d, w) == IF w < 0 THEN Field(d, w) ELSE IF d # <<>> /\ d[1] = 45 THEN <<45>> \o Fill(48, w - Len(d)) \o Tail(d) ELSE Fill(48, w - Len(d)) \o d
\* the formats of the driver; s, t: texts, m: a number's digits, n: a small number
Format(k, s, t, m, n) ==
    CASE k \in {"s", "p", "f"} -> CText(s)
      [] k = "w" -> Field(CText(s), n) \o <<124>>
      [] k = "d" -> m
      [] k = "D" -> Field(m, n) \o <<124>>
      [] k = "z" -> Zeros(m, n)
      [] k = "u" -> m
      [] k = "c" -> <<n>>
      [] k = "m" -> m \o <<58>> \o CText(s) \o <<124, 37, n, 60>> \o CText(t) \o <<62>> \o m
====
