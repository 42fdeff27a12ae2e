---- MODULE MC_Map ----
(***************************************************************************)
(* A model of the hash table behind coil::UnorderedMap: entries in a dense *)
(* sequence, chained by bucket in order of insertion; erasing an entry     *)
(* moves the last one into its place.  TLC checks that it refines CoilMap  *)
(* for every hash function and configuration given, and every transition   *)
(* of it is replayed on the code.                                          *)
(***************************************************************************)
EXTENDS CoilMap, Paths
VARIABLES hash,    \* the hash function in use
          conf,    \* slot -> load factor in percent
          nodes,   \* slot -> sequence of <<key, value>>
          chains   \* slot -> sequence of chains of indices of nodes
mvars == <<maps, hash, conf, nodes, chains, pvars>>

MSlots == {1}
Keys == 0..(IF deep THEN 5 ELSE 4)
Configurations == {<<0, 100>>, <<1, 100>>, <<2, 100>>, <<3, 50>>, <<1, 300>>, <<2, 0>>}
Hashes == {0, 1, 2, 3}
HashOf(k) == CASE hash = 0 -> 0 [] hash = 1 -> k % 2 [] hash = 2 -> k [] hash = 3 -> 15 - (k % 3)     \* (15: the driver's is 2^64-1)

Init == /\ MInit /\ hash = 0 /\ conf = [s \in Slots |-> 0] /\ nodes = [s \in Slots |-> <<>>] /\ chains = [s \in Slots |-> <<>>]
        /\ PathInit

Bucket(k, n) == (HashOf(k) % n) + 1
\* All nodes chained anew in n buckets.
Chained(ns, n) == [b \in 1..n |-> SelectSeq([i \in 1..Len(ns) |-> i], LAMBDA i : Bucket(ns[i][1], n) = b)]
Index(x, k) == CHOOSE i \in 1..Len(nodes[x]) : nodes[x][i][1] = k
Set2(x, ns, cs) == nodes' = [nodes EXCEPT ![x] = ns] /\ chains' = [chains EXCEPT ![x] = cs]

MakeI(x, c) == /\ Make(x) /\ Set2(x, <<>>, [b \in 1..c[1] |-> <<>>]) /\ conf' = [conf EXCEPT ![x] = c[2]] /\ UNCHANGED hash
               /\ Op("make " \o S(x) \o " " \o N(c[1]) \o " " \o N(c[2]))
HashI(h) == /\ \A x \in Slots : ~Live(x) /\ hash # h /\ hash' = h /\ UNCHANGED <<maps, conf, nodes, chains>> /\ Op("hash " \o N(h))
InsertI(x, k) ==
    LET n == Len(nodes[x]) + 1
        v == count + 1
    IN  /\ Insert(x, k, v) /\ UNCHANGED <<conf, hash>>
        /\ IF k \in DOMAIN M(x) THEN Set2(x, [nodes[x] EXCEPT ![Index(x, k)] = <<k, v>>], chains[x])
           ELSE LET b == Len(chains[x])
                    full == b = 0 \/ n * 100 > conf[x] * b
                    cs == IF full THEN Chained(nodes[x], IF n = 1 THEN 1 ELSE 2 * (n - 1)) ELSE chains[x]
                IN  Set2(x, Append(nodes[x], <<k, v>>), [cs EXCEPT ![Bucket(k, Len(cs))] = Append(@, n)])
        /\ Op("ins " \o S(x) \o " " \o N(k) \o " " \o N(v))
EraseI(x, k, how) ==
    /\ Erase(x, k) /\ UNCHANGED <<conf, hash>>
    /\ IF k \notin DOMAIN M(x) THEN UNCHANGED <<nodes, chains>>
       ELSE LET i == Index(x, k)
                n == Len(nodes[x])
                without == [b \in 1..Len(chains[x]) |-> SelectSeq(chains[x][b], LAMBDA j : j # i)]
            IN  Set2(x, SubSeq(IF i = n THEN nodes[x] ELSE [nodes[x] EXCEPT ![i] = nodes[x][n]], 1, n - 1),
                     [b \in 1..Len(without) |-> [j \in 1..Len(without[b]) |-> IF without[b][j] = n THEN i ELSE without[b][j]]])
    /\ Op("erase " \o S(x) \o " " \o N(k) \o " " \o how)
ClearI(x) == Clear(x) /\ UNCHANGED <<conf, hash>> /\ Set2(x, <<>>, [b \in 1..Len(chains[x]) |-> <<>>]) /\ Op("clear " \o S(x))
MutateI(x, k, how) ==
    /\ Mutate(x, k, count + 1) /\ UNCHANGED <<conf, hash, chains>>
    /\ nodes' = [nodes EXCEPT ![x] = [i \in 1..Len(@) |-> IF @[i][1] = k THEN <<k, count + 1>> ELSE @[i]]]
    /\ Op("mut " \o S(x) \o " " \o N(k) \o " " \o N(count + 1) \o " " \o how)
\* Self-assignment and moving out and back in.
Across(x) ==
    /\ UNCHANGED <<maps, hash, conf, nodes, chains>> /\ Live(x)
    /\ \/ Op("cas " \o S(x) \o " " \o S(x)) \/ Op("mas " \o S(x) \o " " \o S(x))
       \/ Op("cctor 3 " \o S(x) \o ";clear 3;ins 3 0 9;drop 3") \/ Op("mctor 3 " \o S(x) \o ";ins " \o S(x) \o " 1 8;mas " \o S(x) \o " 3;drop 3")

\* A copy of a key or a value, or an allocation, fails; the buckets it leaves are not visible.
Failing(x) ==
    /\ Failed /\ UNCHANGED <<hash, conf, nodes, chains>> /\ Live(x)
    /\ \/ \E k \in {1, 2, 3, 4} : \/ Op("arm allocs " \o N(k) \o ";cctor 3 " \o S(x) \o ";drop 3")
                                   \/ Op("make 3 2 100;ins 3 1 9;arm allocs " \o N(k) \o ";cas 3 " \o S(x) \o ";ins 3 2 8;erase 3 1 key;drop 3")
                                   \/ Op("arm allocs " \o N(k) \o ";cas " \o S(x) \o " " \o S(x))
       \/ nodes[x] # <<>> /\ \E k \in {1, 2 * Len(nodes[x])} : \/ Op("arm copies " \o N(k) \o ";cctor 3 " \o S(x) \o ";drop 3")
                                                              \/ Op("make 3 2 100;ins 3 1 9;arm copies " \o N(k) \o ";cas 3 " \o S(x) \o ";ins 3 2 8;erase 3 1 key;drop 3")
       \/ \E k \in DOMAIN M(x), n \in {1, 2} : Op("arm copies " \o N(n) \o ";insown " \o S(x) \o " " \o N(k))
       \/ \E k \in {1, 2, 3} : Op("cctor 3 " \o S(x) \o ";arm allocs " \o N(k) \o ";ins 3 4 7;ins 3 4 7;erase 3 0 key;drop 3")

Next == \/ \E h \in Hashes : HashI(h)
        \/ \E x \in Slots : \/ \E c \in Configurations : MakeI(x, c)
                            \/ \E k \in Keys : InsertI(x, k) \/ EraseI(x, k, "key") \/ (k \in DOMAIN M(x) /\ (EraseI(x, k, "other") \/ MutateI(x, k, "it")))
                            \/ ClearI(x) \/ Across(x) \/ Failing(x)

Structure(x) == <<Live(x), [i \in 1..Len(nodes[x]) |-> nodes[x][i][1]], chains[x], conf[x]>>
View == <<hash, [x \in Slots |-> Structure(x)]>>

\* Each node is in exactly one chain, the one of its bucket; and the table holds exactly the map.
InItsChain == \A x \in Slots : \A i \in 1..Len(nodes[x]) :
    Cardinality({ <<b, j>> \in (1..Len(chains[x])) \X (1..Len(nodes[x])) : j <= Len(chains[x][b]) /\ chains[x][b][j] = i }) = 1
    /\ \E j \in 1..Len(chains[x][Bucket(nodes[x][i][1], Len(chains[x]))]) : chains[x][Bucket(nodes[x][i][1], Len(chains[x]))][j] = i
Refines == \A x \in Slots : /\ Len(nodes[x]) = Cardinality(DOMAIN M(x))
                            /\ { nodes[x][i] : i \in 1..Len(nodes[x]) } = { <<k, M(x)[k]>> : k \in DOMAIN M(x) }
====
