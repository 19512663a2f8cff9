-------------------------------- MODULE FMap --------------------------------
(* Abstract specification of the ordered maps and sets.
   A map over keys 1..N is a sequence of N cells; a cell is <<>> when the key is absent, otherwise
   <<key identity, value, value identity>>.  Sets have value 0 and value identity 0.
   What is listed to the outside is an entry <<key, key identity, value, value identity>>. *)
EXTENDS FWalk, FiniteSetsExt

Empty(n) == [k \in 1..n |-> <<>>]
Present(m, k) == k \in 1..Len(m) /\ m[k] # <<>>
KeysOf(m) == {k \in 1..Len(m) : m[k] # <<>>}
Entry(m, k) == <<k>> \o m[k]
Entries(m) == SelectSeq([k \in 1..Len(m) |-> <<k>> \o m[k]], LAMBDA x : Len(x) > 1)
Size(m) == Cardinality(KeysOf(m))

(* the map holding the listed entries *)
RECURSIVE Fill(_, _, _)
Fill(m, es, i) == IF i > Len(es) THEN m
    ELSE Fill(IF es[i][1] \in 1..Len(m) THEN [m EXCEPT ![es[i][1]] = <<es[i][2], es[i][3], es[i][4]>>] ELSE m, es, i + 1)
MapOf(n, es) == Fill(Empty(n), es, 1)

(* inserting keeps the stored key; replacing (sets) stores the new one *)
Put(m, k, kid, v, vid) == [m EXCEPT ![k] = IF @ = <<>> THEN <<kid, v, vid>> ELSE <<@[1], v, vid>>]
PutNew(m, k, kid) == [m EXCEPT ![k] = <<kid, 0, 0>>]
AddSet(m, k, kid) == [m EXCEPT ![k] = IF @ = <<>> THEN <<kid, 0, 0>> ELSE @]
SetVal(m, k, v) == IF Present(m, k) THEN [m EXCEPT ![k] = <<@[1], v, @[3]>>] ELSE m
Del(m, k) == IF Present(m, k) THEN [m EXCEPT ![k] = <<>>] ELSE m
Below(m, k) == [j \in 1..Len(m) |-> IF j < k THEN m[j] ELSE <<>>]
AtOrAbove(m, k) == [j \in 1..Len(m) |-> IF j >= k THEN m[j] ELSE <<>>]
Merge(m, o) == [j \in 1..Len(m) |-> IF o[j] # <<>> THEN o[j] ELSE m[j]]      \* the other's entry is kept

Val(k, v) == IF k = "Z" THEN 0 ELSE IF k = "W" THEN v % 65536 ELSE v

(* ranges *)
InLo(b, k) == IF b[1] = "u" THEN TRUE ELSE IF b[1] = "i" THEN k >= b[2] ELSE k > b[2]
InHi(b, k) == IF b[1] = "u" THEN TRUE ELSE IF b[1] = "i" THEN k <= b[2] ELSE k < b[2]
BadRange(lo, hi) == lo[1] # "u" /\ hi[1] # "u" /\ (lo[2] > hi[2] \/ (lo[2] = hi[2] /\ lo[1] = "e" /\ hi[1] = "e"))
InRange(m, lo, hi) == SelectSeq(Entries(m), LAMBDA x : InLo(lo, x[1]) /\ InHi(hi, x[1]))

(* order of two lists of <<key, value>> *)
RECURSIVE Lex(_, _, _)
Lex(a, b, i) == IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1) ELSE IF i > Len(b) THEN 1
    ELSE IF a[i][1] < b[i][1] THEN -1 ELSE IF a[i][1] > b[i][1] THEN 1
    ELSE IF a[i][2] < b[i][2] THEN -1 ELSE IF a[i][2] > b[i][2] THEN 1 ELSE Lex(a, b, i + 1)

(* set algebra, as ascending lists of keys *)
AlgKeys(kd, a, b) == LET A == KeysOf(a)  B == KeysOf(b)
    IN CASE kd = "dif" -> A \ B [] kd = "sym" -> (A \ B) \cup (B \ A) [] kd = "int" -> A \cap B [] OTHER -> A \cup B
Ascending(n, S) == SetToSortSeq(S, <)
=============================================================================
