------------------------------- MODULE MCTree6 -------------------------------
(* Random histories of the crate's own branching parameter, driven by what happens inside the tree: runs of insertions and
   removals at chosen places, splitting off and joining.  Checked against the abstract set on the way, and printed with the
   structural situations each history went through, so that the histories replayed into the crate can be chosen to meet
   all of them.  A history is a sequence of integers: k inserts k, -k removes it, 10000+k splits at k and keeps the lower
   side, 20000+k keeps the upper side, 30000+k joins both again, 40000+c appends the c keys that follow. *)
EXTENDS BTree, TLC
CONSTANTS Top, Depth
VARIABLES t, m, h, cov, d
vars == <<t, m, h, cov, d>>
At1(s, i) == s[1 + ((i - 1) % Len(s))]

PutOne(a, x) == IF x \in a.m THEN a ELSE LET r == Insert(a.t, x) IN [t |-> r.t, m |-> a.m \cup {x}, h |-> Append(a.h, x), cov |-> a.cov \cup {<<"ins", r.ev>>}]
CutOne(a, x) == IF x \notin a.m THEN a ELSE LET r == RemoveKey(a.t, x) IN [t |-> r.t, m |-> a.m \ {x}, h |-> Append(a.h, -x), cov |-> a.cov \cup {<<"rem", r.ev>>}]
Puts(a, s) == FoldLeft(PutOne, a, s)
Cuts(a, s) == FoldLeft(CutOne, a, s)
Parts(a, x, how) ==
    LET r == SplitOff(a.t, x)   lo == {y \in a.m : y < x}   hi == {y \in a.m : y >= x}
        w == <<"split", r.ev, Height(a.t)>>
    IN IF how = 1 THEN [t |-> r.l, m |-> lo, h |-> Append(a.h, 10000 + x), cov |-> a.cov \cup {w}]
       ELSE IF how = 2 THEN [t |-> r.r, m |-> hi, h |-> Append(a.h, 20000 + x), cov |-> a.cov \cup {w}]
       ELSE LET j == AppendTrees(r.l, r.r) IN [t |-> j.t, m |-> a.m, h |-> Append(a.h, 30000 + x), cov |-> a.cov \cup {w, <<"join", j.ev>>}]
Joins(a, s) == IF a.t = Nil THEN Puts(a, s)
               ELSE LET b == FoldLeft(LAMBDA u, x : IF Lookup(u, x) THEN u ELSE Insert(u, x).t, Nil, s)  j == AppendTrees(a.t, b)
                    IN [t |-> j.t, m |-> a.m \cup ToSet(s), h |-> a.h \o <<40000 + Len(s)>> \o s, cov |-> a.cov \cup {<<"join", j.ev>>}]
RECURSIVE Roots(_, _)      \* remove the key in the middle of the root, again and again
Roots(a, c) == IF c = 0 \/ a.m = {} THEN a ELSE Roots(CutOne(a, At1(a.t.k, (Len(a.t.k) + 1) \div 2)), c - 1)
RECURSIVE Inner(_, _, _)    \* or one right below it
Inner(a, c, i) == IF c = 0 \/ IsLeaf(a.t) THEN a ELSE Inner(CutOne(a, Head(a.t.c[1 + (i % Len(a.t.c))].k)), c - 1, i)

Run(from, len, step) == [i \in 1..len |-> from + (i - 1) * step]
Inside(s) == SelectSeq(s, LAMBDA x : x >= 1 /\ x <= Top)
Part(s, i, j) == SubSeq(s, IF i < 1 THEN 1 ELSE i, IF j > Len(s) THEN Len(s) ELSE j)
Sizes == <<3, 8, 12, 25, 60>>
(* p, q, r: random numbers *)
Step(a, kind, p, q, r) ==
    LET ks == Sorted(a.m)  c == Len(ks)  size == At1(Sizes, q)  key == 1 + (p % Top)  i == 1 + (p % c)
    IN CASE kind = "up" -> Puts(a, Inside(Run(key, size, 1)))
         [] kind = "down" -> Puts(a, Inside(Run(key, size, -1)))
         [] kind = "wide" -> Puts(a, Inside(Run(1 + (p % 20), Top \div 7, 7)))
         [] kind = "strew" -> Puts(a, [j \in 1..size |-> 1 + ((p + q * j + r * j * j) % Top)])
         [] kind = "build" -> Puts(a, Inside(Run(1 + (p % 40), At1(<<40, 90, 160>>, q), 1 + (r % 2))))
         [] kind = "dbuild" -> Puts(a, Inside(Run(Top - (p % 40), At1(<<40, 90, 160>>, q), -1 - (r % 2))))
         [] kind = "append" -> Joins(a, Inside(Run(key, At1(<<1, 5, 11, 12, 17, 30, 90, 160>>, q), At1(<<1, 1, 3>>, r))))
         [] c = 0 -> a
         [] kind = "cut" -> Cuts(a, Part(ks, i, i + size))
         [] kind = "rcut" -> Cuts(a, Reverse(Part(ks, i - size, i)))
         [] kind = "thin" -> Cuts(a, LET z == At1(<<2, 3, 5>>, q) IN SelectSeq(ks, LAMBDA x : x % z = 0))
         [] kind = "spare" -> Cuts(a, Part(ks, 1, i - 1) \o Reverse(Part(ks, i + (q % 4), c)))
         [] kind = "lose" -> Cuts(a, [j \in 1..size |-> At1(ks, 1 + p + q * j + r * j * j)])
         [] kind = "root" -> Roots(a, 1 + (q % 14))
         [] kind = "inner" -> Inner(a, 1 + (q % 14), 1 + (p % 12))
         [] OTHER -> Parts(a, IF r % 3 = 0 THEN key ELSE ks[i], CASE kind = "lower" -> 1 [] kind = "upper" -> 2 [] OTHER -> 3)
Kinds == <<"up", "down", "wide", "strew", "build", "dbuild", "append", "cut", "rcut", "thin", "spare", "lose", "root", "inner", "lower", "upper", "both", "both", "cut", "rcut">>

Init == t = Nil /\ m = {} /\ h = <<>> /\ cov = {} /\ d = 0
Next == /\ d < Depth /\ d' = d + 1
        /\ \E z \in {RandomElement(0..9999)}, p \in {RandomElement(0..9999)}, q \in {RandomElement(0..9999)}, r \in {RandomElement(0..9999)} :
           \E a \in {Step([t |-> t, m |-> m, h |-> h, cov |-> cov], IF m = {} THEN At1(<<"build", "dbuild", "wide", "strew">>, z + 1) ELSE IF Cardinality(m) < 12 THEN Kinds[1 + (z % 7)] ELSE At1(Kinds, z + 1), p, q, r)} :
              t' = a.t /\ m' = a.m /\ h' = a.h /\ cov' = a.cov
Spec == Init /\ [][Next]_vars
Note == d' = Depth => PrintT("CASE|" \o ToString(h') \o "|" \o FoldLeft(LAMBDA s, x : s \o ToString(x) \o ";", "", SetToSeq(cov')))
Refines == Flat(t) = Sorted(m)
Shaped == WellFormed(t) /\ Count(t) = Cardinality(m) /\ (Nodes(t) - 1) * Low <= Count(t)
Looked == \A x \in 0..(Top + 1) : Lookup(t, x) = (x \in m)
=============================================================================
