------------------------------- MODULE MCBTree -------------------------------
(* The tree refines the sorted map: every shape a tree can get into, up to N keys, for a small branching parameter.
   The operations are generic in the keys, so the keys are always renumbered 2, 4, ..., 2n: an insertion is one of an odd
   number, and a state is a shape.  An insertion first sets the nodes it may need aside, one request at a time, any of
   which may be refused; only then does it touch the tree. *)
EXTENDS BTree, TLC
CONSTANTS N,         \* keys at most
          R          \* ranges are looked at up to this many
VARIABLES t,         \* the tree
          n,         \* how many keys the abstract map has
          pc,        \* "idle", or an insertion under way: <<"ins", key, nodes still to request>>
          spare,     \* nodes set aside
          live,      \* blocks there are
          made,      \* is there a tree at all?
          right      \* did the last operation do to the contents what the abstract one does?
vars == <<t, n, pc, spare, live, made, right>>
Idle == pc = <<"idle">>
Evens(c) == [i \in 1..c |-> 2 * i]
Canon(x) == LET ks == Flat(x) IN Rename(x, [v \in ToSet(ks) |-> 2 * Cardinality({i \in 1..Len(ks) : ks[i] <= v})])
Init == t = Nil /\ n = 0 /\ pc = <<"idle">> /\ spare = 0 /\ live = 0 /\ made = FALSE /\ right = TRUE
Becomes(x, s) == t' = Canon(x) /\ n' = Len(s) /\ right' = (Flat(x) = s)

Begin(x) == /\ Idle /\ n < N
            /\ pc' = <<"ins", x, (IF made THEN 0 ELSE 1) + NodesNeeded(t, x)>> /\ UNCHANGED <<t, n, spare, live, made, right>>
Request == /\ ~Idle /\ pc[3] > 0 /\ UNCHANGED <<t, n, right>>
           /\ \/ /\ IF ~made THEN made' = TRUE /\ spare' = spare ELSE made' = made /\ spare' = spare + 1       \* the first leaf, or one set aside
                 /\ live' = live + 1 /\ pc' = [pc EXCEPT ![3] = @ - 1]
              \/ pc' = <<"idle">> /\ live' = live - spare /\ spare' = 0 /\ UNCHANGED made                       \* refused: all given back
Commit == /\ ~Idle /\ pc[3] = 0 /\ pc' = <<"idle">> /\ UNCHANGED <<live, made>>
          /\ \E r \in {Insert(t, pc[2])} : Becomes(r.t, Sorted(ToSet(Evens(n)) \cup {pc[2]})) /\ spare' = spare - (Nodes(r.t) - Nodes(t))
Del(i) == /\ Idle /\ i \in 1..n /\ UNCHANGED <<pc, spare, made>>
          /\ \E r \in {RemoveKey(t, 2 * i)} : Becomes(r.t, DropAt(Evens(n), i)) /\ live' = live + Nodes(r.t) - Nodes(t)
Part(x, side) == /\ Idle /\ made /\ UNCHANGED <<pc, spare, made>>     \* splitting off, going on with one of the two sides
                 /\ \E r \in {SplitOff(t, x)} :
                       LET l == SelectSeq(Evens(n), LAMBDA y : y < x)   h == SelectSeq(Evens(n), LAMBDA y : y >= x)
                           me == IF side = 0 THEN r.l ELSE r.r
                       IN /\ t' = Canon(me) /\ n' = Len(IF side = 0 THEN l ELSE h) /\ right' = (Flat(r.l) = l /\ Flat(r.r) = h)
                          /\ live' = live - Nodes(t) + Nodes(me)
Join(c) == /\ Idle /\ made /\ n > 0 /\ c > n /\ UNCHANGED <<pc, spare, made>>     \* appending: rebuilt from the merged sequence
           /\ \E r \in {Bulk(Evens(c))} : Becomes(r.t, Evens(c)) /\ live' = live - Nodes(t) + Nodes(r.t)
Clear == Idle /\ made /\ t' = Nil /\ n' = 0 /\ right' = TRUE /\ made' = FALSE /\ live' = live - Nodes(t) /\ UNCHANGED <<pc, spare>>
Next == \/ Request \/ Commit \/ Clear
        \/ \E i \in 0..n : Begin(2 * i + 1)
        \/ \E i \in 1..n : Del(i)
        \/ \E x \in 1..(2 * n + 1), side \in {0, 1} : Part(x, side)
        \/ \E c \in 1..N : Join(c)
Spec == Init /\ [][Next]_vars

(* C07, C10: the tree holds the abstract contents, in order *)
Refines == right /\ Flat(t) = Evens(n)
Shaped == WellFormed(t) /\ Count(t) = n
Looked == \A x \in 1..(2 * n + 1) : Lookup(t, x) = (x % 2 = 0)
(* C05, C11, C12: exactly the blocks of the tree and those set aside, nothing else; no more than the content justifies *)
BlocksExact == live = spare + (IF made THEN Nodes(t) ELSE 0)
SpareUsed == Idle => spare = 0
Proportion == (Nodes(t) - 1) * Low <= n
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Shallow == Height(t) > 0 => 2 * Pow(Low + 1, Height(t)) <= n + 1
CheapSearch == \A x \in 1..(2 * n + 1) : Compares(t, x) <= Cap * (Height(t) + 1)
(* C08: a walk from one end to the other, in both directions, meets every key once *)
Walks == LET a == ToLeaf(t, <<>>, TRUE)  b == ToLeaf(t, <<>>, FALSE)
         IN WalkTo(t, a, b) = Evens(n) /\ WalkBack(t, a, b) = Reverse(Evens(n))
(* C09: both ends of every admissible range are found, and exactly the keys between them are met *)
Bounds == {<<"u", 0>>} \cup {<<k, x>> : k \in {"i", "e"}, x \in 1..(2 * n + 1)}
BadRange(lo, hi) == lo[1] # "u" /\ hi[1] # "u" /\ (lo[2] > hi[2] \/ (lo[2] = hi[2] /\ lo[1] = "e" /\ hi[1] = "e"))
InLo(b, x) == IF b[1] = "u" THEN TRUE ELSE IF b[1] = "i" THEN x >= b[2] ELSE x > b[2]
InHi(b, x) == IF b[1] = "u" THEN TRUE ELSE IF b[1] = "i" THEN x <= b[2] ELSE x < b[2]
Ranges == (Idle /\ n <= R) => \A lo \in Bounds, hi \in Bounds : ~BadRange(lo, hi) =>
            LET w == SelectSeq(Evens(n), LAMBDA x : InLo(lo, x) /\ InHi(hi, x))
                f == Descend(t, lo, FALSE, TRUE)   b == Descend(t, hi, FALSE, FALSE)
            IN WalkTo(t, f, b) = w /\ WalkBack(t, f, b) = Reverse(w)
(* C11: while an insertion is under way nothing of it shows; a refused one leaves the map as it was *)
Atomic == [][t' # t => Idle']_vars
=============================================================================
