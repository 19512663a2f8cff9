-------------------------------- MODULE BTree --------------------------------
(* The tree under the ordered map, at the level of nodes.  B is the branching parameter (6 in the crate): a node holds at
   most 2B-1 keys and, unless it is the root, at least B-2 (a node split by an insertion leaves B-2 to its right).  A node is [k |-> keys, c |-> children], a leaf has no
   children.  The operators return the tree after an operation together with the set of structural events that
   happened, each with the height at which it happened: <<name, height>>.
   Values travel with their keys and are left out. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANT B
Cap == 2 * B - 1
MinLen == B - 1          \* what bulk building and splitting off restore
Low == B - 2             \* what an insertion may leave

Leaf(ks) == [k |-> ks, c |-> <<>>]
Nil == Leaf(<<>>)
IsLeaf(n) == n.c = <<>>
RECURSIVE Height(_)
Height(n) == IF IsLeaf(n) THEN 0 ELSE 1 + Height(n.c[1])
RECURSIVE Nodes(_)
Nodes(n) == 1 + FoldLeft(LAMBDA a, x : a + Nodes(x), 0, n.c)
RECURSIVE Flat(_)
Flat(n) == IF IsLeaf(n) THEN n.k
           ELSE FoldLeft(LAMBDA a, i : a \o Flat(n.c[i]) \o (IF i <= Len(n.k) THEN <<n.k[i]>> ELSE <<>>), <<>>, [i \in 1..Len(n.c) |-> i])
RECURSIVE Count(_)
Count(n) == Len(n.k) + FoldLeft(LAMBDA a, x : a + Count(x), 0, n.c)

(* linear search: keys smaller than q before the place, and whether q is there *)
Place(ks, q) == Cardinality({i \in 1..Len(ks) : ks[i] < q})
Has(ks, q) == LET p == Place(ks, q) IN p < Len(ks) /\ ks[p + 1] = q
RECURSIVE Lookup(_, _)
Lookup(n, q) == Has(n.k, q) \/ (~IsLeaf(n) /\ Lookup(n.c[Place(n.k, q) + 1], q))
(* comparisons one search makes *)
RECURSIVE Compares(_, _)
Compares(n, q) == LET p == Place(n.k, q)
                  IN IF Has(n.k, q) THEN p + 1
                     ELSE (IF p < Len(n.k) THEN p + 1 ELSE p) + (IF IsLeaf(n) THEN 0 ELSE Compares(n.c[p + 1], q))

InsertIn(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))      \* after p elements
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
From(s, i) == SubSeq(s, i, Len(s))

(* ------------------------------------------------------------------ insertion of an absent key *)
(* result: [t |-> tree, up |-> <<>> or <<key, right tree>>, ev |-> events] *)
Node(ks, cs) == [k |-> ks, c |-> cs]
PutHere(n, p, key, sub, h) ==       \* key, and sub to its right, after p keys of n
    LET put(m, q) == Node(InsertIn(m.k, q, key), IF IsLeaf(m) THEN <<>> ELSE InsertIn(m.c, q + 1, sub))
    IN IF Len(n.k) < Cap THEN [t |-> put(n, p), up |-> <<>>, ev |-> {}]
       ELSE LET l == Node(SubSeq(n.k, 1, B), IF IsLeaf(n) THEN <<>> ELSE SubSeq(n.c, 1, B + 1))
                r == Node(From(n.k, B + 2), IF IsLeaf(n) THEN <<>> ELSE From(n.c, B + 2))
            IN IF p <= B THEN [t |-> put(l, p), up |-> <<n.k[B + 1], r>>, ev |-> {<<"split.left", h, p>>}]
               ELSE [t |-> l, up |-> <<n.k[B + 1], put(r, p - (B + 1))>>, ev |-> {<<"split.right", h, p>>}]
RECURSIVE Ins(_, _, _)
Ins(n, key, h) ==
    LET p == Place(n.k, key)
    IN IF IsLeaf(n) THEN PutHere(n, p, key, Nil, 0)
       ELSE LET d == Ins(n.c[p + 1], key, h - 1)
                m == [n EXCEPT !.c[p + 1] = d.t]
            IN IF d.up = <<>> THEN [t |-> m, up |-> <<>>, ev |-> d.ev]
               ELSE LET q == PutHere(m, p, d.up[1], d.up[2], h) IN [t |-> q.t, up |-> q.up, ev |-> d.ev \cup q.ev]
Insert(t, key) ==
    LET d == Ins(t, key, Height(t))
    IN IF d.up = <<>> THEN [t |-> d.t, ev |-> d.ev]
       ELSE [t |-> Node(<<d.up[1]>>, <<d.t, d.up[2]>>), ev |-> d.ev \cup {<<"grow", Height(t) + 1>>}]
(* nodes an insertion needs: one for every full node from the leaf upwards, and a root if the root is among them *)
RECURSIVE FullPath(_, _)
FullPath(n, key) ==      \* <<full nodes at the bottom of the path, is the whole path full?>>
    IF IsLeaf(n) THEN IF Len(n.k) = Cap THEN <<1, TRUE>> ELSE <<0, FALSE>>
    ELSE LET d == FullPath(n.c[Place(n.k, key) + 1], key)
         IN IF d[2] /\ Len(n.k) = Cap THEN <<d[1] + 1, TRUE>> ELSE <<d[1], FALSE>>
NodesNeeded(t, key) == LET d == FullPath(t, key) IN d[1] + (IF d[2] THEN 1 ELSE 0)

(* ------------------------------------------------------------------ repairing around the separator i of n *)
CanMerge(n, i) == Len(n.c[i].k) + Len(n.c[i + 1].k) + 1 <= Cap
Merge(n, i) ==
    LET l == n.c[i]  r == n.c[i + 1]
    IN Node(DropAt(n.k, i), SubSeq(n.c, 1, i - 1) \o <<Node(l.k \o <<n.k[i]>> \o r.k, l.c \o r.c)>> \o From(n.c, i + 2))
StealLeft(n, i, m) ==       \* m keys from the left of separator i to its right
    LET l == n.c[i]  r == n.c[i + 1]  e == Len(l.k) - m
        l2 == Node(SubSeq(l.k, 1, e), IF IsLeaf(l) THEN <<>> ELSE SubSeq(l.c, 1, e + 1))
        r2 == Node(From(l.k, e + 2) \o <<n.k[i]>> \o r.k, IF IsLeaf(l) THEN <<>> ELSE From(l.c, e + 2) \o r.c)
    IN [n EXCEPT !.k[i] = l.k[e + 1], !.c[i] = l2, !.c[i + 1] = r2]
StealRight(n, i, m) ==
    LET l == n.c[i]  r == n.c[i + 1]
        l2 == Node(l.k \o <<n.k[i]>> \o SubSeq(r.k, 1, m - 1), IF IsLeaf(l) THEN <<>> ELSE l.c \o SubSeq(r.c, 1, m))
        r2 == Node(From(r.k, m + 1), IF IsLeaf(r) THEN <<>> ELSE From(r.c, m + 1))
    IN [n EXCEPT !.k[i] = r.k[m], !.c[i] = l2, !.c[i + 1] = r2]

(* ------------------------------------------------------------------ removal of a key that is there *)
Fix(n, j, ev, h) ==         \* child j of n, at height h, may have one key too few
    IF Len(n.c[j].k) >= Cap \div 2 THEN [t |-> n, ev |-> ev]
    ELSE LET left == j > 1   i == IF left THEN j - 1 ELSE j
             w == IF left /\ i = Len(n.k) THEN "last" ELSE IF i = 1 THEN "first" ELSE "between"
         IN IF CanMerge(n, i) THEN [t |-> Merge(n, i), ev |-> ev \cup {<<IF left THEN "merge.left" ELSE "merge.right", h - 1, w>>}]
            ELSE IF left THEN [t |-> StealLeft(n, i, 1), ev |-> ev \cup {<<"steal.left", h - 1, w>>}]
            ELSE [t |-> StealRight(n, i, 1), ev |-> ev \cup {<<"steal.right", h - 1, w>>}]
RECURSIVE TakeMin(_, _)
TakeMin(n, h) == IF IsLeaf(n) THEN [t |-> Leaf(Tail(n.k)), ev |-> {}, key |-> Head(n.k)]
                 ELSE LET d == TakeMin(n.c[1], h - 1)  f == Fix([n EXCEPT !.c[1] = d.t], 1, d.ev, h) IN [t |-> f.t, ev |-> f.ev, key |-> d.key]
RECURSIVE Rem(_, _, _)
Rem(n, key, h) ==
    LET p == Place(n.k, key)
    IN IF IsLeaf(n) THEN [t |-> Leaf(DropAt(n.k, p + 1)), ev |-> {}]
       ELSE IF Has(n.k, key)
            THEN LET d == TakeMin(n.c[p + 2], h - 1) IN Fix([n EXCEPT !.k[p + 1] = d.key, !.c[p + 2] = d.t], p + 2, d.ev \cup {<<"successor", h>>}, h)
            ELSE LET d == Rem(n.c[p + 1], key, h - 1) IN Fix([n EXCEPT !.c[p + 1] = d.t], p + 1, d.ev, h)
RemoveKey(t, key) ==
    LET d == Rem(t, key, Height(t))
    IN IF ~IsLeaf(d.t) /\ d.t.k = <<>> THEN [t |-> d.t.c[1], ev |-> d.ev \cup {<<"pop", Height(t)>>}] ELSE d

(* ------------------------------------------------------------------ splitting off *)
RECURSIVE Cut(_, _)
Cut(n, key) ==
    LET p == Place(n.k, key)
    IN IF IsLeaf(n) THEN <<Leaf(SubSeq(n.k, 1, p)), Leaf(From(n.k, p + 1))>>
       ELSE LET d == Cut(n.c[p + 1], key)
            IN <<Node(SubSeq(n.k, 1, p), SubSeq(n.c, 1, p) \o <<d[1]>>), Node(From(n.k, p + 1), <<d[2]>> \o From(n.c, p + 2))>>
RECURSIVE FixTop(_)
FixTop(t) == IF ~IsLeaf(t) /\ t.k = <<>> THEN FixTop(t.c[1]) ELSE t
RECURSIVE RightBorder(_, _)
RightBorder(n, h) ==
    IF IsLeaf(n) THEN [t |-> n, ev |-> {}]
    ELSE LET i == Len(n.k)  r == Len(n.c[i + 1].k)
             m == IF CanMerge(n, i) THEN Merge(n, i) ELSE IF r < MinLen + 1 THEN StealLeft(n, i, MinLen + 1 - r) ELSE n
             e == IF CanMerge(n, i) THEN {<<"border.merge", h - 1>>} ELSE IF r < MinLen + 1 THEN {<<"border.steal", h - 1, MinLen + 1 - r>>} ELSE {}
             d == RightBorder(Last(m.c), h - 1)
         IN [t |-> [m EXCEPT !.c[Len(m.c)] = d.t], ev |-> e \cup d.ev]
RECURSIVE LeftBorder(_, _)
LeftBorder(n, h) ==
    IF IsLeaf(n) THEN [t |-> n, ev |-> {}]
    ELSE LET r == Len(n.c[1].k)
             m == IF CanMerge(n, 1) THEN Merge(n, 1) ELSE IF r < MinLen + 1 THEN StealRight(n, 1, MinLen + 1 - r) ELSE n
             e == IF CanMerge(n, 1) THEN {<<"lborder.merge", h - 1>>} ELSE IF r < MinLen + 1 THEN {<<"lborder.steal", h - 1, MinLen + 1 - r>>} ELSE {}
             d == LeftBorder(m.c[1], h - 1)
         IN [t |-> [m EXCEPT !.c[1] = d.t], ev |-> e \cup d.ev]
SplitOff(t, key) ==
    IF t = Nil THEN [l |-> Nil, r |-> Nil, ev |-> {}]
    ELSE LET c == Cut(t, key)
             a == FixTop(c[1])   b == FixTop(c[2])
             l == RightBorder(a, Height(a))   r == LeftBorder(b, Height(b))
         IN [l |-> FixTop(l.t), r |-> FixTop(r.t),
             ev |-> l.ev \cup r.ev \cup (IF Height(l.t) < Height(t) THEN {<<"left.shrinks", Height(t) - Height(FixTop(l.t))>>} ELSE {})
                                  \cup (IF Height(r.t) < Height(t) THEN {<<"right.shrinks", Height(t) - Height(FixTop(r.t))>>} ELSE {})]

(* ------------------------------------------------------------------ building from a sorted sequence (append) *)
RECURSIVE Chain(_)
Chain(h) == IF h = 0 THEN Nil ELSE Node(<<>>, <<Chain(h - 1)>>)
RECURSIVE PushBack(_, _, _)
PushBack(n, key, h) ==          \* <<done?, tree>>
    IF IsLeaf(n) THEN IF Len(n.k) < Cap THEN <<TRUE, Leaf(Append(n.k, key))>> ELSE <<FALSE, n>>
    ELSE LET d == PushBack(Last(n.c), key, h - 1)
         IN IF d[1] THEN <<TRUE, [n EXCEPT !.c[Len(n.c)] = d[2]]>>
            ELSE IF Len(n.k) < Cap THEN <<TRUE, Node(Append(n.k, key), Append(n.c, Chain(h - 1)))>> ELSE <<FALSE, n>>
Bulk1(t, key) == LET h == Height(t)  d == PushBack(t, key, h) IN IF d[1] THEN d[2] ELSE Node(<<key>>, <<t, Chain(h)>>)
RECURSIVE RightEdge(_, _)
RightEdge(n, h) ==
    IF IsLeaf(n) THEN [t |-> n, ev |-> {}]
    ELSE LET i == Len(n.k)  r == Len(n.c[i + 1].k)
             m == IF r < MinLen THEN StealLeft(n, i, MinLen - r) ELSE n
             d == RightEdge(Last(m.c), h - 1)
         IN [t |-> [m EXCEPT !.c[Len(m.c)] = d.t], ev |-> d.ev \cup (IF r < MinLen THEN {<<"edge.steal", h - 1, MinLen - r>>} ELSE {})]
Bulk(s) == LET t == FoldLeft(Bulk1, Nil, s) IN RightEdge(t, Height(t))
Sorted(S) == SetToSortSeq(S, <)
AppendTrees(a, b) ==
    IF b = Nil THEN [t |-> a, ev |-> {}] ELSE IF a = Nil THEN [t |-> b, ev |-> {}]
    ELSE LET r == Bulk(Sorted(ToSet(Flat(a)) \cup ToSet(Flat(b)))) IN [t |-> r.t, ev |-> r.ev \cup {<<"bulk", Height(r.t)>>}]

(* ------------------------------------------------------------------ finding both ends of a range *)
(* bounds <<"u">>, <<"i", key>>, <<"e", key>>; the two leaf positions as paths of edges *)
MinEdge(ks, lo, found) == IF lo[1] = "u" THEN 0 ELSE IF found THEN (IF lo[1] = "i" THEN Len(ks) ELSE 0)
                          ELSE Place(ks, lo[2]) + (IF lo[1] = "e" /\ Has(ks, lo[2]) THEN 1 ELSE 0)
MaxEdge(ks, hi, found) == IF hi[1] = "u" THEN Len(ks) ELSE IF found THEN (IF hi[1] = "i" THEN 0 ELSE Len(ks))
                          ELSE Place(ks, hi[2]) + (IF hi[1] = "i" /\ Has(ks, hi[2]) THEN 1 ELSE 0)
RECURSIVE Descend(_, _, _, _)
Descend(n, b, found, lower) ==
    LET e == IF lower THEN MinEdge(n.k, b, found) ELSE MaxEdge(n.k, b, found)
        f == found \/ (b[1] # "u" /\ Has(n.k, b[2]))
    IN <<e>> \o (IF IsLeaf(n) THEN <<>> ELSE Descend(n.c[e + 1], b, f, lower))
(* the key to the right of a position, and the position after it, or <<>> at the end *)
RECURSIVE At(_, _)
At(n, path) == IF path = <<>> THEN n ELSE At(n.c[path[1] + 1], Tail(path))      \* node below a path of edges
RECURSIVE RightOf(_, _)
RightOf(t, path) ==
    LET up == SubSeq(path, 1, Len(path) - 1)   n == At(t, up)   e == path[Len(path)]
    IN IF e < Len(n.k) THEN <<n.k[e + 1], up \o <<e + 1>> >> ELSE IF up = <<>> THEN <<>> ELSE RightOf(t, up)
RECURSIVE LeftOf(_, _)
LeftOf(t, path) ==
    LET up == SubSeq(path, 1, Len(path) - 1)   n == At(t, up)   e == path[Len(path)]
    IN IF e > 0 THEN <<n.k[e], up \o <<e - 1>> >> ELSE IF up = <<>> THEN <<>> ELSE LeftOf(t, up)
RECURSIVE ToLeaf(_, _, _)
ToLeaf(t, path, first) == LET n == At(t, path) IN IF IsLeaf(n) THEN path \o <<IF first THEN 0 ELSE Len(n.k)>>
                                                  ELSE ToLeaf(t, path \o <<IF first THEN 0 ELSE Len(n.k)>>, first)
Forward(t, pos) == LET r == RightOf(t, pos) IN IF r = <<>> THEN <<>> ELSE <<r[1], IF Len(r[2]) = Len(pos) THEN r[2] ELSE ToLeaf(t, r[2], TRUE)>>
Backward(t, pos) == LET r == LeftOf(t, pos) IN IF r = <<>> THEN <<>> ELSE <<r[1], IF Len(r[2]) = Len(pos) THEN r[2] ELSE ToLeaf(t, r[2], FALSE)>>
(* walking from position a until position b is reached *)
RECURSIVE WalkTo(_, _, _)
WalkTo(t, a, b) == IF a = b THEN <<>> ELSE LET s == Forward(t, a) IN IF s = <<>> THEN <<-1>> ELSE <<s[1]>> \o WalkTo(t, s[2], b)
RECURSIVE WalkBack(_, _, _)
WalkBack(t, a, b) == IF a = b THEN <<>> ELSE LET s == Backward(t, b) IN IF s = <<>> THEN <<-1>> ELSE <<s[1]>> \o WalkBack(t, a, s[2])

(* ------------------------------------------------------------------ well-formedness *)
RECURSIVE Formed(_, _)
Formed(n, root) ==
    /\ Len(n.k) <= Cap /\ (root \/ Len(n.k) >= Low)
    /\ IF IsLeaf(n) THEN TRUE ELSE Len(n.k) >= 1 /\ Len(n.c) = Len(n.k) + 1 /\ \A i \in 1..Len(n.c) : Formed(n.c[i], FALSE) /\ Height(n.c[i]) = Height(n.c[1])
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
WellFormed(t) == Formed(t, TRUE) /\ Ascending(Flat(t))

(* the tree with its keys put through f *)
RECURSIVE Rename(_, _)
Rename(n, f) == Node([i \in 1..Len(n.k) |-> f[n.k[i]]], [i \in 1..Len(n.c) |-> Rename(n.c[i], f)])
=============================================================================
