-------------------------------- MODULE MCRel --------------------------------
(* Three small maps at a time: equality, order and hashing as FMap states them are an equivalence, a total order that agrees
   with it, and blind to anything but the content.  Every pair is printed, to be asked of the crate's maps. *)
EXTENDS FMap, TLC
CONSTANTS K, Vals, Emit
VARIABLES a, b, c
vars == <<a, b, c>>
Maps == [1..K -> Vals \cup {0}]                   \* 0: absent
L(m) == SelectSeq([k \in 1..K |-> <<k, m[k]>>], LAMBDA x : x[2] # 0)
Init == a \in Maps /\ b = <<>> /\ c = <<>>
Next == \/ b = <<>> /\ b' \in Maps /\ UNCHANGED <<a, c>>
        \/ b # <<>> /\ c = <<>> /\ c' \in Maps /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Cmp(x, y) == Lex(L(x), L(y), 1)
Equal == b # <<>> => ((Cmp(a, b) = 0) = (a = b))
Anti == b # <<>> => Cmp(a, b) = 0 - Cmp(b, a)
Total == b # <<>> => Cmp(a, b) \in {-1, 0, 1}
Trans == (c # <<>> /\ Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0) => Cmp(a, c) <= 0
(* what comes first in order decides: a proper beginning is less *)
Begin == b # <<>> => (IsStrictPrefix(L(a), L(b)) => Cmp(a, b) = -1)
RECURSIVE T(_)
T(m) == IF m = <<>> THEN "" ELSE "," \o ToString(m[1]) \o T(Tail(m))
Note == (Emit /\ c' = <<>>) => PrintT("CASE|" \o T(a) \o "|" \o T(b'))
=============================================================================
