------------------------------ MODULE MCShare ------------------------------
(* Many readers or one writer.  A walk takes several steps, and several walks go on at once, each from its own place in
   its own direction; while any of them has not come to its end nobody writes.  Then every walk lists what was there when
   it began, whatever the others do.  Every set of walks that came to its end together is printed with the content, to be
   walked by as many threads at once. *)
EXTENDS FMap, TLC
CONSTANTS K, R, Emit
VARIABLES m,       \* the content: a value for every key, 0 for none
          walk,    \* reader -> <<>> or [fw, lo, hi, at, got, was]
          done,    \* the walks that came to their end since the last write
          left     \* writes still to come
vars == <<m, walk, done, left>>
Keys == {k \in 1..K : m[k] # 0}
Init == m \in [1..K -> {0, 1}] /\ walk = [r \in 1..R |-> <<>>] /\ done = {} /\ left = 1
Busy == \E r \in 1..R : walk[r] # <<>>
Write == /\ ~Busy /\ left > 0 /\ left' = left - 1 /\ done' = {}
         /\ \E k \in 1..K, v \in 0..2 : m' = [m EXCEPT ![k] = v] /\ m' # m
         /\ UNCHANGED walk
Begin(r) == /\ walk[r] = <<>> /\ ~\E d \in done : d[1] = r
            /\ \E fw \in BOOLEAN, lo \in {1, 2}, hi \in {K - 1, K} :
                 walk' = [walk EXCEPT ![r] = [fw |-> fw, lo |-> lo, hi |-> hi, at |-> IF fw THEN lo - 1 ELSE hi + 1, got |-> <<>>, was |-> m]]
            /\ UNCHANGED <<m, done, left>>
Coming(w) == {k \in Keys : k >= w.lo /\ k <= w.hi /\ (IF w.fw THEN k > w.at ELSE k < w.at)}
Near(w) == IF w.fw THEN CHOOSE k \in Coming(w) : \A j \in Coming(w) : k <= j ELSE CHOOSE k \in Coming(w) : \A j \in Coming(w) : k >= j
Go(r) == /\ walk[r] # <<>>
         /\ IF Coming(walk[r]) = {}
            THEN /\ walk' = [walk EXCEPT ![r] = <<>>]
                 /\ done' = done \cup {<<r, walk[r].fw, walk[r].lo, walk[r].hi, walk[r].got, walk[r].was>>}
            ELSE /\ walk' = [walk EXCEPT ![r].at = Near(walk[r]), ![r].got = Append(@, <<Near(walk[r]), m[Near(walk[r])]>>)]
                 /\ done' = done
         /\ UNCHANGED <<m, left>>
Next == Write \/ \E r \in 1..R : Begin(r) \/ Go(r)
Spec == Init /\ [][Next]_vars
(* what a complete walk of w must list *)
Listing(w, fw, lo, hi) ==
    LET up == SelectSeq([k \in 1..K |-> <<k, w[k]>>], LAMBDA x : x[2] # 0 /\ x[1] >= lo /\ x[1] <= hi)
    IN IF fw THEN up ELSE [j \in 1..Len(up) |-> up[Len(up) + 1 - j]]
Still == \A r \in 1..R : walk[r] # <<>> => walk[r].was = m /\ IsPrefix(walk[r].got, Listing(m, walk[r].fw, walk[r].lo, walk[r].hi))
Whole == \A d \in done : d[6] = m /\ d[5] = Listing(m, d[2], d[3], d[4])
RECURSIVE T(_, _)
T(s, i) == IF i > Len(s) THEN "" ELSE "," \o ToString(s[i]) \o T(s, i + 1)
RECURSIVE D(_)
D(S) == IF S = {} THEN "" ELSE LET d == CHOOSE x \in S : \A y \in S : x[1] <= y[1]
                               IN "|" \o (IF d[2] THEN "f" ELSE "b") \o ToString(d[3]) \o "-" \o ToString(d[4]) \o D(S \ {d})
Note == (Emit /\ ~Busy /\ Cardinality(done) = R) => PrintT("CASE" \o T(m, 1) \o D(done))
=============================================================================
