------------------------------- MODULE MCRange -------------------------------
(* Every pair of bounds over trees of the crate's own branching parameter, the bounds on, between and beyond the keys.
   Checked: both ends found by descending enclose exactly the keys of the range, walked either way, from any two points in
   between.  Every pair is printed, to be asked of the crate's tree of the same shape. *)
EXTENDS BTree, TLC
CONSTANTS Keys,    \* how many keys: 2, 4, 6, ...
          Emit
VARIABLES shape, t, lo, hi
vars == <<shape, t, lo, hi>>
E(i) == 2 * i
Orders == << [i \in 1..Keys |-> E(i)], [i \in 1..Keys |-> E(Keys + 1 - i)],
             [i \in 1..Keys |-> IF 2 * i <= Keys THEN E(2 * i) ELSE E(2 * (Keys + 1 - i) - 1)] >>
Grown(s) == FoldLeft(LAMBDA u, x : Insert(u, x).t, Nil, s)
Bounds == {<<"u", 0>>} \cup {<<d, k>> : d \in {"i", "e"}, k \in 1..(2 * Keys + 1)}
Bad(a, b) == a[1] # "u" /\ b[1] # "u" /\ (a[2] > b[2] \/ (a[2] = b[2] /\ a[1] = "e" /\ b[1] = "e"))
Init == shape \in 1..3 /\ t = Grown(Orders[shape]) /\ lo \in Bounds /\ hi = <<"", 0>>
Next == hi[1] = "" /\ hi' \in Bounds /\ UNCHANGED <<shape, t, lo>>
Spec == Init /\ [][Next]_vars
In(k) == (CASE lo[1] = "u" -> TRUE [] lo[1] = "i" -> k >= lo[2] [] OTHER -> k > lo[2]) /\ (CASE hi[1] = "u" -> TRUE [] hi[1] = "i" -> k <= hi[2] [] OTHER -> k < hi[2])
Want == SelectSeq([i \in 1..Keys |-> E(i)], In)
Exact == (hi[1] # "" /\ ~Bad(lo, hi)) => \E f \in {Descend(t, lo, FALSE, TRUE)}, b \in {Descend(t, hi, FALSE, FALSE)} : WalkTo(t, f, b) = Want /\ WalkBack(t, f, b) = Reverse(Want)
(* taken from both ends in turn, the ends meet *)
RECURSIVE Turns(_, _, _)
Turns(f, b, front) == IF f = b THEN <<>>
                      ELSE IF front THEN LET s == Forward(t, f) IN <<s[1]>> \o Turns(s[2], b, FALSE)
                      ELSE LET s == Backward(t, b) IN <<s[1]>> \o Turns(f, s[2], TRUE)
InTurn(w) == [i \in 1..Len(w) |-> IF i % 2 = 1 THEN w[(i + 1) \div 2] ELSE w[Len(w) + 1 - (i \div 2)]]
Meet == (hi[1] # "" /\ ~Bad(lo, hi)) => Turns(Descend(t, lo, FALSE, TRUE), Descend(t, hi, FALSE, FALSE), TRUE) = InTurn(Want)
Formed1 == WellFormed(t)
P(b) == b[1] \o (IF b[1] = "u" THEN "" ELSE ToString(b[2]))
Note == Emit => PrintT("CASE|" \o ToString(shape) \o "|" \o P(lo) \o "|" \o P(hi'))
=============================================================================
