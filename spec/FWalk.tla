-------------------------------- MODULE FWalk --------------------------------
(* Walks with an iterator, over the list of what it is to show. *)
EXTENDS FCommon, SequencesExt
(* A walk over list es in steps: F and B take one entry from the front or back, N and R pass over one and
   take the next, the digits and small letters pass over two to nine, X and W over forty; C is a clone taken in passing, D the text of the iterator asked for in passing.  A walk may end
   with all that remains taken at once: A from the front, Z from the back, L only the last of it, K only counted.
   cnt[j] = <<taken from the front, taken from the back, side>> up to the j-th step that takes. *)
Passing == {"C", "D", "A", "Z", "L", "K"}
(* how many a step takes off the front, off the back *)
Ahead(x) == CASE x = "F" -> 1 [] x = "N" -> 2 [] x = "2" -> 3 [] x = "3" -> 4 [] x = "4" -> 5 [] x = "5" -> 6 [] x = "6" -> 7
              [] x = "7" -> 8 [] x = "8" -> 9 [] x = "9" -> 10 [] x = "X" -> 41 [] OTHER -> 0
Behind(x) == CASE x = "B" -> 1 [] x = "R" -> 2 [] x = "c" -> 3 [] x = "d" -> 4 [] x = "e" -> 5 [] x = "f" -> 6 [] x = "g" -> 7
               [] x = "h" -> 8 [] x = "i" -> 9 [] x = "j" -> 10 [] x = "W" -> 41 [] OTHER -> 0
Mirror(x) == CASE x = "B" -> "F" [] x = "R" -> "N" [] x = "c" -> "2" [] x = "d" -> "3" [] x = "e" -> "4" [] x = "f" -> "5" [] x = "g" -> "6"
               [] x = "h" -> "7" [] x = "i" -> "8" [] x = "j" -> "9" [] x = "W" -> "X" [] x = "Z" -> "A" [] OTHER -> x
Counts(stp) == LET w == SelectSeq(stp, LAMBDA x : x \notin Passing)
               IN FoldLeft(LAMBDA acc, x : LET f == IF acc = <<>> THEN 0 ELSE acc[Len(acc)][1]  b == IF acc = <<>> THEN 0 ELSE acc[Len(acc)][2]
                                           IN Append(acc, <<f + Ahead(x), b + Behind(x), IF Behind(x) > 0 THEN "B" ELSE "F">>), <<>>, w)
WalkYields(es, cnt) == [j \in 1..Len(cnt) |-> IF cnt[j][1] + cnt[j][2] > Len(es) THEN <<>>
                         ELSE IF cnt[j][3] = "B" THEN es[Len(es) + 1 - cnt[j][2]] ELSE es[cnt[j][1]]]
WalkLeft(es, cnt) == [j \in 1..Len(cnt) |-> IF cnt[j][1] + cnt[j][2] > Len(es) THEN 0 ELSE Len(es) - cnt[j][1] - cnt[j][2]]
(* what remains, as a pair of positions, at every step marked c *)
LeftAt(es, stp, c) ==
    FoldLeft(LAMBDA a, x : IF x = c THEN <<Append(a[1], <<a[2], a[3]>>), a[2], a[3]>>
                           ELSE IF x \in Passing \/ a[2] > a[3] THEN a
                           ELSE IF Behind(x) > 0 THEN <<a[1], a[2], (IF a[3] - Behind(x) > a[2] - 1 THEN a[3] - Behind(x) ELSE a[2] - 1)>>
                           ELSE <<a[1], (IF a[2] + Ahead(x) < a[3] + 1 THEN a[2] + Ahead(x) ELSE a[3] + 1), a[3]>>, <<<<>>, 1, Len(es)>>, stp)[1]
(* what the clones yield, one after the other, when run to the end from the front *)
CloneYields(es, stp) == FoldLeft(LAMBDA a, x : a \o SubSeq(es, x[1], x[2]), <<>>, LeftAt(es, stp, "C"))
(* how many each clone has left and which comes last *)
CloneEnds(es, stp) == FoldLeft(LAMBDA a, x : a \o (IF x[1] > x[2] THEN <<<<0>>, <<>>>> ELSE <<<<x[2] + 1 - x[1]>>, es[x[2]]>>), <<>>, LeftAt(es, stp, "C"))

(* what is shown of the rest at the end *)
Closing(stp) == IF stp = <<>> THEN "" ELSE IF stp[Len(stp)] \in {"A", "Z", "L", "K"} THEN stp[Len(stp)] ELSE ""
Rest(es, stp) == IF Closing(stp) = "" THEN <<>> ELSE \* one pair of positions
    LET w == LeftAt(es, stp, Closing(stp))[1] IN SubSeq(es, w[1], w[2])
Closed(es, stp) ==
    LET r == Rest(es, stp)
    IN CASE Closing(stp) = "A" -> r
         [] Closing(stp) = "Z" -> Reverse(r)
         [] Closing(stp) = "L" -> IF r = <<>> THEN <<>> ELSE <<r[Len(r)]>>
         [] Closing(stp) = "K" -> <<<<Len(r)>>>>
         [] OTHER -> <<>>
=============================================================================
