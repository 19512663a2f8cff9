-------------------------------- MODULE MCAlg --------------------------------
(* The lazy set operations as the machines they are: two cursors over ascending sequences, moved on by each call of next,
   either side by side (stitched) or by looking every element of one up in the other (searched).  Which of the two is
   taken is a matter of cost only, so both are explored for every pair of sets.  Checked: what comes out is the
   mathematical result in ascending order, and the size bounds announced enclose what is still to come, at every point. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS W,       \* sets over 1..W
          Emit
VARIABLES a, b,    \* the two sets, as ascending sequences
          kd,      \* which operation, by which way
          i, j,    \* positions of the cursors
          out,     \* what has come out
          end      \* nothing comes any more
vars == <<a, b, kd, i, j, out, end>>
Asc(s) == SetToSortSeq(s, <)
In(x, s) == \E p \in 1..Len(s) : s[p] = x
Kinds == {<<"dif", "stitch">>, <<"dif", "search">>, <<"sym", "stitch">>, <<"int", "stitch">>, <<"int", "search">>, <<"uni", "stitch">>}
Init == /\ \E x \in SUBSET (1..W), y \in SUBSET (1..W) : a = Asc(x) /\ b = Asc(y)
        /\ kd \in Kinds /\ i = 1 /\ j = 1 /\ out = <<>> /\ end = FALSE

(* one call: <<answer, new position, new position>>; the answer is 0 when there is nothing *)
RECURSIVE Dif(_, _), Sym(_, _), Both(_, _), Seek(_, _)
Dif(p, q) == IF p > Len(a) THEN <<0, p, q>>
             ELSE IF q > Len(b) \/ a[p] < b[q] THEN <<a[p], p + 1, q>>
             ELSE IF a[p] = b[q] THEN Dif(p + 1, q + 1) ELSE Dif(p, q + 1)
Sym(p, q) == IF p > Len(a) /\ q > Len(b) THEN <<0, p, q>>
             ELSE IF q > Len(b) THEN <<a[p], p + 1, q>> ELSE IF p > Len(a) THEN <<b[q], p, q + 1>>
             ELSE IF a[p] < b[q] THEN <<a[p], p + 1, q>> ELSE IF a[p] > b[q] THEN <<b[q], p, q + 1>> ELSE Sym(p + 1, q + 1)
Both(p, q) == IF p > Len(a) \/ q > Len(b) THEN <<0, p, q>>
              ELSE IF a[p] < b[q] THEN Both(p + 1, q) ELSE IF a[p] > b[q] THEN Both(p, q + 1) ELSE <<a[p], p + 1, q + 1>>
Seek(p, want) == IF p > Len(a) THEN <<0, p, 1>> ELSE IF In(a[p], b) = want THEN <<a[p], p + 1, 1>> ELSE Seek(p + 1, want)
Uni(p, q) == IF p > Len(a) /\ q > Len(b) THEN <<0, p, q>>
             ELSE IF q > Len(b) THEN <<a[p], p + 1, q>> ELSE IF p > Len(a) THEN <<b[q], p, q + 1>>
             ELSE IF a[p] < b[q] THEN <<a[p], p + 1, q>> ELSE IF a[p] > b[q] THEN <<b[q], p, q + 1>> ELSE <<a[p], p + 1, q + 1>>
Move == CASE kd = <<"dif", "stitch">> -> Dif(i, j) [] kd = <<"dif", "search">> -> Seek(i, FALSE)
          [] kd = <<"int", "stitch">> -> Both(i, j) [] kd = <<"int", "search">> -> Seek(i, TRUE)
          [] kd[1] = "sym" -> Sym(i, j) [] OTHER -> Uni(i, j)
Next == /\ \E r \in {Move} : i' = r[2] /\ j' = r[3] /\ out' = (IF r[1] = 0 THEN out ELSE Append(out, r[1])) /\ end' = (r[1] = 0)
        /\ UNCHANGED <<a, b, kd>>
Spec == Init /\ [][Next]_vars

A == ToSet(a)  B == ToSet(b)
Result == Asc(CASE kd[1] = "dif" -> A \ B [] kd[1] = "int" -> A \cap B [] kd[1] = "sym" -> (A \ B) \cup (B \ A) [] OTHER -> A \cup B)
Left == Len(Result) - Len(out)
la == Len(a) - i + 1   lb == Len(b) - j + 1
Max2(x, y) == IF x > y THEN x ELSE y
(* size bounds as announced: the searched set counts whole, the cursor over the stitched one only with what is left *)
Lower == CASE kd[1] = "dif" -> Max2(0, la - (IF kd[2] = "search" THEN Len(b) ELSE lb)) [] kd[1] = "uni" -> Max2(la, lb) [] OTHER -> 0
Upper == CASE kd[1] \in {"dif", "int"} -> la [] OTHER -> la + lb
Right == IsPrefix(out, Result)
Whole == end => out = Result
Enclosed == Lower <= Left /\ Left <= Upper
(* C13: once there is nothing there never is anything again *)
Fused == [][end => end' /\ out' = out]_vars

(* is a inside b?  side by side, and by looking up *)
RECURSIVE Inside(_, _)
Inside(p, q) == IF p > Len(a) THEN TRUE ELSE IF q > Len(b) THEN FALSE
                ELSE IF b[q] < a[p] THEN Inside(p, q + 1) ELSE IF b[q] > a[p] THEN FALSE ELSE Inside(p + 1, q + 1)
Subset == /\ (Len(a) <= Len(b) /\ Inside(1, 1)) = (A \subseteq B)
          /\ (\A p \in 1..Len(a) : In(a[p], b)) = (A \subseteq B)
Disjoint == (Both(1, 1)[1] = 0) = (A \cap B = {})
Note == (Emit /\ i = 1 /\ j = 1 /\ out = <<>> /\ ~end /\ kd = <<"uni", "stitch">>) => PrintT("CASE|" \o ToString(a) \o "|" \o ToString(b))
=============================================================================
