-------------------------------- MODULE FCell --------------------------------
(* Abstract specification of boxes and shared pointers.  A cell is <<>> or <<kind, value, identity, allocation>>: kind b box,
   t wrapped box, w raw pointer, r and a shared pointers; cells with the same allocation share one value.
   A call c has: e the operation, s and t the slots (from 1), kd the kind asked for, v the value written. *)
EXTENDS FCommon

Ref(x) == x[1] \in {"r", "a"}
Filled(q) == {j \in DOMAIN q : q[j] # <<>>}
Groups(q) == {q[j][4] : j \in Filled(q)}
Owners(q, g) == Cardinality({j \in Filled(q) : q[j][4] = g})
NeedsBlock(x, zero) == Ref(x) \/ ~zero
Blocks(q, zero) == Cardinality({q[j][4] : j \in {i \in Filled(q) : NeedsBlock(q[i], zero)}})

Subject(c, q) == IF c.e = "nb" THEN <<>> ELSE q[c.s]
Cloned(c, q) == LET x == Subject(c, q) IN c.e = "tc" /\ x # <<>> /\ x[1] \in {"b", "t"}
Writable(x, q) == x # <<>> /\ (x[1] \in {"b", "w"} \/ (Ref(x) /\ Owners(q, x[4]) = 1))
(* the target of a creation or duplication is vacated first *)
Vacated(c, q) == IF c.e \in {"nb", "tc"} THEN [q EXCEPT ![c.t] = <<>>] ELSE q
(* den: a request was refused; cf: the duplication of the value failed; pn: foreign code panicked *)
CellAllowed(c, q, den, cf, pn) ==
    (IF (c.e = "nb" \/ Cloned(c, q)) /\ (den > 0 \/ cf = 1) THEN {ERR} ELSE {})
    \cup (IF pn > 0 THEN {PANIC} ELSE {}) \cup (IF cf = 1 \/ pn > 0 THEN {} ELSE {OK})
(* given: the value handed in, as <<value, identity>>; dupid: the identity of a duplicate; fresh: a new allocation *)
CellPost(c, q, ok, given, dupid, v, fresh) ==
    LET x == Subject(c, q)  q0 == Vacated(c, q)
    IN IF ok # OK THEN q0
       ELSE CASE c.e = "nb" -> [q0 EXCEPT ![c.s] = <<c.kd, given[1], given[2], fresh>>]
              [] c.e = "tc" -> IF x = <<>> \/ x[1] = "w" THEN q0
                               ELSE IF Cloned(c, q) THEN [q0 EXCEPT ![c.t] = <<x[1], x[2], dupid, fresh>>]
                               ELSE [q0 EXCEPT ![c.t] = x]
              [] c.e = "wr" -> IF Writable(x, q) THEN [q EXCEPT ![c.s] = <<x[1], v, x[3], x[4]>>] ELSE q
              [] c.e = "rw" -> IF x # <<>> /\ x[1] \in {"b", "t"} THEN [q EXCEPT ![c.s] = [x EXCEPT ![1] = "w"]] ELSE q
              [] c.e = "ur" -> IF x # <<>> /\ x[1] = "w" THEN [q EXCEPT ![c.s] = [x EXCEPT ![1] = c.kd]] ELSE q
              [] c.e = "dr" -> [q EXCEPT ![c.s] = <<>>]
              [] OTHER -> q
=============================================================================
