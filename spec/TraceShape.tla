------------------------------ MODULE TraceShape ------------------------------
(* Duplication of nested values.  A value is the sequence of its tokens in a fixed walk: <<code, size, 0, 0>> for
   structure (1 option, 2 and 3 vectors, 4 and 5 boxes, 6 shared pointer, 7 and 8 maps, 9 nothing) and
   <<0, value, identity, below a shared pointer, tracked>> for a leaf.                                          *)
EXTENDS TraceLib
VARIABLES v, dom
vars == <<l, v, dom>>
Slots == 1..3
Leaf(x) == x[1] = 0
Leaves(ts) == SelectSeq(ts, Leaf)
Duped(ts) == SelectSeq(ts, LAMBDA x : x[1] = 0 /\ x[4] = 0 /\ x[5] = 1)
CopyOf(a, b, made) == /\ Len(a) = Len(b)
                      /\ \A j \in 1..Len(a) : IF Leaf(a[j])
                            THEN /\ b[j][2] = a[j][2] /\ b[j][4] = a[j][4]
                                 /\ IF a[j][4] = 1 \/ a[j][3] = 0 THEN b[j][3] = a[j][3] ELSE b[j][3] \in made
                            ELSE b[j] = a[j]
(* a with leaf number k written *)
Written(a, b, k) == /\ Len(a) = Len(b)
                    /\ \A j \in 1..Len(a) : \/ a[j] = b[j]
                                           \/ /\ Leaf(a[j]) /\ Len(Leaves(SubSeq(a, 1, j))) = k + 1
                                              /\ b[j][3] = a[j][3] /\ b[j][4] = a[j][4]
Step(e) ==
    IF e.e = "num" THEN
        /\ Chk({"C15"} \cup FaultTags(e), "outcome", e.ok = OK, e.ok)
        /\ Chk({"C15"}, "number", e.in = e.out, <<e.ty, e.in, e.out>>)
        /\ Chk({"C15", "C01"}, "no request", e.att = 0, e.att)
        /\ UNCHANGED <<v, dom>>
    ELSE
    LET s == e.s + 1   t == e.t + 1
        o == 6 - s - (IF t = s THEN (s % 3) + 1 ELSE t)
        some == v[s] # <<<<9, 0, 0, 0>>>>
        tc == e.e = "tc"
        allowed == (IF tc /\ (e.den > 0 \/ e.cf = 1) THEN {ERR} ELSE {}) \cup (IF e.pn > 0 THEN {PANIC} ELSE {})
                   \cup (IF e.cf = 1 \/ e.pn > 0 THEN {} ELSE {OK})
        made == {e.mk[j][1] : j \in 1..Len(e.mk)}
        T == {"C15"} \cup (IF e.pn > 0 THEN {"C19"} ELSE {})
        none == <<<<9, 0, 0, 0>>>>
    IN
    /\ Chk(T \cup FaultTags(e) \cup (IF e.ok = ERR THEN {"C01"} ELSE {}), "outcome", e.ok \in allowed, <<e.e, e.ok>>)
    /\ Chk(T, "original", CASE e.e = "mk" -> TRUE [] e.e = "dr" -> e.st = none [] e.e = "mu" -> Written(v[s], e.st, e.k) [] OTHER -> e.st = v[s], <<v[s], e.st>>)
    /\ Chk(T, "others", e.sto = v[o], <<v[o], e.sto>>)
    /\ (tc /\ e.ok = OK /\ some) => /\ Chk(T, "duplicate", CopyOf(v[s], e.st2, made), <<v[s], e.st2>>)
                                    /\ Chk(T, "each duplicated once", e.cl = Len(Duped(v[s])) /\ e.al = e.al0 + Len(Duped(v[s])), <<e.cl, e.al0, e.al>>)
    /\ (tc /\ e.ok # OK) => /\ Chk(T, "nothing instead of the duplicate", e.st2 = none, e.st2)
                            /\ (e.pn = 0) => Chk(T \cup {"C05"}, "everything duplicated so far is destroyed", e.al = e.al0 /\ e.blk = e.blk0 /\ e.eblk = e.eblk0, <<e.al0, e.al, e.blk0, e.blk>>)
    /\ Chk(T \cup {"C05"}, "memory", MemOk(e), <<e.bad, e.ds, e.mem>>)
    /\ v' = IF e.e = "tc" THEN [v EXCEPT ![s] = e.st, ![t] = e.st2] ELSE [v EXCEPT ![s] = e.st]
    /\ dom' = dom
Case(e) == /\ l > 1 => Chk({"C15", "C05"}, "everything returned", dom.pn \/ GoneOk(e), <<e.ok, e.al, e.bad, e.mem, e.blk, e.eblk>>)
           /\ v' = [j \in Slots |-> <<<<9, 0, 0, 0>>>>] /\ dom' = [kd |-> e.kd, pn |-> e.fl = "p"]
Init == l = 1 /\ v = [j \in Slots |-> <<>>] /\ dom = [kd |-> "", pn |-> FALSE]
Next == l <= NTrace /\ l' = l + 1 /\ (IF Trace[l].e = "case" THEN Case(Trace[l]) ELSE Step(Trace[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
