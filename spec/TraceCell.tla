------------------------------ MODULE TraceCell ------------------------------
(* Recorded executions of boxes and shared pointers, held to FCell. *)
EXTENDS TraceLib, FCell

VARIABLES c, ng, dom, more
vars == <<l, c, ng, dom, more>>
Slots == 1..4
Zero == dom.kd \in {"Z", "Y"}
Tracked == dom.kd \notin {"B", "W", "C"}
V(v) == IF Zero THEN 0 ELSE IF dom.kd = "B" THEN v % 256 ELSE v
Alive(q) == IF Tracked /\ dom.kd # "I" THEN Cardinality(Groups(q)) ELSE 0

Step(e) ==
    LET s == e.s + 1   t == e.t + 1
        cl == [e |-> e.e, s |-> s, t |-> t, kd |-> Fld(e, "kd", "")]
        x == Subject(cl, c)
        cloned == Cloned(cl, c)
        writable == Writable(x, c)
        made == {e.mk[j][1] : j \in 1..Len(e.mk)} \cup (IF Tracked /\ ~Zero THEN {} ELSE {0})
        allowed == CellAllowed(cl, c, e.den, e.cf, e.pn)
        q == CellPost(cl, c, e.ok, IF e.e = "nb" THEN e.x[1] ELSE <<>>, IF e.st[t] = <<>> THEN -9 ELSE e.st[t][2], IF e.e = "wr" THEN V(e.v) ELSE 0, ng)
        T == {"C16"} \cup more \cup (IF e.e = "tc" THEN {"C15"} ELSE {})
    IN
    /\ Chk(T \cup FaultTags(e) \cup (IF e.ok = ERR THEN {"C01"} ELSE {}), "outcome", e.ok \in allowed, <<e.e, e.ok>>)
    /\ Chk(T, "values", \A j \in Slots : e.st[j] = IF q[j] = <<>> THEN <<>> ELSE <<q[j][2], q[j][3]>>, <<e.e, q, e.st>>)
    /\ Chk(T, "kinds", \A j \in Slots : e.ks[j] = IF q[j] = <<>> THEN "-" ELSE q[j][1], <<q, e.ks>>)
    /\ Chk(T, "sharing", e.sz = 0 \/ \A j \in Slots : IF q[j] = <<>> THEN e.adr[j] = -1
                           ELSE e.adr[j] + 1 = CHOOSE i \in Slots : q[i] # <<>> /\ q[i][4] = q[j][4] /\ \A h \in 1..(i - 1) : q[h] = <<>> \/ q[h][4] # q[j][4], <<q, e.adr>>)
    /\ (e.e = "rd") => Chk(T, "read", e.r = IF x = <<>> THEN <<>> ELSE <<<<x[2], x[3]>>>>, e.r)
    /\ (e.e = "wr" /\ e.ok = OK) => Chk(T, "written", e.r = IF writable THEN <<<<V(e.v), x[3]>>>> ELSE <<>>, e.r)
    /\ (cloned /\ e.ok = OK) => Chk({"C15", "C16"}, "duplicated once", e.cl = (IF dom.kd \in {"B", "W"} THEN 0 ELSE 1) /\ (q[t][3] \in made), <<e.cl, q[t]>>)
    /\ (e.e = "tc" /\ ~cloned) => Chk({"C15", "C16"}, "shared, not duplicated", e.cl = 0 /\ e.att = 0, e.cl)
    /\ (e.sz = 0 /\ e.e = "nb" /\ e.kd \in {"b", "t"}) => Chk({"C16", "C01"}, "nothing needed for an empty value", e.att = 0 /\ e.ok = OK, e.att)
    /\ NeedsNone(e.e \in {"rd", "wr", "rw", "ur", "dr"} \/ (e.e = "tc" /\ ~cloned), e)
    /\ Chk({"C16"}, "alignment", e.mis = 0, e.mis)
    /\ Chk({"C16", "C05"} \cup T, "memory", MemOk(e), <<e.bad, e.ds, e.mem>>)
    /\ Chk({"C16", "C05"} \cup T, "each value alive exactly while owned", e.pn > 0 \/ e.al = Alive(q), <<e.al, q>>)
    /\ Chk({"C16", "C05"} \cup T, "one block per owner", e.pn > 0 \/ e.blk = Blocks(q, Zero), <<e.blk, q>>)
    /\ c' = q /\ ng' = ng + 1 /\ dom' = dom
    /\ more' = more \cup (IF e.ok = ERR THEN {"C01"} ELSE {}) \cup (IF e.pn > 0 THEN {"C19"} ELSE {})

Case(e) == /\ l > 1 => Chk({"C16", "C05"}, "everything returned", GoneOk(e), <<e.ok, e.al, e.bad, e.mem, e.blk, e.eblk>>)
           /\ c' = [j \in Slots |-> <<>>] /\ ng' = 1 /\ dom' = [kd |-> e.kd] /\ more' = {}
Init == l = 1 /\ c = [j \in Slots |-> <<>>] /\ ng = 1 /\ dom = [kd |-> ""] /\ more = {}
Next == l <= NTrace /\ l' = l + 1 /\ (IF Trace[l].e = "case" THEN Case(Trace[l]) ELSE Step(Trace[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
