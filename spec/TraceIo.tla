------------------------------ MODULE TraceIo ------------------------------
EXTENDS TraceLib, FIo
VARIABLES v, room, lblk
vars == <<l, v, room, lblk>>
Slots == 1..2

Step(e) ==
    LET s == e.s + 1
        old == IF e.e = "rd" /\ e.how = "i" THEN <<>> ELSE v[s]
        rm == IF e.e = "rd" /\ e.how = "i" THEN 0 ELSE room[s]
        need == CASE e.e = "rd" -> e.n [] e.e = "wr" /\ e.how # "f" -> Len(e.b) [] e.e = "rs" -> e.n [] OTHER -> 0
        got == IF e.e = "rd" /\ e.n >= 0 THEN Reads(e.plan, 1, e.n, 0) ELSE <<0, FALSE>>
        noMem == e.den > 0 \/ need = -1
        failed == ~noMem /\ got[2]
        thrown == e.pn > 0            \* the source itself panicked: what it had delivered, or part of it, stays
        allowed == IF thrown THEN {PANIC} ELSE (IF noMem \/ failed THEN {ERR} ELSE {}) \cup (IF need = -1 \/ failed THEN {} ELSE {OK})
        new == IF thrown THEN (IF e.how # "i" /\ \E k \in 0..Min2(e.taken, got[1]) : e.st = old \o Bytes(e.base, k) THEN e.st ELSE v[s])
               ELSE CASE e.e = "rd" -> IF e.ok = OK \/ (failed /\ e.how # "i") THEN old \o Bytes(e.base, got[1]) ELSE IF e.how = "i" THEN v[s] ELSE old
                 \* several slices: as many of their bytes as the answer says, at least one;  printed in pieces: a failure may come between two
                 [] e.e = "wr" /\ e.how = "s" -> IF e.ok = OK /\ e.r \in (IF e.b = <<>> THEN {0} ELSE 1..Len(e.b)) THEN old \o SubSeq(e.b, 1, e.r) ELSE old
                 [] e.e = "wr" /\ e.how = "p" /\ e.ok = ERR -> IF \E k \in 0..(Len(e.b) - 1) : e.st = old \o SubSeq(e.b, 1, k) THEN e.st ELSE old
                 [] e.e = "wr" -> IF e.ok = OK /\ e.how # "f" THEN old \o e.b ELSE old
                 [] e.e = "dr" -> <<>>
                 [] OTHER -> old
        grown == Len(new) - Len(old)
    IN
    /\ Chk({"C17"} \cup FaultTags(e) \cup (IF noMem \/ e.ok = ERR THEN {"C01"} ELSE {}), "outcome", e.ok \in allowed, <<e.e, e.ok, got>>)
    /\ Chk({"C17"} \cup (IF thrown THEN {"C19"} ELSE {}), "contents", e.st = new, <<e.e, new, e.st>>)
    /\ (e.e \in {"rd", "wr"} /\ e.ok = OK) => Chk({"C17"}, "count returned", e.r = IF e.e = "rd" THEN got[1] ELSE grown, <<e.r, got>>)
    /\ (e.e = "rd") =>
         /\ Chk({"C17"}, "bytes taken from the source", IF thrown THEN e.n = -1 \/ e.taken <= e.n ELSE e.taken = IF noMem /\ e.ok = ERR THEN 0 ELSE got[1], <<e.taken, got>>)
         /\ (noMem /\ e.ok = ERR) => Chk({"C17"}, "source untouched when there is no memory", e.calls = 0, e.calls)
         /\ (failed /\ e.ok = ERR) => Chk({"C17"}, "the source's own error", e.ek = 2, e.ek)
         /\ (e.how = "t" /\ e.n >= 0 /\ ~noMem /\ ~thrown) => Chk({"C17"}, "limit left", e.rest = e.n - got[1], e.rest)
         \* one request at most, and before the source is asked
         /\ (e.ok = OK \/ failed) => Chk({"C17"}, "one request up front", e.att <= 1 /\ (e.calls = 0 \/ e.att0 = e.att), <<e.att, e.att0>>)
    /\ (need >= 0 /\ rm >= need /\ e.e # "dr") => Chk({"C17", "C04"}, "within reserved room", e.att = 0, <<rm, need, e.att>>)
    /\ Chk({"C17", "C05"}, "memory", MemOk(e), <<e.bad, e.mem>>)
    /\ (e.ok = ERR /\ noMem /\ ~(e.e = "wr" /\ e.how = "p")) => Chk({"C17", "C05"}, "no memory kept by the failed call", e.blk = lblk, <<e.blk, lblk>>)
    /\ v' = [v EXCEPT ![s] = new]
    /\ room' = [room EXCEPT ![s] = IF e.e = "dr" THEN 0
                  ELSE IF e.ok = OK /\ e.e \in {"rd", "rs"} THEN Max2(rm, need) - grown
                  ELSE IF thrown THEN Max2(room[s] - (Len(new) - Len(v[s])), 0)
                  ELSE IF e.e = "rd" /\ failed THEN (IF e.how = "i" THEN room[s] ELSE Max2(rm, need) - grown)
                  ELSE IF e.e = "rd" /\ e.how = "i" THEN room[s] ELSE Max2(rm - grown, 0)]
    /\ lblk' = e.blk
Case(e) == /\ l > 1 => Chk({"C17", "C05"}, "everything returned", GoneOk(e), <<e.ok, e.al, e.bad, e.mem, e.blk, e.eblk>>)
           /\ v' = [j \in Slots |-> <<>>] /\ room' = [j \in Slots |-> 0] /\ lblk' = 0
Init == l = 1 /\ v = [j \in Slots |-> <<>>] /\ room = [j \in Slots |-> 0] /\ lblk = 0
Next == l <= NTrace /\ l' = l + 1 /\ (IF Trace[l].e = "case" THEN Case(Trace[l]) ELSE Step(Trace[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
