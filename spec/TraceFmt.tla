------------------------------ MODULE TraceFmt ------------------------------
(* Formatting with a stated capacity: one request, made before any argument is asked for its text, or an error
   before any argument is asked. *)
EXTENDS TraceLib
VARIABLES held
vars == <<l, held>>
RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Cat(ss, i + 1)
Runs(e) == CASE e.how \in {"l", "w", "e"} -> 0 [] e.how = "d" -> 2 [] OTHER -> 1
Step(e) ==
    IF e.e = "dr" THEN
        /\ Chk({"C18"}, "memory", MemOk(e) /\ e.ok = OK, <<e.bad, e.mem>>)
        /\ held' = [held EXCEPT ![e.s + 1] = 0]
    ELSE LET len == Len(e.want)
             fits == e.cap >= len
             allowed == (IF e.den > 0 \/ e.cap = -1 THEN {ERR} ELSE {}) \cup (IF e.cap = -1 THEN {} ELSE {OK})
             plain == Cat(e.pcs, 1)
         IN
    /\ Chk({"C18"} \cup FaultTags(e) \cup (IF e.ok = ERR THEN {"C01"} ELSE {}), "outcome", e.ok \in allowed, <<e.ok, e.cap, len>>)
    /\ (e.ok = OK) => Chk({"C18"}, "text", e.txt = e.want /\ (e.how = "p" => e.txt = plain) /\ (e.how = "d" => e.txt = plain \o plain), <<e.txt, e.want>>)
    /\ (e.ok = OK /\ fits) => Chk({"C18"}, "one request", e.att <= 1, e.att)
    /\ (e.ok = OK /\ fits /\ Runs(e) > 0) => Chk({"C18"}, "requested before any text is produced", e.att0 = e.att /\ e.runs = Runs(e), <<e.att, e.att0, e.runs>>)
    /\ (e.ok = ERR) => Chk({"C18"}, "no formatter run", e.runs = 0, e.runs)
    /\ (e.ok = ERR) => Chk({"C18", "C01"}, "at most the one request refused", e.att <= 1, e.att)
    /\ Chk({"C18", "C05"}, "memory", MemOk(e), <<e.bad, e.mem>>)
    /\ held' = [held EXCEPT ![e.s + 1] = IF e.ok = OK THEN (IF e.got > 0 THEN 1 ELSE 0) ELSE @]
    /\ Chk({"C18", "C05"}, "blocks", e.blk = held'[1] + held'[2], <<e.blk, held'>>)
Case(e) == /\ l > 1 => Chk({"C18", "C05"}, "everything returned", GoneOk(e), <<e.ok, e.al, e.bad, e.mem, e.blk, e.eblk>>)
           /\ held' = <<0, 0>>
Init == l = 1 /\ held = <<0, 0>>
Next == l <= NTrace /\ l' = l + 1 /\ (IF Trace[l].e = "case" THEN Case(Trace[l]) ELSE Step(Trace[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
