------------------------------ MODULE TraceHash ------------------------------
(* Accepts recorded executions of the hash map that FMap allows: the same cells as an ordered map, but nothing is
   promised about order (listings are recorded in key order). *)
EXTENDS TraceLib, FMap

VARIABLES st,      \* slot -> map
          room,    \* slot -> insertions of new keys that may not make a request
          dom, more, leak, lblk
vars == <<l, st, room, dom, more, leak, lblk>>
Slots == 1..3
N == dom.n
Vk == dom.vk
Zv(v) == Val(Vk, v)
Kt == dom.kd \notin {"K", "U"}                                 \* keys have an identity of their own
PerEntry == (IF Kt THEN 1 ELSE 0) + (IF Vk \in {"W", "F", "I"} THEN 0 ELSE 1)
PerDup == 1 + (IF Vk = "W" THEN 0 ELSE 1)

Post(e, m) ==
    CASE e.e = "hins" -> Put(m, e.k[1], e.k[2], e.x[1], e.x[2])
      [] e.e = "hrm" -> Del(m, e.k[1])
      [] e.e \in {"hwc", "hdef", "hdrop"} -> Empty(N)
      [] e.e = "hit" -> IF e.kd = "o" THEN Empty(N) ELSE m
      [] OTHER -> m
Answer(e, m) == IF Present(m, e.k[1]) THEN <<<<m[e.k[1]][2], m[e.k[1]][3]>>>> ELSE <<>>

T0(e) == {"C06"} \cup more \cup (IF e.e = "htcl" THEN {"C15"} ELSE {}) \cup (IF e.pn > 0 THEN {"C19"} ELSE {})
OutTags(e) == {"C06"} \cup FaultTags(e) \cup (IF e.ok = ERR \/ e.den > 0 THEN {"C01"} ELSE {}) \cup more \cup (IF e.e = "htcl" THEN {"C15"} ELSE {})
AllMade(es, e) == LET M == {e.mk[a][1] : a \in 1..Len(e.mk)} IN ~Kt \/ \A i \in 1..Len(es) : es[i][2] \in M

Step(e) ==
    LET s == e.s + 1
        two == e.e = "htcl"
        t == IF two THEN e.t + 1 ELSE s
        m == st[s]
        o == st[t]
        allowed == (IF (e.den > 0 \/ e.cf = 1) /\ e.e \in {"hins", "hwc", "htcl"} THEN {ERR} ELSE {})
                   \cup (IF e.e = "hwc" /\ e.n = -1 THEN {ERR} ELSE {})
                   \cup (IF e.pn > 0 THEN {PANIC} ELSE {})
                   \cup (IF e.pn > 0 \/ e.cf = 1 \/ (e.e = "hwc" /\ e.n = -1) THEN {} ELSE {OK})
        p == IF e.ok = OK THEN Post(e, m) ELSE IF e.e = "hdrop" \/ (e.e = "hit" /\ e.kd = "o") THEN Empty(N) ELSE m
        ep == Entries(p)  em == Entries(m)
        \* a hash function that panics while the table is being rearranged may cost entries
        loose == e.ok = PANIC /\ e.e = "hins" /\ e.hp = 1
        ns == IF Has(e, "st") THEN (IF e.st = ep THEN p ELSE MapOf(N, e.st)) ELSE p
        dup == two /\ e.ok = OK
        nt == IF dup THEN MapOf(N, e.st2) ELSE o
        nst0 == [st EXCEPT ![s] = ns]
        nst == IF two THEN [nst0 EXCEPT ![t] = nt] ELSE nst0
        held == PerEntry * SumSeq([j \in Slots |-> Size(nst[j])])
        T == T0(e)
        pn == e.pn > 0
        new == e.e = "hins" /\ e.ok = OK /\ ~Present(m, e.k[1])
    IN
    /\ Chk(OutTags(e), "outcome", e.ok \in allowed, <<e.e, e.ok>>)
    /\ (~loose /\ Has(e, "st")) => Chk(T, "contents", e.st = ep, <<e.e, e.ok, ep, e.st>>)
    /\ ~loose => Chk(T, "length", e.ln = Size(p), <<e.ln, Size(p)>>)
    /\ loose => Chk(T, "contents after a panic", e.ln = Len(e.st) /\ Range1(e.st) \subseteq Range1(em) /\ Cardinality(Range1(e.st)) = Len(e.st), e.st)
    /\ two => IF dup THEN /\ Chk(T, "duplicate", Len(e.st2) = Len(em) /\ AllMade(e.st2, e) /\ \A i \in 1..Len(em) : em[i][1] = e.st2[i][1] /\ em[i][3] = e.st2[i][3], <<em, e.st2>>)
                          /\ Chk({"C15", "C06"}, "each duplicated once", e.cl = PerDup * Size(m) /\ e.ln2 = e.ln, <<e.cl, Size(m)>>)
              ELSE Chk(T, "other contents", e.st2 = Entries(o) /\ e.ln2 = Size(o), e.st2)
    /\ (e.e \in {"hins", "hget", "hrm"} /\ e.ok = OK) => Chk(T, "answer", e.r = Answer(e, m), <<e.e, e.k, e.r, Answer(e, m)>>)
    /\ (e.e = "hit" /\ e.ok = OK) =>
         LET want == Min2(e.n, Size(m))
         IN /\ Chk(T, "yields", Len(e.ys) = want /\ Cardinality(Range1(e.ys)) = want /\ Range1(e.ys) \subseteq Range1(em) /\ e.fused = 1, <<em, e.ys>>)
            /\ Chk(T, "size reported", \A j \in 1..e.n : LET lf == Max2(Size(m) - j, 0) IN e.hs[3*j-2] = lf /\ e.hs[3*j-1] = lf /\ e.hs[3*j] = lf, e.hs)
    /\ (e.e = "hdbg" /\ Vk # "W") =>
         Chk({"C06", "C20"}, "debug text", TextsOk("{", [j \in 1..Len(em) |-> ToString(em[j][1]) \o ": " \o ToString(em[j][3])], "}", e), <<e.txt, e.tp, e.te>>)
    /\ (e.e = "hins" /\ e.ok = OK /\ room[s] > 0) => Chk({"C06"}, "reserved room", e.att = 0, <<room[s], e.att>>)
    \* ownership and memory
    /\ NeedsNone(e.e \in {"hget", "hrm", "hit", "hdbg", "hscan", "hdrop", "hdef"}, e)
    /\ Untouched(e.e \in {"hget", "hdbg", "hscan", "htcl"} \/ (e.e = "hit" /\ e.kd # "o"), e)
    /\ Chk({"C05", "C06"}, "alignment", e.mis = 0, e.mis)
    /\ Chk({"C05", "C06"} \cup T, "memory", MemOk(e), <<e.bad, e.ds, e.mem>>)
    /\ Chk({"C05", "C06"} \cup (more \ {"C19"}), "all alive elements are held, all held are alive",
           IF pn THEN e.al - leak.al >= held ELSE e.al - leak.al = held, <<e.al, held, leak>>)
    /\ (e.ok = ERR) => Chk({"C05", "C06"}, "no memory kept by the failed call", e.blk = lblk, <<lblk, e.blk>>)
    /\ st' = nst
    /\ room' = [j \in Slots |->
          IF j = t /\ dup THEN 0
          ELSE IF j # s THEN room[j]
          ELSE IF e.e = "hwc" /\ e.ok = OK THEN e.n
          ELSE IF new THEN Max2(room[j] - 1, 0)
          ELSE IF e.e \in {"hget", "hdbg", "hscan", "htcl"} \/ (e.e = "hrm" /\ e.pn = 0) \/ (e.e = "hins" /\ e.ok = OK) \/ (e.e = "hwc" /\ e.ok = ERR) THEN room[j] ELSE 0]
    /\ more' = more \cup (IF e.ok = ERR THEN {"C01"} ELSE {}) \cup (IF pn THEN {"C19"} ELSE {}) \cup (IF dup THEN {"C15"} ELSE {})
    /\ leak' = IF pn THEN [al |-> e.al - held, on |-> TRUE] ELSE leak
    /\ lblk' = e.blk
    /\ dom' = dom

Case(e) ==
    /\ l > 1 => Chk({"C05", "C06"} \cup more, "everything returned",
                    IF leak.on THEN e.ok = 1 /\ e.bad = 0 /\ e.mem = 0 /\ e.al = leak.al ELSE GoneOk(e), <<e.ok, e.al, e.bad, e.mem, e.blk, e.eblk>>)
    /\ dom' = [kd |-> e.kd, vk |-> e.fl, n |-> e.nn]
    /\ st' = [j \in Slots |-> Empty(e.nn)] /\ room' = [j \in Slots |-> 0]
    /\ more' = {} /\ leak' = [al |-> 0, on |-> FALSE] /\ lblk' = 0

Init == /\ l = 1 /\ dom = [kd |-> "", vk |-> "", n |-> 0] /\ st = [j \in Slots |-> <<>>] /\ room = [j \in Slots |-> 0]
        /\ more = {} /\ leak = [al |-> 0, on |-> FALSE] /\ lblk = 0
Next == l <= NTrace /\ l' = l + 1 /\ (IF Trace[l].e = "case" THEN Case(Trace[l]) ELSE Step(Trace[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
