------------------------------ MODULE TraceVec ------------------------------
(* Accepts recorded executions of the crate's vectors that FVec allows.  Every clause names the
   properties it decides; after an event the state is what was observed, so that one clause's
   rejection does not depend on another's. *)
EXTENDS TraceLib, FVec

VARIABLES st,      \* slot -> contents
          room,    \* slot -> capacity (plain), or the part of it promised so far (wrapped)
          grow,    \* slot -> additions of one element that went to the allocator since the last resync
          dom,     \* [kd |-> element kind, wr |-> wrapped?]
          more,    \* properties a wrong answer from now on also speaks about: C02 after a failure, C15 after a
                   \* duplication, C19 after a panic
          leak     \* elements nobody owns any more since a panic
vars == <<l, st, room, grow, dom, more, leak>>

Slots == 1..3
Kd == dom.kd
Tracked == Kd \in {"T", "H", "A", "L"}
Ident == Tracked \/ Kd = "I"                                  \* every element is its own
Nan(v) == Kd = "F" /\ v % 10 = 7                             \* such a value does not equal itself
Counted == Kd \in {"T", "H", "A", "L", "Z"}
Zst == Kd = "Z"

W == INSTANCE FWalk
(* vectors of their own kind are walked forwards only *)
WalkOf(e) == IF e.kd \in {"r", "m"} THEN [j \in 1..Len(e.stp) |-> W!Mirror(e.stp[j])] ELSE e.stp
Places(n) == [j \in 1..n |-> <<j>>]
(* the places an iteration comes by *)
Visited(e, n) == {z[1] : z \in {y \in Range1(W!WalkYields(Places(n), W!Counts(WalkOf(e)))) : y # <<>>}
                               \cup (IF W!Closing(WalkOf(e)) \in {"", "K"} THEN {} ELSE Range1(W!Closed(Places(n), WalkOf(e))))}
CallOf(e, n) == [op |-> e.e, ek |-> Kd, n |-> Fld(e, "n", 0), x |-> IF Has(e, "x") THEN e.x[1] ELSE <<0, 0>>,
              i |-> IF Fld(e, "i", 0) = -1 THEN 999999 ELSE Fld(e, "i", 0), v |-> Fld(e, "v", 0), b |-> Fld(e, "b", 0),
              vals |-> IF Has(e, "vals") THEN [j \in 1..Len(e.vals) |-> Val(Kd, e.vals[j])] ELSE <<>>,
              parts |-> IF Has(e, "parts") THEN [j \in 1..Len(e.parts) |-> [k \in 1..Len(e.parts[j]) |-> Val(Kd, e.parts[j][k])]] ELSE <<>>,
              xs |-> Fld(e, "xs", <<>>), kd |-> Fld(e, "kd", ""), steps |-> IF e.e = "it" THEN Visited(e, n) ELSE {},
              den |-> e.den, cf |-> e.cf, pn |-> e.pn]

(* observed element o is the expected element x: a Fresh one must have been made during this call
   (or be the very element handed over) *)
Is(o, x, made) == o[1] = x[1] /\ (x[2] = o[2] \/ (x[2] = Fresh /\ Ident /\ o[2] \in made))
Same(obs, exp, made) == Len(obs) = Len(exp) /\ \A j \in 1..Len(obs) : Is(obs[j], exp[j], made)

(* which properties a clause about the contents after this call belongs to *)
OpTags(e) == (IF e.e \in Makers THEN {"C21"} ELSE {}) \cup (IF e.e = "tryclone" THEN {"C15"} ELSE {})
             \cup (IF e.e \in {"eq", "dbg"} THEN {"C20"} ELSE {})
ContentTags(e) == OpTags(e) \cup more \cup (IF e.pn > 0 THEN {"C19"} ELSE IF e.ok = ERR THEN {"C02"} ELSE {"C03"})
OutcomeTags(e) == FaultTags(e) \cup OpTags(e) \cup (IF e.den = 0 /\ e.pn = 0 /\ e.cf = 0 THEN more ELSE {})
                  \cup (IF e.den = 0 /\ e.pn = 0 /\ e.cf = 0 /\ e.ok = ERR THEN {"C01", "C03", "C04"} ELSE {})
                  \cup (IF e.den = 0 /\ e.pn = 0 /\ e.ok = PANIC THEN {"C01", "C03"} ELSE {})
                  \cup (IF e.ok = OK THEN {"C01", "C03"} ELSE {})
                  \cup (IF e.cf = 1 THEN {"C02", "C01"} ELSE {})

(* ---- capacity ---- *)
\* additions of a single element, by whatever call
OneMore(e, need) == e.e \in {"push", "pushgb", "insert"} \/ (e.e \in {"append", "resize", "resizenc", "resizewith", "extend", "extendnc"} /\ need = 1)
CapOk(e, c, pre, pre2) ==
    LET need == Need(c, pre, pre2)
        old == room[e.s + 1]
        fits == ~Unrep(c) /\ Len(pre) + need <= old
        inPlace == e.e \in Growers \cup Quiet
    IN /\ Chk({"C04"}, "fits without the allocator", (inPlace /\ fits /\ e.ok # PANIC) => e.att = 0, <<Len(pre), need, old>>)
       /\ Chk({"C04"}, "quiet", (e.e \in Quiet /\ e.ok # PANIC) => e.att = 0, e.att)
       /\ IF dom.wr THEN TRUE ELSE
          /\ Chk({"C04"}, "capacity kept", (inPlace /\ (fits \/ e.e \in Quiet)) => e.cap = old, <<old, e.cap>>)
          /\ Chk({"C04"}, "capacity not lowered", inPlace => e.cap >= old, <<old, e.cap>>)
          /\ Chk({"C04"}, "capacity promised", (inPlace /\ e.ok = OK /\ ~Unrep(c)) => e.cap >= Len(pre) + need, <<Len(pre), need, e.cap>>)
          /\ Chk({"C04"}, "capacity asked", (e.e = "withcap" /\ e.ok = OK /\ ~Unrep(c)) => e.cap >= c.n, <<c.n, e.cap>>)
          /\ Chk({"C04"}, "capacity covers length", e.cap >= Len(e.st), <<Len(e.st), e.cap>>)
          /\ Chk({"C04"}, "geometric growth", (OneMore(e, need) /\ e.ok = OK /\ ~fits /\ Len(pre) >= 4) => 2 * e.cap >= 3 * Len(pre), <<Len(pre), e.cap>>)
       /\ Chk({"C04"}, "few requests for single additions",
              (OneMore(e, need) /\ e.ok = OK /\ e.att > 0) => grow[e.s + 1] + e.att <= 4 + 2 * Log2(Len(pre) + 1), <<grow[e.s + 1] + e.att, Len(pre)>>)
       /\ Chk({"C04"}, "few requests for collecting", (e.e = "collect" /\ e.ok = OK) => e.att <= 4 + 2 * Log2(Len(c.vals) + 1), <<e.att, Len(c.vals)>>)
       /\ Chk({"C04"}, "one request for bulk growth", (e.e \in {"reserve", "withcap", "append", "resize", "resizenc", "resizewith", "extend", "extendnc"} /\ e.ok = OK)
                => e.att <= 4 + 2 * Log2(need + 1), <<e.att, need>>)

RoomAfter(e, c, pre) ==
    LET n == Len(e.st)
        old == room[e.s + 1]
        base == IF e.e \in Makers \cup {"drop"} \/ (e.e = "it" /\ e.kd = "o") THEN (IF e.ok = OK \/ e.e \in {"drop", "it"} THEN 0 ELSE old) ELSE old
        prom == IF e.ok # OK \/ Unrep(c) THEN 0 ELSE IF e.e = "reserve" THEN Len(pre) + c.n ELSE IF e.e = "withcap" THEN c.n ELSE 0
    IN IF ~dom.wr THEN e.cap ELSE Max2(n, Max2(base, prom))

(* ---- one call ---- *)
Step(e) ==
    LET c == CallOf(e, Len(st[e.s + 1]))
        s == e.s + 1
        two == e.e \in {"append", "tryclone"}
        t == IF two THEN e.t + 1 ELSE s
        pre == st[s]
        pre2 == IF two THEN st[t] ELSE <<>>
        made == {e.mk[j][1] : j \in 1..Len(e.mk)} \cup (IF Has(e, "x") THEN {e.x[1][2]} ELSE {}) \cup {e.mk[j][1] : j \in 1..Len(e.mk)}
        need == Need(c, pre, pre2)
        held == IF two THEN Len(e.st) + Len(e.st2) + (IF Cardinality({s, t}) = 2 THEN SumSeq([j \in Slots |-> IF j \in {s, t} THEN 0 ELSE Len(st[j])]) ELSE 0)
                ELSE Len(e.st) + SumSeq([j \in Slots |-> IF j = s THEN 0 ELSE Len(st[j])])
        nst == IF two THEN [st EXCEPT ![s] = e.st, ![t] = e.st2] ELSE [st EXCEPT ![s] = e.st]
    IN
    /\ Chk(OutcomeTags(e), "outcome", e.ok \in Allowed(c, pre, Zst), <<e.e, e.ok>>)
    /\ Chk(ContentTags(e), "contents", \E p \in (IF e.ok \in Allowed(c, pre, Zst) \/ e.ok # OK \/ ~Unrep(c) THEN Posts(c, e.ok, pre, pre2) ELSE {}) : Same(e.st, p, made),
           <<e.e, e.ok, pre, e.st>>)
    /\ two => Chk(ContentTags(e) \cup {"C03"}, "other contents", Same(e.st2, Post2(c, e.ok, pre, pre2), made), <<e.e, e.ok, pre2, e.st2>>)
    \* an element handed back is the one handed in
    /\ (e.e \in {"pushgb", "insert"} /\ e.ok = ERR) => Chk({"C02"}, "given back", Has(e, "back") /\ e.back = <<c.x>>, <<c.x>>)
    /\ (e.e = "pop" /\ e.ok = OK) => Chk({"C03"}, "popped", e.back = (IF pre = <<>> THEN <<>> ELSE <<pre[Len(pre)]>>), e.back)
    \* the generator: once per new element, in order (contents fix the order)
    /\ (e.e = "resizewith" /\ e.ok = OK) => Chk({"C03"}, "generator calls", e.gc = need, <<e.gc, need>>)
    /\ (e.e = "resizewith" /\ e.ok = ERR) => Chk({"C01", "C02"}, "generator not called", e.gc = 0, e.gc)
    /\ (e.e = "collect" /\ e.ok = OK) => Chk({"C21"}, "iterator calls", e.calls \in {Len(c.vals), Len(c.vals) + 1}, e.calls)
    /\ (e.e = "tryclone" /\ e.ok = OK /\ (Ident \/ Kd \in {"F", "C"})) => Chk({"C15"}, "each duplicated once", e.cl = Len(pre) /\ (Ident => Len(e.mk) = Len(pre)), <<e.cl, Len(pre)>>)
    /\ (e.e = "fromvec" /\ e.ok = OK /\ Len(c.xs) > 0) => Chk({"C21"}, "taken over", e.same = 1 /\ e.att = 0, e.att)
    \* sources that are only read stay as they were
    /\ (e.e \in {"extend", "extendnc", "fromslice"}) => Chk({"C03", "C02", "C21"}, "source", e.src = c.vals, e.src)
    /\ (e.e = "concat") => Chk({"C03", "C02"}, "sources", e.pafter = c.parts, e.pafter)
    \* iteration
    /\ (e.e = "it" /\ e.ok = OK) =>
         \E c2 \in {W!Counts(WalkOf(e))} : \E ys \in {W!WalkYields(pre, c2)}, left \in {W!WalkLeft(pre, c2)}, fs \in {W!Closed(pre, WalkOf(e))} :
            /\ Chk({"C03"}, "yields", e.ys = ys, <<pre, e.ys>>)
            /\ Chk({"C03"}, "the rest at once", e.rst = fs, <<pre, e.rst>>)
            /\ Chk({"C03"}, "size estimates", Len(e.hs) = 2 * Len(ys) /\ \A j \in 1..Len(ys) : e.hs[2*j-1] = left[j] /\ e.hs[2*j] = left[j], <<pre, e.hs>>)
    /\ (e.e = "eq" /\ e.ok = OK) =>
         LET nan == \E j \in 1..Len(pre) : Nan(pre[j][1])
             same == [j \in 1..Len(pre) |-> pre[j][1]] = c.vals /\ ~nan
         IN /\ Chk({"C20", "C03"}, "equality", \A j \in 1..Len(e.r) : e.r[j] = (IF same THEN 1 ELSE 0), <<pre, c.vals, e.r>>)
            /\ Chk({"C20", "C03"}, "equality with itself", e.se = (IF nan THEN 0 ELSE 1), <<pre, e.se>>)
    /\ (e.e = "dbg") =>
         /\ Chk({"C20"}, "debug text", Kd \notin {"W", "M", "O"} => e.ok = OK /\ TextsOk("[", [j \in 1..Len(pre) |-> ToString(pre[j][1])], "]", e), <<e.txt, e.tp, e.te>>)
         /\ Chk({"C03"}, "length", e.ln = Len(pre) /\ e.em = (IF pre = <<>> THEN 1 ELSE 0), e.ln)
    /\ Untouched(e.e \in {"dbg", "eq", "tryclone"} \/ (e.e = "it" /\ dom.wr /\ e.kd \in {"r", "b"}), e)
    /\ NeedsNone(e.e \in {"pop", "clear", "dbg", "eq", "it", "drop", "fromvec"} \/ (e.e \in {"resize", "resizenc", "resizewith"} /\ ~Unrep(c) /\ c.n <= Len(pre)), e)
    /\ Chk({"C05", "C03"}, "alignment", e.mis = 0, e.mis)
    /\ Chk({"C03"}, "views agree", e.vw = 1, e.vw)
    /\ CapOk(e, c, pre, pre2)
    \* ownership: alive elements are exactly the reachable ones
    /\ Chk(MemTags(e) \cup more \cup (IF e.e = "tryclone" THEN {"C15"} ELSE {}) \cup (IF e.e \in Makers THEN {"C21"} ELSE {}), "memory", MemOk(e), <<e.bad, e.ds, e.mem>>)
    /\ Chk(MemTags(e) \cup (more \ {"C19"}) \cup (IF e.e = "tryclone" THEN {"C15"} ELSE {}) \cup (IF e.e \in Makers THEN {"C21"} ELSE {}),
           "all alive elements are held, all held are alive",
           (Counted => IF e.pn > 0 THEN e.al - leak >= held ELSE e.al - leak = held)
           /\ (Ident => \A j \in Slots : \A i \in 1..Len(nst[j]) : nst[j][i][2] > 0), <<e.al, nst>>)
    /\ st' = nst
    /\ room' = [j \in Slots |-> IF j = s THEN RoomAfter(e, c, pre)
                               ELSE IF two /\ j = t THEN (IF ~dom.wr THEN e.cap2 ELSE IF e.ok = OK THEN Len(e.st2) ELSE room[j])
                               ELSE room[j]]
    /\ grow' = [j \in Slots |-> IF j = s /\ OneMore(e, need) THEN grow[j] + (IF e.ok = OK THEN e.att ELSE 0)
                               ELSE IF j \in {s, t} /\ e.e \notin Quiet THEN 0 ELSE grow[j]]
    /\ more' = more \cup (IF e.ok = ERR THEN {"C02"} ELSE {}) \cup (IF e.pn > 0 THEN {"C19"} ELSE {}) \cup (IF e.e = "tryclone" /\ e.ok = OK THEN {"C15"} ELSE {})
    /\ leak' = IF e.pn > 0 /\ Counted THEN e.al - held ELSE leak
    /\ dom' = dom

(* calls on vectors of elements without size near the largest length *)
Zx(e) ==
    LET b == IF e.how \in {"push", "pushgb", "insert"} THEN <<0, 1>> ELSE e.b
        over == ZOver(e.a, b)
        grown == IF e.how = "concat" /\ e.ok # OK THEN <<0, 0>> ELSE IF e.how = "reserve" \/ e.ok # OK THEN e.a ELSE ZSum(e.a, b)
    IN /\ Chk({"C01", "C03", "C04"}, "outcome", e.ok = (IF over THEN ERR ELSE OK), <<e.how, e.a, b, e.ok>>)
       /\ Chk({"C02", "C03"}, "length", e.after = grown, <<e.how, e.a, b, e.after>>)
       /\ Chk({"C02", "C03"}, "other length", e.other = (IF e.how = "append" /\ e.ok = OK THEN <<0, 0>> ELSE e.b), e.other)
       /\ Chk({"C04"}, "no request for elements without size", e.att = 0, e.att)
       /\ UNCHANGED <<st, room, grow, dom, more, leak>>

Case(e) ==
    /\ l > 1 => Chk({"C05"} \cup more, "everything returned",
                    IF leak > 0 THEN e.ok = 1 /\ e.bad = 0 /\ e.mem = 0 /\ e.al = leak ELSE GoneOk(e), <<e.al, e.bad, e.mem, e.blk, e.eblk>>)
    /\ dom' = [kd |-> e.kd, wr |-> e.fl = "w"]
    /\ st' = [s \in Slots |-> <<>>] /\ room' = [s \in Slots |-> IF e.kd = "Z" THEN 1073741824 ELSE 0] /\ grow' = [s \in Slots |-> 0]
    /\ more' = {} /\ leak' = 0

Init == l = 1 /\ dom = [kd |-> "", wr |-> FALSE] /\ st = [s \in Slots |-> <<>>] /\ room = [s \in Slots |-> 0]
        /\ grow = [s \in Slots |-> 0] /\ more = {} /\ leak = 0
Next == l <= NTrace /\ l' = l + 1 /\ (IF Trace[l].e = "case" THEN Case(Trace[l]) ELSE IF Trace[l].e = "zx" THEN Zx(Trace[l]) ELSE Step(Trace[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
