------------------------------ MODULE TraceLie ------------------------------
(* Ordered maps and sets whose keys compare in a way that contradicts itself.
   What such a collection holds is a sequence of entries <<key, key identity, value, value identity>>, in the order an
   iterator lists them.  Where a call looks is up to the comparisons; what it may do at that place is not: the
   specification leaves the place open and fixes everything else. *)
EXTENDS TraceLib, FMap

VARIABLES st,      \* slot -> sequence of entries
          dom,     \* [kd |-> key kind, vk |-> value kind, set |-> BOOLEAN]
          lblk     \* blocks held after the previous event
vars == <<l, st, dom, lblk>>
Slots == 1..3
Zv(v) == Val(dom.vk, v)
PerEntry == 1 + (IF dom.set \/ dom.vk \in {"W", "F", "I"} THEN 0 ELSE 1)

Algebra == {"alg", "algo", "pred"}
Two == {"tcl", "cl", "sp", "ap", "rel"} \cup Algebra
Fallible == {"ins", "ent", "tcl", "sp", "sins", "rep"}
Reading == {"get", "sget", "rel", "dbg", "scan"} \cup Algebra

At(p, i, x) == SubSeq(p, 1, i - 1) \o <<x>> \o SubSeq(p, i, Len(p))            \* x comes to stand at place i
Without(p, i) == SubSeq(p, 1, i - 1) \o SubSeq(p, i + 1, Len(p))
(* the first place where q differs from p; the only candidate for a change of one entry *)
Place(p, q) == LET D == {i \in 1..Min2(Len(p), Len(q)) : p[i] # q[i]} IN IF D = {} THEN Min2(Len(p), Len(q)) + 1 ELSE Min(D)

Added(p, q, x) == Len(q) = Len(p) + 1 /\ \E i \in {Place(p, q)} : q = At(p, i, x)
Gone(p, q, i) == i \in 1..Len(p) /\ q = Without(p, i)
WithVal(x, v) == <<x[1], x[2], v[1], v[2]>>
Ids(es) == {es[i][2] : i \in 1..Len(es)}
Distinct(es) == Cardinality(Ids(es)) = Len(es)
Made(e) == {e.mk[j][1] : j \in 1..Len(e.mk)}
Both(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ a[i][3] = b[i][3]

(* an insertion, of <<key, identity>> k and value x: either the value of one entry is exchanged or one entry is added *)
Inserted(p, q, k, x, r) ==
    \/ r = <<>> /\ Added(p, q, <<k[1], k[2], x[1], x[2]>>)
    \/ r # <<>> /\ \E i \in 1..Len(p) : r = <<<<p[i][3], p[i][4]>>>> /\ q = [p EXCEPT ![i] = WithVal(@, x)]
(* entry calls *)
EntOk(p, q, e) ==
    LET x == <<e.k[1], e.k[2], e.x[1], e.x[2]>>
        mine == e.how \in {"or", "am", "set"}
        v == IF e.how = "orw" THEN e.v ELSE 0
    IN \/ /\ e.occ = 0 /\ e.kk = e.k /\ e.cur = <<>>
          /\ CASE mine -> e.back = e.x /\ Added(p, q, x)
               [] e.how \in {"orw", "ord"} -> /\ e.back[1] = (IF e.how = "orw" THEN Zv(e.v) ELSE 0) /\ (e.back[2] \in Made(e) \/ dom.vk \in {"Z", "W", "F"})
                                              /\ Added(p, q, <<e.k[1], e.k[2], Zv(e.v), e.back[2]>>)
               [] e.how \in {"rm", "rme"} -> e.back = e.k /\ q = p
               [] OTHER -> e.back = <<>> /\ q = p
       \/ /\ e.occ = 1
          /\ \E i \in 1..Len(p) : /\ e.kk = <<p[i][1], p[i][2]>> /\ e.cur = <<p[i][3], p[i][4]>>
               /\ CASE e.how \in {"or", "orw"} -> q = p /\ e.back = e.cur
                    [] e.how = "ord" -> q = [p EXCEPT ![i] = WithVal(@, <<Zv(e.v), @[4]>>)] /\ e.back = e.cur
                    [] e.how = "am" -> q = [p EXCEPT ![i] = WithVal(@, <<Zv(e.v + 1), @[4]>>)] /\ e.back = <<Zv(e.v + 1), p[i][4]>>
                    [] e.how = "set" -> q = [p EXCEPT ![i] = WithVal(@, e.x)] /\ e.back = e.cur
                    [] e.how = "rm" -> Gone(p, q, i) /\ e.back = e.cur
                    [] e.how = "rme" -> Gone(p, q, i) /\ e.back = p[i]
                    [] e.how \in {"gm", "im"} -> q = [p EXCEPT ![i] = WithVal(@, <<Zv(e.v), @[4]>>)] /\ e.back = <<Zv(e.v), p[i][4]>>
                    [] OTHER -> q = p /\ e.back = <<>>
(* a sweep of insertions: nothing is lost or reordered, what is new was given *)
SweepOk(p, q, e) ==
    LET new == SelectSeq(q, LAMBDA x : x[2] \notin Ids(p))
        old == SelectSeq(q, LAMBDA x : x[2] \in Ids(p))
        M == Made(e)
    IN /\ Len(old) = Len(p) /\ \A i \in 1..Len(p) : old[i][1] = p[i][1] /\ old[i][2] = p[i][2] /\ (old[i] = p[i] \/ old[i][4] \in M \/ dom.vk \in {"Z", "W", "F"})
       /\ Distinct(new)
       /\ \A i \in 1..Len(new) : \E j \in 1..Len(e.kvs) : new[i][1] = e.kvs[j][1] /\ new[i][2] = e.mk[2*j-1][1]
(* appending: all of the other, in its order; of its own nothing new and nothing reordered *)
MergeOk(p, o, q) ==
    LET left == SelectSeq(q, LAMBDA x : x[2] \in Ids(p))
        right == SelectSeq(q, LAMBDA x : x[2] \in Ids(o))
        kept == SelectSeq(p, LAMBDA x : x[2] \in Ids(left))
    IN Len(left) + Len(right) = Len(q) /\ right = o /\ left = kept

Proj(e, x) == IF x = <<>> THEN <<>> ELSE IF e.kd = "k" THEN <<x[1], x[2]>> ELSE IF e.kd \in {"v", "w"} THEN <<x[3], x[4]>> ELSE x
Touched(c, es, first) == {first + (IF c[j][3] = "B" THEN Len(es) + 1 - c[j][2] ELSE c[j][1]) : j \in {i \in 1..Len(c) : c[i][1] + c[i][2] <= Len(es)}}
Bumped(p, T) == [i \in 1..Len(p) |-> IF i \in T THEN WithVal(p[i], <<Zv(p[i][3] + 100), p[i][4]>>) ELSE p[i]]
(* those shown at the end, all at once *)
ClosedAt(es, stp, first) == LET w == IF Closing(stp) = "" THEN <<1, 0>> ELSE LeftAt(es, stp, Closing(stp))[1]
                     IN CASE Closing(stp) \in {"A", "Z"} -> {first + i : i \in w[1]..w[2]}
                          [] Closing(stp) = "L" /\ w[1] <= w[2] -> {first + w[2]}
                          [] OTHER -> {}
Writes(e) == e.kd \in {"m", "bm", "w"}

IterOk(p, q, e) ==
    \E c \in {Counts(e.stp)} : \E ys \in {WalkYields(p, c)}, left \in {WalkLeft(p, c)} :
       /\ Chk({"C22"}, "yields", Len(e.ys) = Len(ys) /\ \A j \in 1..Len(ys) : e.ys[j] = Proj(e, ys[j]), <<p, e.ys>>)
       /\ Chk({"C22"}, "the rest at once", LET r == Closed(p, e.stp) IN Len(e.rst) = Len(r) /\ \A j \in 1..Len(r) : e.rst[j] = (IF Closing(e.stp) = "K" THEN r[j] ELSE Proj(e, r[j])), <<p, e.rst>>)
       /\ Chk({"C22"}, "size reported", \A j \in 1..Len(ys) : e.hs[3*j-2] = left[j] /\ e.hs[3*j-1] = left[j] /\ e.hs[3*j] = left[j], <<left, e.hs>>)
       /\ Chk({"C22"}, "contents", q = (IF e.kd = "o" THEN <<>> ELSE IF Writes(e) THEN Bumped(p, Touched(c, p, 0) \cup ClosedAt(p, e.stp, 0)) ELSE p), <<p, q>>)
(* a range shows one unbroken stretch *)
RangeOk(p, q, e) ==
    \E c \in {Counts(e.stp)} : \E a \in 1..(Len(p) + 1) : \E b \in (a - 1)..Len(p) : \E es \in {SubSeq(p, a, b)} :
       /\ Len(e.ys) = Len(c) /\ e.ys = WalkYields(es, c) /\ e.rst = Closed(es, e.stp)
       /\ q = (IF Writes(e) THEN Bumped(p, Touched(c, es, a - 1) \cup ClosedAt(es, e.stp, a - 1)) ELSE p)

(* members shown by set algebra: each held by one of the two, in its order, none twice *)
AlgOk(p, o, e) ==
    LET ys == SelectSeq(e.ys \o (IF Closing(e.stp) = "K" THEN <<>> ELSE e.rst), LAMBDA x : x # <<>>)
        pos(s, x) == LET F == {i \in 1..Len(s) : s[i] = x} IN IF F = {} THEN 0 ELSE Min(F)
        goes(s) == LET I == SelectSeq([j \in 1..Len(ys) |-> pos(s, ys[j])], LAMBDA i : i > 0) IN \A j \in 1..(Len(I) - 1) : I[j] < I[j + 1]
    IN /\ \A j \in 1..Len(ys) : pos(p, ys[j]) > 0 \/ (e.kd # "dif" /\ pos(o, ys[j]) > 0)
       /\ goes(p) /\ goes(o)

Step(e) ==
    LET s == e.s + 1
        two == e.e \in Two
        t == IF two THEN e.t + 1 ELSE s
        p == st[s]
        o == IF e.e = "sp" THEN <<>> ELSE st[t]
        q == e.st
        q2 == IF two /\ Has(e, "st2") THEN e.st2 ELSE o
        C == {"C22"}
        may == {OK} \cup (IF e.den > 0 /\ e.e \in Fallible THEN {ERR} ELSE {})
                    \cup (IF e.e = "rg" \/ (e.e = "get" /\ e.how = "i") THEN {PANIC} ELSE {})
        good == e.ok = OK
        nst0 == [st EXCEPT ![s] = q]
        nst1 == IF two THEN [nst0 EXCEPT ![t] = q2] ELSE nst0
        nst == IF e.e = "algo" THEN [nst1 EXCEPT ![e.u + 1] = e.st3] ELSE nst1
        hit(f(_)) == \E i \in 1..Len(p) : e.r = <<f(p[i])>>
    IN
    /\ Chk(C, "outcome", e.ok \in may, <<e.e, e.ok>>)
    /\ (e.e = "rg" /\ ~good) => Chk(C, "walks once handed out", e.got = 0, e.got)
    /\ Chk(C, "one owner each", \A j \in Slots : Distinct(nst[j]) /\ \A i \in Slots : i # j => Ids(nst[i]) \cap Ids(nst[j]) = {}, nst)
    /\ Chk(C, "length", e.ln = Len(q) /\ (Has(e, "ln2") => e.ln2 = Len(q2)), <<e.ln, q>>)
    /\ Chk(C, "the same backwards", e.bk = 1, e.bk)
    /\ ~good => Chk(C, "unchanged", q = p /\ q2 = o, <<p, q>>)
    /\ (good /\ e.e \in Reading) => Chk(C, "unchanged", q = p /\ q2 = o, <<p, q>>)
    /\ (good /\ e.e \in {"clear", "drop"}) => Chk(C, "emptied", q = <<>>, q)
    /\ (good /\ e.e = "ins") => Chk(C, "insertion", Inserted(p, q, e.k, e.x, e.r), <<p, e.k, e.x, e.r, q>>)
    /\ (good /\ e.e = "sins") => Chk(C, "insertion", IF e.r = <<>> THEN q = p /\ p # <<>> ELSE Added(p, q, <<e.k[1], e.k[2], 0, 0>>), <<p, e.k, e.r, q>>)
    /\ (good /\ e.e = "rep") => Chk(C, "insertion", IF e.r = <<>> THEN Added(p, q, <<e.k[1], e.k[2], 0, 0>>)
                                     ELSE \E i \in 1..Len(p) : e.r = <<p[i]>> /\ q = [p EXCEPT ![i] = <<e.k[1], e.k[2], 0, 0>>], <<p, e.k, e.r, q>>)
    /\ (good /\ e.e = "rm") => Chk(C, "removal", (e.r = <<>> /\ q = p) \/ \E i \in 1..Len(p) : e.r = <<<<p[i][3], p[i][4]>>>> /\ Gone(p, q, i), <<p, e.r, q>>)
    /\ (good /\ e.e = "take") => Chk(C, "removal", (e.r = <<>> /\ q = p) \/ \E i \in 1..Len(p) : e.r = <<p[i]>> /\ Gone(p, q, i), <<p, e.r, q>>)
    /\ (good /\ e.e = "srm") => Chk(C, "removal", IF e.r = <<>> THEN q = p ELSE \E i \in {Place(p, q)} : Gone(p, q, i), <<p, e.r, q>>)
    /\ (good /\ e.e = "getm") => Chk(C, "lookup", (e.r = <<>> /\ q = p) \/ \E i \in 1..Len(p) : e.r = <<<<p[i][3], p[i][4]>>>> /\ q = [p EXCEPT ![i] = WithVal(@, <<Zv(e.v), @[4]>>)], <<p, e.r, q>>)
    /\ (good /\ e.e \in {"get", "sget"}) => Chk(C, "lookup", e.r = <<>> \/ (IF e.how = "h" THEN e.r = <<<<>>>> /\ p # <<>>
                                               ELSE IF e.e = "sget" \/ e.how = "e" THEN hit(LAMBDA x : x) ELSE hit(LAMBDA x : <<x[3], x[4]>>)), <<p, e.r>>)
    /\ (good /\ e.e = "ent") => Chk(C, "entry", EntOk(p, q, e), <<p, e, q>>)
    /\ (good /\ e.e = "ext") => Chk(C, "insertions", SweepOk(p, q, e), <<p, e.kvs, q>>)
    /\ (good /\ e.e = "fromit") => Chk(C, "insertions", SweepOk(<<>>, q, e), <<e.kvs, q>>)
    /\ (good /\ e.e \in {"tcl", "cl"}) => Chk(C, "duplicate", q = p /\ Both(p, q2) /\ Ids(q2) \subseteq Made(e), <<p, q2>>)
    /\ (good /\ e.e = "sp") => Chk(C, "split", q \o q2 = p, <<p, q, q2>>)
    /\ (good /\ e.e = "ap") => Chk(C, "append", q2 = <<>> /\ MergeOk(p, o, q), <<p, o, q, q2>>)
    /\ (good /\ e.e = "it") => IterOk(p, q, e)
    /\ (good /\ e.e = "rg") => Chk(C, "one stretch", RangeOk(p, q, e), <<p, e.ys, q>>)
    /\ (good /\ e.e = "alg") => Chk(C, "members", AlgOk(p, o, e), <<p, o, e.ys>>)
    /\ (good /\ e.e = "algo") => Chk(C, "members", Ids(e.st3) \subseteq Made(e) /\ e.ln3 = Len(e.st3) /\ e.ln3 <= Len(p) + Len(o)
                                       /\ \A i \in 1..Len(e.st3) : \E x \in Range1(p) \cup Range1(o) : x[1] = e.st3[i][1], <<p, o, e.st3>>)
    /\ (good /\ e.e = "rel") => Chk(C, "equality", e.rr[1] = (IF Both(p, o) /\ ~(dom.vk = "F" /\ \E i \in 1..Len(p) : p[i][3] % 10 = 7) THEN 1 ELSE 0) /\ e.rr[2] = 1 - e.rr[1], <<p, o, e.rr>>)
    /\ (good /\ e.e = "scan") => Chk(C, "emptiness", e.em = (IF p = <<>> THEN 1 ELSE 0), e.em)
    \* ownership and memory
    /\ Chk(C, "memory", MemOk(e) /\ e.mis = 0, <<e.bad, e.ds, e.mem, e.mis>>)
    /\ Chk(C, "all alive elements are held, all held are alive", e.al = PerEntry * SumSeq([j \in Slots |-> Len(nst[j])]), <<e.al, nst>>)
    /\ (e.ok = ERR /\ e.e # "sp" /\ e.e # "ent") => Chk(C, "no memory kept by the failed call", e.blk = lblk, <<lblk, e.blk>>)
    /\ st' = nst /\ lblk' = e.blk /\ dom' = dom

Case(e) ==
    /\ l > 1 => Chk({"C22"}, "everything returned", GoneOk(e), <<e.ok, e.al, e.bad, e.mem, e.blk, e.eblk>>)
    /\ dom' = [kd |-> e.kd, vk |-> e.fl, set |-> e.d = "set"]
    /\ st' = [j \in Slots |-> <<>>] /\ lblk' = 0

Init == /\ l = 1 /\ dom = [kd |-> "", vk |-> "", set |-> FALSE] /\ st = [j \in Slots |-> <<>>] /\ lblk = 0
Next == l <= NTrace /\ l' = l + 1 /\ (IF Trace[l].e = "case" THEN Case(Trace[l]) ELSE Step(Trace[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
