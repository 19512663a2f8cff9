------------------------------ MODULE TraceOrd ------------------------------
(* Accepts recorded executions of the ordered maps and sets that FMap allows. *)
EXTENDS TraceLib, FOrd

VARIABLES st,      \* slot -> map
          cnt,     \* slot -> number of entries
          filled,  \* slot -> something was inserted since it was created
           more,    \* properties concerned by everything from here on: C10 after a split or append, C11 after a failure, ...
          leak,    \* [al, blk, on |-> BOOLEAN]: what a panic in caller code left behind
          lblk     \* blocks held after the previous event
vars == <<l, st, cnt, filled, dom, more, leak, lblk>>
Slots == 1..3
Kt == dom.kd \notin {"K", "U"}                                 \* keys have an identity of their own
PerEntry == (IF Kt THEN 1 ELSE 0) + (IF dom.set \/ Vk \in {"W", "F", "I"} THEN 0 ELSE 1)      \* counted elements per entry
PerDup == 1 + (IF dom.set \/ Vk = "W" THEN 0 ELSE 1)          \* observed duplications per entry

Dups == {"tcl", "cl", "algo"}
Still(e, m) == \/ e.e \in {"get", "getm", "rm", "take", "srm", "sget", "it", "rg", "alg", "pred", "rel", "dbg", "clear", "drop", "scan"}
               \/ e.e \in {"ins", "ent", "sins", "rep"} /\ Present(m, e.k[1])

Reads(e) == \/ e.e \in {"get", "sget", "alg", "algo", "pred", "rel", "dbg", "scan", "tcl", "cl"}
            \/ (e.e = "it" /\ e.kd \in {"r", "b", "k", "v"}) \/ (e.e = "rg" /\ e.kd = "r")

(* ---- properties concerned ---- *)
Mine1(e) == CASE e.e \in {"sp", "ap"} -> {"C10"}
              [] e.e \in {"tcl", "cl"} -> {"C15"}
              [] e.e = "it" -> {"C08"} [] e.e = "rg" -> {"C09"}
              [] e.e \in Algebra -> {"C13"} [] e.e \in {"rel", "dbg"} -> {"C20"}
              [] OTHER -> {"C07"}
KeyTags(e) == IF e.e \in {"ins", "ent", "sins", "rep", "take", "sget", "ap", "scan", "ext", "extr", "fromit"} \/ (e.e = "get" /\ e.how = "e") THEN {"C14"} ELSE {}
Tags(e) == Mine1(e) \cup KeyTags(e) \cup more \cup {"C07"}
           \cup (IF e.ok = ERR THEN {"C11"} ELSE {}) \cup (IF e.pn > 0 THEN {"C19"} ELSE {})
OutTags(e) == Mine1(e) \cup FaultTags(e) \cup (IF e.ok = ERR \/ e.den > 0 THEN {"C01", "C11"} ELSE {})
              \cup (IF e.ok = PANIC THEN {"C07"} ELSE {}) \cup more

(* ---- cost ---- *)
RECURSIVE Pow6(_)
Pow6(h) == IF h = 0 THEN 1 ELSE 6 * Pow6(h - 1)
MaxHeight(n) == CHOOSE h \in 0..8 : 2 * Pow6(h) - 1 <= Max2(n, 1) /\ 2 * Pow6(h + 1) - 1 > Max2(n, 1)
\* every node on the way looked at, twice over (one level more than needed: what counts is that it is logarithmic)
CmpBound(n) == 24 * (MaxHeight(n) + 2)
\* every node but the top one holds at least four keys (MCBTree: Low)
BlkBound(n, was) == IF was \/ n > 0 THEN 1 + Max2(n - 1, 0) \div 4 ELSE 0

(* what is observed after caller code panicked in a whole-map call: entries from before, each once, in order *)
Sane(es, from) == /\ \A i \in 1..Len(es) : <<es[i][1], es[i][2], es[i][3], es[i][4]>> \in from
                  /\ \A i \in 1..(Len(es) - 1) : es[i][1] < es[i + 1][1]
(* an insertion sweep that was cut short: every key from before is still there, with its old value or one made by the call;
   other keys are made by the call *)
SwepOk(es, m, e) ==
    LET made == {e.mk[j][1] : j \in 1..Len(e.mk)}
        given(x) == \E j \in 1..Len(e.kvs) : e.kvs[j][1] = x[1] /\ (dom.set \/ Zv(e.kvs[j][2]) = x[3])
        fresh(x) == given(x) /\ (x[4] \in made \/ dom.set \/ Vk \in {"W", "F"})
    IN /\ \A k \in KeysOf(m) : \E i \in 1..Len(es) : es[i][1] = k
       /\ \A i \in 1..Len(es) : LET x == es[i] IN
              IF Present(m, x[1]) THEN x = Entry(m, x[1]) \/ (x[2] = m[x[1]][1] /\ fresh(x)) ELSE fresh(x) /\ (~Kt \/ x[2] \in made)
       /\ \A i \in 1..(Len(es) - 1) : es[i][1] < es[i + 1][1]

(* values that do not equal themselves, nor compare with any other *)
Nan(v) == Vk = "F" /\ v % 10 = 7
RECURSIVE LexP(_, _, _)
LexP(a, b, i) == IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1) ELSE IF i > Len(b) THEN 1
    ELSE IF a[i][1] < b[i][1] THEN -1 ELSE IF a[i][1] > b[i][1] THEN 1
    ELSE IF Nan(a[i][2]) \/ Nan(b[i][2]) THEN 9
    ELSE IF a[i][2] < b[i][2] THEN -1 ELSE IF a[i][2] > b[i][2] THEN 1 ELSE LexP(a, b, i + 1)

SameKV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ a[i][3] = b[i][3]
AllMade(es, e) == LET M == {e.mk[a][1] : a \in 1..Len(e.mk)} IN ~Kt \/ \A i \in 1..Len(es) : es[i][2] \in M

(* the numbers in the text of an iterator with es still to come *)
Text(es, kd) == FoldLeft(LAMBDA a, x : a \o (IF dom.set \/ kd = "k" THEN <<x[1]>> ELSE IF kd \in {"v", "w"} THEN <<x[3]>> ELSE <<x[1], x[3]>>), <<>>, es)
Walk(e, es0, m) ==
    \E es \in {es0}, c \in {Counts(e.stp)} : \E ys \in {WalkYields(es, c)}, left \in {WalkLeft(es, c)} :
    LET proj(x) == IF x = <<>> THEN <<>> ELSE IF e.kd = "k" THEN <<x[1], x[2]>> ELSE IF e.kd \in {"v", "w"} THEN <<x[3], x[4]>> ELSE x
        T == Mine1(e) \cup more
        h(j, q) == e.hs[3 * (j - 1) + q]
    IN /\ Chk(T, "yields", Len(e.ys) = Len(ys) /\ \A j \in 1..Len(ys) : e.ys[j] = proj(ys[j]), <<es, e.ys>>)
       /\ Chk(T, "size reported", Len(e.hs) = 3 * Len(ys) /\ \A j \in 1..Len(ys) :
                IF e.e = "it" THEN h(j, 1) = left[j] /\ h(j, 2) = left[j] /\ h(j, 3) = left[j]
                ELSE h(j, 1) <= left[j] /\ (h(j, 2) = -1 \/ h(j, 2) >= left[j]), <<left, e.hs>>)
       /\ Chk(T, "the rest at once", LET r == Closed(es, e.stp) IN Len(e.rst) = Len(r) /\ \A j \in 1..Len(r) : e.rst[j] = (IF Closing(e.stp) = "K" THEN r[j] ELSE proj(r[j])), <<es, e.rst>>)
       /\ Chk(T, "clones of the iterator", LET cy == CloneYields(es, e.stp)
                IN (e.kd \notin {"m", "bm", "w", "o"}) => (Len(e.cs) = Len(cy) /\ \A j \in 1..Len(cy) : e.cs[j] = proj(cy[j])), e.cs)
       /\ Chk(T, "clones used up otherwise", LET ce == CloneEnds(es, e.stp)
                IN (e.kd \notin {"m", "bm", "w", "o"}) => (Len(e.xs) = Len(ce) /\ \A j \in 1..Len(ce) : e.xs[j] = (IF j % 2 = 1 THEN ce[j] ELSE proj(ce[j]))), e.xs)
       /\ Chk(T \cup {"C20"}, "text of the iterator", LET d == LeftAt(es, e.stp, "D")
                IN Len(e.tds) = Len(d) /\ \A j \in 1..Len(d) : e.tds[j] = Text(SubSeq(es, d[j][1], d[j][2]), e.kd)
                                             \/ (e.kd = "w" /\ e.tds[j] = Text(SubSeq(es, d[j][1], d[j][2]), "b")), <<es, e.tds>>)

Step(e) ==
    LET s == e.s + 1
        two == e.e \in Two
        t == IF two THEN e.t + 1 ELSE s
        m == st[s]
        o == IF e.e = "sp" THEN Empty(N) ELSE st[t]
        allowed == Allowed(e, m)
        whole == e.e \in Several
        loose == e.ok = PANIC /\ whole
        \* expected maps
        p == After(e, m, o)
        p2 == After2(e, m, o)
        dup == e.e \in {"tcl", "cl"} /\ e.ok = OK
        ep == Entries(p)   em == Entries(m)   ep2 == Entries(p2)   np == Size(p)
        ns == IF Has(e, "st") THEN (IF e.st = ep THEN p ELSE MapOf(N, e.st)) ELSE p
        nt == IF two /\ Has(e, "st2") THEN (IF e.st2 = ep2 THEN p2 ELSE MapOf(N, e.st2)) ELSE p2
        nst0 == [st EXCEPT ![s] = ns]
        nst1 == IF two THEN [nst0 EXCEPT ![t] = nt] ELSE nst0
        nst == IF e.e = "algo" THEN [nst1 EXCEPT ![e.u + 1] = IF e.ok = OK THEN MapOf(N, e.st3) ELSE Empty(N)] ELSE nst1
        nc == [j \in Slots |-> IF nst[j] = st[j] THEN cnt[j] ELSE Size(nst[j])]
        held == PerEntry * SumSeq(nc)
        nfilled == [j \in Slots |-> IF e.e = "sp" /\ j = t /\ t # s THEN nc[j] > 0 \/ e.ok = OK
                     ELSE IF (e.e = "drop" \/ (e.e = "it" /\ e.kd = "o") \/ e.e = "fromit") /\ j = s THEN nc[j] > 0
                     ELSE IF e.e \in {"tcl", "cl"} /\ j = t /\ e.ok = OK THEN nc[j] > 0
                     ELSE filled[j] \/ nc[j] > 0 \/ (e.e \in {"ent", "ap"} /\ j \in {s, t}) \/ (e.e = "algo" /\ j = e.u + 1)]
        T == Tags(e)
        pn == e.pn > 0
    IN
    /\ Chk(OutTags(e), "outcome", e.ok \in allowed, <<e.e, e.ok>>)
    /\ (e.e = "rg" /\ e.ok = PANIC /\ e.pn = 0) => Chk({"C09"}, "walks once handed out", e.got = 0, e.got)
    \* contents
    /\ ~loose => (Has(e, "st") => Chk(T, "contents", e.st = ep, <<e.e, e.ok, ep, e.st>>))
    /\ Has(e, "bk") => Chk(T, "the same backwards", e.bk = 1, e.bk)
    /\ ~loose => Chk(T, "length", e.ln = np, <<e.ln, np>>)
    /\ (two /\ ~loose /\ Has(e, "st2")) =>
         IF dup THEN Chk(T, "duplicate", SameKV(e.st2, em) /\ AllMade(e.st2, e), <<em, e.st2>>)
         ELSE Chk(T, "other contents", e.st2 = ep2, <<e.e, e.ok, ep2, e.st2>>)
    /\ (two /\ ~loose /\ Has(e, "ln2")) => Chk(T, "other length", e.ln2 = (IF dup THEN e.ln ELSE Size(p2)), <<e.ln2>>)
    /\ dup => Chk({"C15"}, "each duplicated once", e.cl = PerDup * Size(m), <<e.cl, Size(m)>>)
    /\ loose => Chk(T, "contents after a panic",
            IF e.e \in {"ext", "extr"} THEN SwepOk(e.st, m, e) /\ e.ln = Len(e.st)
            ELSE LET from == Range1(Entries(m)) \cup (IF e.e = "ap" THEN Range1(Entries(o)) ELSE {})
                 IN /\ Sane(e.st, from) /\ e.ln = Len(e.st)
                    /\ (two => Sane(e.st2, from) /\ e.ln2 = Len(e.st2)
                               /\ (~Kt \/ {e.st[i][2] : i \in 1..Len(e.st)} \cap {e.st2[i][2] : i \in 1..Len(e.st2)} = {})), <<e.st>>)
    /\ (e.e = "scan") => Chk(T, "emptiness", e.em = (IF Size(m) = 0 THEN 1 ELSE 0), e.em)
    \* answers
    /\ (e.e \in Keyed \ {"ent"} /\ e.ok = OK) => Chk(T, "answer", e.r = Answer(e, m), <<e.e, e.k, e.r, Answer(e, m)>>)
    /\ (e.e = "ent" /\ e.ok # PANIC /\ e.occ # -1) =>
         /\ Chk(T, "occupied or vacant", e.occ = (IF Present(m, e.k[1]) THEN 1 ELSE 0), e.occ)
         /\ Chk(T \cup {"C14"}, "key shown", e.kk = (IF Present(m, e.k[1]) THEN <<e.k[1], m[e.k[1]][1]>> ELSE e.k), e.kk)
         /\ Chk(T, "value shown", e.cur = (IF Present(m, e.k[1]) THEN <<m[e.k[1]][2], m[e.k[1]][3]>> ELSE <<>>), e.cur)
         /\ Chk({"C20", "C07"}, "text of the entry", e.tx = (IF Present(m, e.k[1]) THEN <<e.k[1], m[e.k[1]][2]>> ELSE <<e.k[1]>>), e.tx)
         /\ e.ok = OK => Chk(T, "answer", e.back \in EntBack(e, m), <<e.how, e.k, e.back>>)
         /\ e.ok = OK => Chk(T, "closure calls", e.called = EntCalled(e, m), e.called)
    /\ (e.e = "it" /\ e.ok = OK) => Walk(e, Entries(m), m)
    /\ (e.e = "rg" /\ e.ok = OK) => Walk(e, InRange(m, <<e.lk, e.lo>>, <<e.hk, e.hi>>), m)
    \* set algebra
    /\ (e.e = "alg" /\ e.ok = OK) =>
         \E kl \in {Ascending(N, AlgKeys(e.kd, m, o))}, c \in {Counts(e.stp)} :
         \E ks \in {[j \in 1..Len(kl) |-> <<kl[j]>>]} : \E ys \in {WalkYields(ks, c)}, left \in {<<Len(ks)>> \o WalkLeft(ks, c)} :
         LET okid(k, kid) == (Present(m, k) /\ m[k][1] = kid) \/ (Present(o, k) /\ o[k][1] = kid)
             cy == CloneYields(ks, e.stp)
         IN /\ Chk({"C13"}, "members", Len(e.ys) = Len(ys) /\ \A j \in 1..Len(ys) : IF ys[j] = <<>> THEN e.ys[j] = <<>> ELSE e.ys[j] # <<>> /\ e.ys[j][1] = ys[j][1] /\ okid(e.ys[j][1], e.ys[j][2]),
                   <<e.kd, Entries(m), Entries(o), e.ys>>)
            /\ Chk({"C13"}, "size bounds", Len(e.hs) = 3 * (Len(c) + 1) /\ \A j \in 1..(Len(c) + 1) : e.hs[3*j-2] <= left[j] /\ (e.hs[3*j-1] = -1 \/ e.hs[3*j-1] >= left[j]), <<e.kd, left, e.hs>>)
            /\ Chk({"C13"}, "the rest at once", LET r == Closed(ks, e.stp) IN Len(e.rst) = Len(r) /\ \A j \in 1..Len(r) : e.rst[j][1] = r[j][1], e.rst)
            /\ Chk({"C13"}, "clones of the iterator", Len(e.cs) = Len(cy) /\ \A j \in 1..Len(cy) : e.cs[j][1] = cy[j][1], e.cs)
            /\ Chk({"C13"}, "clones used up otherwise", LET ce == CloneEnds(ks, e.stp) IN Len(e.xs) = Len(ce) /\ \A j \in 1..Len(ce) :
                    IF ce[j] = <<>> THEN e.xs[j] = <<>> ELSE e.xs[j] # <<>> /\ e.xs[j][1] = ce[j][1], e.xs)
    /\ (e.e = "algo" /\ e.ok = OK) =>
         Chk({"C13"}, "members", [j \in 1..Len(e.st3) |-> e.st3[j][1]] = Ascending(N, AlgKeys(e.kd, m, o)) /\ e.ln3 = Len(e.st3) /\ AllMade(e.st3, e), <<e.kd, Entries(m), Entries(o), e.st3>>)
    /\ (e.e = "pred" /\ e.ok = OK) =>
         Chk({"C13"}, "predicates", e.rr = <<IF KeysOf(m) \subseteq KeysOf(o) THEN 1 ELSE 0, IF KeysOf(o) \subseteq KeysOf(m) THEN 1 ELSE 0,
                                             IF KeysOf(m) \cap KeysOf(o) = {} THEN 1 ELSE 0>>, <<KeysOf(m), KeysOf(o), e.rr>>)
    \* comparison, hashing, text
    /\ (e.e = "rel" /\ e.ok = OK) =>
         LET a == Entries(m)  b == Entries(o)
             A == [j \in 1..Len(a) |-> <<a[j][1], a[j][3]>>]  B == [j \in 1..Len(b) |-> <<b[j][1], b[j][3]>>]
             c == Lex(A, B, 1)
             eq == A = B /\ ~\E j \in 1..Len(A) : Nan(A[j][2])
         IN /\ Chk({"C20"} \cup more, "equality", e.rr[1] = (IF eq THEN 1 ELSE 0) /\ e.rr[2] = 1 - e.rr[1], <<A, B, e.rr>>)
            /\ Chk({"C20"}, "ordering", Vk # "W" => e.rr[3] = LexP(A, B, 1) /\ e.rr[4] = c, <<A, B, e.rr>>)
            /\ Chk({"C20"}, "hash", (A = B) => e.rr[5] = 1, <<A, B, e.rr>>)
    /\ (e.e = "dbg" /\ Vk # "W") =>
         Chk({"C20"}, "debug text", LET a == Entries(m) IN TextsOk("{", [j \in 1..Len(a) |-> IF dom.set THEN ToString(a[j][1]) ELSE ToString(a[j][1]) \o ": " \o ToString(a[j][3])], "}", e), <<e.txt, e.tp, e.te>>)
    \* ownership and memory
    /\ NeedsNone(Still(e, m), e)
    /\ Untouched(Reads(e), e)
    /\ Chk({"C05", "C07"}, "alignment", e.mis = 0, e.mis)
    /\ Chk({"C05"} \cup more \cup (IF pn THEN {"C19"} ELSE {}) \cup (IF e.ok = ERR THEN {"C11"} ELSE {}), "memory", MemOk(e), <<e.bad, e.ds, e.mem>>)
    /\ Chk({"C05"} \cup (more \ {"C19"}) \cup (IF e.ok = ERR THEN {"C11"} ELSE {}) \cup Mine1(e), "all alive elements are held, all held are alive",
           IF pn THEN e.al - leak.al >= held ELSE e.al - leak.al = held, <<e.al, held, leak>>)
    /\ (e.ok = ERR /\ (e.e \in {"ins", "sins", "rep", "tcl"} \/ (e.e = "sp" /\ ~filled[t]))) => Chk({"C11", "C05"}, "no memory kept by the failed call", e.blk = lblk, <<lblk, e.blk>>)
    \* cost
    /\ (e.e \in Keyed /\ e.ok # PANIC) => Chk({"C12"}, "comparisons", e.cmp <= CmpBound(cnt[s]), <<e.cmp, cnt[s]>>)
    /\ ~leak.on /\ ~pn => Chk({"C12"}, "blocks", e.blk <= SumSeq([j \in Slots |-> BlkBound(nc[j], nfilled[j])]), <<e.blk, nc, nfilled>>)
    \* what one collection held shows when it goes
    /\ ((e.e \in {"drop", "clear"} \/ (e.e = "it" /\ e.kd = "o")) /\ ~leak.on /\ ~pn)
         => Chk({"C12"} \cup (more \cap {"C10"}), "blocks given back", lblk - e.blk <= BlkBound(cnt[s], filled[s]), <<lblk, e.blk, cnt[s]>>)
    /\ st' = nst /\ cnt' = nc /\ filled' = nfilled
    /\ more' = more \cup (IF e.e \in {"sp", "ap"} THEN {"C10"} ELSE {}) \cup (IF e.ok = ERR THEN {"C11"} ELSE {}) \cup (IF pn THEN {"C19"} ELSE {})
                    \cup (IF dup THEN {"C15"} ELSE {})
    /\ leak' = IF pn THEN [al |-> e.al - held, on |-> TRUE] ELSE leak
    /\ lblk' = e.blk
    /\ dom' = dom

Case(e) ==
    /\ l > 1 => Chk({"C05"} \cup more, "everything returned",
                    IF leak.on THEN e.ok = 1 /\ e.bad = 0 /\ e.mem = 0 /\ e.al = leak.al ELSE GoneOk(e), <<e.ok, e.al, e.bad, e.mem, e.blk, e.eblk>>)
    /\ dom' = [kd |-> e.kd, vk |-> e.fl, set |-> e.d = "set", n |-> e.nn]
    /\ st' = [j \in Slots |-> Empty(e.nn)] /\ cnt' = [j \in Slots |-> 0] /\ filled' = [j \in Slots |-> FALSE]
    /\ more' = {} /\ leak' = [al |-> 0, on |-> FALSE] /\ lblk' = 0

Init == /\ l = 1 /\ dom = [kd |-> "", vk |-> "", set |-> FALSE, n |-> 0] /\ st = [j \in Slots |-> <<>>] /\ cnt = [j \in Slots |-> 0]
        /\ filled = [j \in Slots |-> FALSE] /\ more = {} /\ leak = [al |-> 0, on |-> FALSE] /\ lblk = 0
Next == l <= NTrace /\ l' = l + 1 /\ (IF Trace[l].e = "case" THEN Case(Trace[l]) ELSE Step(Trace[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
