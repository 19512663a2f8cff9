----------------------------- MODULE TraceShare -----------------------------
(* Collections that several threads read at once, or that are handed from thread to thread: whoever asks, wherever the
   collection was changed last, is answered from the one content FMap gives it.  Also which types may cross threads. *)
EXTENDS TraceLib, FMap

VARIABLES st, dom
vars == <<l, st, dom>>
Slots == 1..3

FlatOf(es) == FoldLeft(LAMBDA a, x : a \o <<x[1], x[3]>>, <<>>, es)
RECURSIVE Turned(_)
Turned(s) == IF s = <<>> THEN <<>> ELSE Turned(Tail(s)) \o <<s[1]>>
Between(m, lo, hi) == InRange(m, <<"i", lo>>, <<"i", hi>>)
Want(q, m) ==
    CASE q.o = "g" -> IF Present(m, q.a) THEN <<m[q.a][2]>> ELSE <<>>
      [] q.o = "l" -> <<Size(m)>>
      [] q.o \in {"f", "c"} -> FlatOf(Entries(m))
      [] q.o = "b" -> FlatOf(Turned(Entries(m)))
      [] q.o = "r" -> FlatOf(Between(m, q.a, q.b))
      [] q.o = "q" -> FlatOf(Turned(Between(m, q.a, q.b)))
      [] q.o = "e" -> <<1>>
      [] OTHER -> IF dom.kd = "S" THEN [j \in 1..Size(m) |-> Entries(m)[j][1]] ELSE FlatOf(Entries(m))

Answer(m, k) == IF Present(m, k) THEN <<m[k][2]>> ELSE <<>>
(* ---- who may cross threads (c: caller's types that may be b(oth) s(ent) y: seen, n(either)) ---- *)
Sent(c) == c \in {"b", "s"}
Seen(c) == c \in {"b", "y"}
Borrows == {"veciter", "vecwalk", "setiter", "setrange", "setdif", "setsym", "setint", "setuni", "iter", "keys", "values", "range"}
Mark(e) == /\ Chk({"C25"}, "known", e.there = 1, e.x)
           \* what only borrows shows its content to both sides; everything else takes it along
           /\ Chk({"C25"}, "may be sent", e.snd = (IF (IF e.x \in Borrows THEN Seen(e.k) /\ Seen(e.v) ELSE Sent(e.k) /\ Sent(e.v)) THEN 1 ELSE 0), <<e.x, e.k, e.v, e.snd>>)
           /\ Chk({"C25"}, "may be shared", e.syn = (IF Seen(e.k) /\ Seen(e.v) THEN 1 ELSE 0), <<e.x, e.k, e.v, e.syn>>)

Step(e) ==
    LET s == e.s + 1
        t == IF Has(e, "t") THEN e.t + 1 ELSE s
        m == st[s]
        o == IF e.e = "sp" THEN Empty(dom.n) ELSE st[t]
        v == IF dom.kd = "S" THEN 0 ELSE Fld(e, "v", 0)
        p == IF e.ok # OK THEN m ELSE
             CASE e.e = "ins" -> Put(m, e.k, 0, v, 0)
               [] e.e = "rm" -> Del(m, e.k)
               [] e.e = "sp" -> Below(m, e.k)
               [] e.e = "ap" -> Merge(m, o)
               [] e.e = "drop" -> Empty(dom.n)
               [] OTHER -> m
        p2 == IF e.ok # OK THEN o ELSE
              CASE e.e = "dup" -> m [] e.e = "sp" -> AtOrAbove(m, e.k) [] e.e = "ap" -> Empty(dom.n) [] OTHER -> p
    IN /\ Chk({"C24"}, "outcome", e.ok \in {OK} \cup (IF e.den > 0 THEN {ERR} ELSE {}), <<e.e, e.ok>>)
       /\ Chk({"C24"}, "contents", e.st = FlatOf(Entries(p)) /\ e.ln = Size(p), <<e.e, Entries(p), e.st>>)
       /\ Has(e, "t") => Chk({"C24"}, "other contents", e.st2 = FlatOf(Entries(p2)), <<e.e, Entries(p2), e.st2>>)
       /\ (e.e \in {"ins", "rm", "get"} /\ e.ok = OK) => Chk({"C24"}, "answer", e.r = Answer(m, e.k), <<e.e, e.k, e.r>>)
       /\ (e.e = "par" /\ e.ok = OK) => \A i \in 1..Len(e.th) : \A j \in 1..Len(e.th[i]) :
            Chk({"C24"}, "answer on one of several threads", e.th[i][j].r = Want(e.th[i][j], st[e.th[i][j].s + 1]), <<i, e.th[i][j], Entries(st[e.th[i][j].s + 1])>>)
       /\ Untouched(e.e \in {"par", "get", "dup"}, e)
       /\ Chk({"C24"}, "memory", MemOk(e), e.mem)
       /\ st' = (IF Has(e, "t") THEN [st EXCEPT ![s] = p, ![t] = p2] ELSE [st EXCEPT ![s] = p])
       /\ dom' = dom

Case(e) ==
    /\ l > 1 => Chk({"C24"}, "everything returned", GoneOk(e), <<e.ok, e.mem, e.blk>>)
    /\ dom' = [kd |-> e.kd, n |-> e.nn]
    /\ st' = [j \in Slots |-> Empty(e.nn)]

Init == l = 1 /\ st = [j \in Slots |-> <<>>] /\ dom = [kd |-> "", n |-> 0]
Next == /\ l <= NTrace /\ l' = l + 1
        /\ CASE Trace[l].e = "case" -> Case(Trace[l])
             [] Trace[l].e = "mark" -> Mark(Trace[l]) /\ UNCHANGED <<st, dom>>
             [] OTHER -> Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================
