------------------------------- MODULE MCVec --------------------------------
(* Exhaustive exploration of FVec for small vectors: every call, in every reachable state, with every
   fault.  Elements carry identities here, so that ownership can be checked: each identity made is
   reachable from at most one place, and a failure neither loses nor invents one.
   Each transition is also printed as a script that the executor runs against the real crate. *)
EXTENDS FVec, TLC

CONSTANTS MaxLen, Vals, Emit
VARIABLES st,     \* slot -> contents
          next,   \* next identity
          hist,   \* the calls that led here
          last    \* the last call and how it ended
vars == <<st, next, hist, last>>
Slots == {0, 1}
View == [s \in Slots |-> [i \in 1..Len(st[s]) |-> st[s][i][1]]]

Base == [op |-> "", ek |-> "T", n |-> 0, x |-> <<0, 0>>, i |-> 0, v |-> 0, b |-> 0, vals |-> <<>>, parts |-> <<>>,
         xs |-> <<>>, kd |-> "", steps |-> {}, den |-> 0, cf |-> 0, pn |-> 0, s |-> 0, t |-> 0, txt |-> ""]
S(n) == ToString(n)
RECURSIVE L2(_)
L2(vs) == IF vs = <<>> THEN "" ELSE IF Len(vs) = 1 THEN S(vs[1]) ELSE S(vs[1]) \o "," \o L2(Tail(vs))
L(vs) == IF vs = <<>> THEN "-" ELSE L2(vs)
Seqs(n) == UNION {[1..k -> Vals] : k \in 0..n}
V0 == CHOOSE v \in Vals : TRUE

Calls(s) ==
    {[Base EXCEPT !.op = o, !.x = <<v, next>>, !.txt = o \o " " \o S(s) \o " " \o S(v)] : o \in {"push", "pushgb"}, v \in Vals}
    \cup {[Base EXCEPT !.op = "insert", !.i = i, !.x = <<v, next>>, !.txt = "insert " \o S(s) \o " " \o S(i) \o " " \o S(v)] : i \in 0..(Len(st[s]) + 1), v \in Vals}
    \cup {[Base EXCEPT !.op = "append", !.t = 1 - s, !.txt = "append " \o S(s) \o " " \o S(1 - s)]}
    \cup {[Base EXCEPT !.op = "tryclone", !.t = 1 - s, !.txt = "tryclone " \o S(s) \o " " \o S(1 - s)]}
    \cup {[Base EXCEPT !.op = "resizenc", !.n = n, !.x = <<V0, next>>, !.txt = "resizenc " \o S(s) \o " " \o S(n) \o " " \o S(V0)] : n \in 0..MaxLen}
    \cup {[Base EXCEPT !.op = "resizewith", !.n = n, !.b = 5, !.txt = "resizewith " \o S(s) \o " " \o S(n) \o " 5"] : n \in 0..MaxLen}
    \cup {[Base EXCEPT !.op = "extendnc", !.vals = vs, !.txt = "extendnc " \o S(s) \o " " \o L(vs)] : vs \in Seqs(2)}
    \cup {[Base EXCEPT !.op = "reserve", !.n = n, !.txt = "reserve " \o S(s) \o " " \o S(n)] : n \in {0, 1, 5}}
    \cup {[Base EXCEPT !.op = "reserve", !.n = -1, !.txt = "reserve " \o S(s) \o " max"], [Base EXCEPT !.op = "withcap", !.n = -1, !.txt = "withcap " \o S(s) \o " imax1"],
          [Base EXCEPT !.op = "resizenc", !.n = -1, !.x = <<V0, next>>, !.txt = "resizenc " \o S(s) \o " tb " \o S(V0)],
          [Base EXCEPT !.op = "resizewith", !.n = -1, !.b = 5, !.txt = "resizewith " \o S(s) \o " max 5"]}
    \cup {[Base EXCEPT !.op = "withcap", !.n = n, !.txt = "withcap " \o S(s) \o " " \o S(n)] : n \in {0, 3}}
    \cup {[Base EXCEPT !.op = o, !.txt = o \o " " \o S(s)] : o \in {"clear", "pop", "drop"}}
    \cup {[Base EXCEPT !.op = "set", !.i = i, !.v = V0, !.txt = "set " \o S(s) \o " " \o S(i) \o " " \o S(V0)] : i \in 0..Len(st[s])}
    \cup {[Base EXCEPT !.op = "it", !.kd = "o", !.txt = "it " \o S(s) \o " o " \o p] : p \in {"FB", "BBFF"}}
    \cup {[Base EXCEPT !.op = "collect", !.vals = vs, !.txt = "collect " \o S(s) \o " " \o L(vs) \o " 0"] : vs \in Seqs(1)}

Dup(c) == c.op \in {"resizenc", "extendnc", "tryclone"}
Faults(c) == {"none"} \cup (IF c.n = -1 \/ BadIndex(c, st[c.s]) \/ c.op \in Quiet \cup {"it", "drop"} THEN {} ELSE {"!sa", "!ss"})
             \cup (IF Dup(c) /\ c.n # -1 THEN {"!sc", "!sp c"} ELSE {}) \cup (IF c.op = "resizewith" /\ c.n # -1 THEN {"!sp g"} ELSE {})
             \cup (IF c.op \in {"clear", "resizenc", "resizewith"} /\ c.n # -1 THEN {"!sp d"} ELSE {})
Hit(c, f) == CASE f \in {"!sa", "!ss"} -> [c EXCEPT !.den = 1] [] f = "!sc" -> [c EXCEPT !.cf = 1]
               [] f \in {"!sp c", "!sp g", "!sp d"} -> [c EXCEPT !.pn = 1] [] OTHER -> c

(* give every fresh element an identity of its own *)
Named(p, from) == [i \in 1..Len(p) |-> IF p[i][2] = Fresh THEN <<p[i][1], from + i>> ELSE p[i]]

Do(s, c0, f) ==
    LET c == Hit([c0 EXCEPT !.s = s], f)
        pre == st[s]   two == c.op \in {"append", "tryclone"}
        pre2 == IF two THEN st[1 - s] ELSE <<>>
    IN \E ok \in Allowed(c, pre, FALSE) : \E p \in Posts(c, ok, pre, pre2) :
        /\ Len(p) <= MaxLen
        /\ (c.op \in {"tryclone"} => Len(pre) + Len(pre2) <= 2 * MaxLen)
        /\ st' = [st EXCEPT ![s] = Named(p, next), ![1 - s] = IF two THEN Named(Post2(c, ok, pre, pre2), next + 10) ELSE @]
        /\ next' = next + 20
        /\ last' = [op |-> c.op, ok |-> ok, s |-> s, f |-> f]
        /\ hist' = Append(hist, IF f = "none" THEN c.txt ELSE f \o "|" \o c.txt)

RECURSIVE Flat(_)
Flat(h) == IF h = <<>> THEN "" ELSE "|" \o h[1] \o Flat(Tail(h))
Init == st = [s \in Slots |-> <<>>] /\ next = 1 /\ hist = <<>> /\ last = [op |-> "init", ok |-> OK, s |-> 0, f |-> "none"]
Next == \E s \in Slots : \E c \in Calls(s) : \E f \in Faults([c EXCEPT !.s = s]) : Do(s, c, f)
Spec == Init /\ [][Next]_vars

(* only histories of plain successes are extended; the faulty calls are leaves that come back *)
Note == Emit => PrintT("CASE" \o Flat(hist'))

TypeOK == \A s \in Slots : Len(st[s]) <= MaxLen /\ \A i \in 1..Len(st[s]) : st[s][i][2] > 0
All == [s \in Slots |-> {st[s][i][2] : i \in 1..Len(st[s])}]
OneOwner == All[0] \cap All[1] = {} /\ \A s \in Slots : Cardinality(All[s]) = Len(st[s])
(* a reported failure keeps the old contents as a prefix, the same elements, in both vectors *)
KeptOnFailure == [][last'.ok = ERR => \A s \in Slots : Len(st'[s]) >= Len(st[s]) /\ SubSeq(st'[s], 1, Len(st[s])) = st[s]]_vars
(* nothing comes from nowhere: identities after are old ones or ones of this call *)
NoneInvented == [][\A s \in Slots : \A i \in 1..Len(st'[s]) : st'[s][i][2] \in All[0] \cup All[1] \cup (next..(next + 20))]_vars
(* a panic leaves a prefix of what was there, or what was there followed by new elements *)
PrefixOnPanic == [][last'.ok = PANIC => \A s \in Slots :
                      LET n == IF Len(st'[s]) < Len(st[s]) THEN Len(st'[s]) ELSE Len(st[s]) IN SubSeq(st'[s], 1, n) = SubSeq(st[s], 1, n)]_vars
=============================================================================
