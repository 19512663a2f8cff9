-------------------------------- MODULE MCOrd --------------------------------
(* Every history of two small ordered maps, or sets, with every refusal and every failing or panicking piece of foreign
   code: the calls are those of FOrd, by which recorded executions are judged.  Checked against a much simpler record of
   what was inserted last under each key, and for ownership.  Every transition is printed as a script. *)
EXTENDS FOrd, TLC
CONSTANTS NK,      \* keys 1..NK
          Vals, Emit
VARIABLES st,      \* slot -> map
          ghost,   \* slot -> key -> <<value last put there, key identity put there first>>; <<0, 0>>: nothing
          next,    \* next identity
          hist, last
vars == <<dom, st, ghost, next, hist, last>>
Slots == {0, 1}
View == <<dom.set, [s \in Slots |-> [k \in 1..NK |-> IF st[s][k] = <<>> THEN -1 ELSE st[s][k][2]]]>>
S(x) == ToString(x)
V1 == CHOOSE v \in Vals : \A w \in Vals : v <= w
RECURSIVE Kl(_), Kvl(_)
Kl(ks) == IF ks = <<>> THEN "" ELSE IF Len(ks) = 1 THEN S(ks[1]) ELSE S(ks[1]) \o "," \o Kl(Tail(ks))
Kvl(ks) == IF ks = <<>> THEN "" ELSE IF Len(ks) = 1 THEN S(ks[1]) \o ":1" ELSE S(ks[1]) \o ":1," \o Kvl(Tail(ks))
Lists == UNION {[1..i -> 1..NK] : i \in 0..2}
Base == [e |-> "", s |-> 0, t |-> 1, u |-> 0, k |-> <<1, 0>>, x |-> <<0, 0>>, v |-> 0, how |-> "", kd |-> "", lk |-> "u", lo |-> 0, hk |-> "u", hi |-> 0,
         kvs |-> <<>>, mk |-> <<>>, back |-> <<0, 0>>, stp |-> <<"F">>, den |-> 0, cf |-> 0, pn |-> 0, ok |-> OK, txt |-> ""]
On(op, s) == [Base EXCEPT !.e = op, !.s = s, !.t = 1 - s, !.txt = op \o " " \o S(s)]
OnKey(op, s, k) == [On(op, s) EXCEPT !.k = <<k, next>>, !.x = <<V1, next + 1>>, !.back = <<0, next + 2>>, !.txt = op \o " " \o S(s) \o " " \o S(k)]
Made(ks) == [i \in 1..(2 * Len(ks)) |-> <<next + i>>]
MapCalls(s) ==
    {[OnKey("ins", s, k) EXCEPT !.x = <<v, next + 1>>, !.txt = @ \o " " \o S(v)] : k \in 1..NK, v \in Vals}
    \cup {[OnKey("get", s, k) EXCEPT !.how = h, !.txt = @ \o " " \o h] : k \in 1..NK, h \in {"k", "p", "h", "e", "i"}}
    \cup {[OnKey("getm", s, k) EXCEPT !.v = V1, !.txt = @ \o " " \o S(V1)] : k \in 1..NK}
    \cup {OnKey("rm", s, k) : k \in 1..NK}
    \cup {[OnKey("ent", s, k) EXCEPT !.how = h, !.v = V1, !.txt = @ \o " " \o h \o " " \o S(V1)] : k \in 1..NK,
            h \in {"or", "orw", "ord", "am", "set", "rm", "rme", "gm", "im", "no"}}
    \cup {[On("ext", s) EXCEPT !.kvs = [i \in 1..Len(ks) |-> <<ks[i], 1>>], !.mk = Made(ks), !.txt = @ \o " " \o (IF ks = <<>> THEN "-" ELSE Kvl(ks))] : ks \in Lists}
    \cup {[On("fromit", s) EXCEPT !.kvs = [i \in 1..Len(ks) |-> <<ks[i], 1>>], !.mk = Made(ks), !.txt = @ \o " " \o (IF ks = <<>> THEN "-" ELSE Kvl(ks))] : ks \in Lists}
    \cup {[On("tcl", s) EXCEPT !.txt = @ \o " " \o S(1 - s)]}
SetCalls(s) ==
    {OnKey(o, s, k) : o \in {"sins", "rep", "srm", "take"}, k \in 1..NK}
    \cup {[OnKey("sget", s, k) EXCEPT !.how = h, !.txt = @ \o " " \o h] : k \in 1..NK, h \in {"k", "p", "h"}}
    \cup {[On(o, s) EXCEPT !.kvs = [i \in 1..Len(ks) |-> <<ks[i], 0>>], !.mk = Made(ks), !.txt = @ \o " " \o (IF ks = <<>> THEN "-" ELSE Kl(ks))] : o \in {"ext", "fromit"}, ks \in Lists}
    \cup {[On("pred", s) EXCEPT !.txt = @ \o " " \o S(1 - s)]}
    \cup {[On("algo", s) EXCEPT !.kd = kd, !.u = 2, !.txt = @ \o " " \o S(1 - s) \o " " \o kd \o " 2"] : kd \in {"dif", "sym", "int", "uni"}}
Both(s) ==
    {[OnKey("sp", s, k) EXCEPT !.txt = @ \o " " \o S(1 - s)] : k \in 1..NK}
    \cup {[On(o, s) EXCEPT !.txt = @ \o " " \o S(1 - s)] : o \in {"ap", "cl", "rel"}}
    \cup {On(o, s) : o \in {"clear", "drop"}}
    \cup {[On("it", s) EXCEPT !.kd = "o", !.txt = @ \o " o " \o w] : w \in {"F", "BF", "FFFFB"}}
Calls(s) == Both(s) \cup (IF dom.set THEN SetCalls(s) ELSE MapCalls(s))
Faults(x) == {"none"} \cup (IF x.e \in Fallible THEN {"!sa"} ELSE {})
             \cup (IF x.e = "tcl" THEN {"!sc"} ELSE {}) \cup (IF x.e \in {"tcl", "cl", "algo"} THEN {"!sp c"} ELSE {})
             \cup (IF x.e \in Keyed /\ ~BadArgs(x, st[x.s]) THEN {"!sp m"} ELSE {}) \cup (IF x.e = "ent" /\ x.how \in {"orw", "am"} THEN {"!sp g"} ELSE {})
\* the fault may be met or not
Hit(x, f) == {x} \cup (CASE f = "!sa" -> {[x EXCEPT !.den = 1]} [] f = "!sc" -> {[x EXCEPT !.cf = 1]} [] f = "none" -> {} [] OTHER -> {[x EXCEPT !.pn = 1]})
Copy(m) == [k \in 1..NK |-> IF m[k] = <<>> THEN <<>> ELSE <<next + 10 + 2 * k, m[k][2], next + 11 + 2 * k>>]
Nothing == <<0, 0>>
Bare == [k \in 1..NK |-> Nothing]
(* the simple record *)
Gput(g, k, v, id) == [g EXCEPT ![k] = IF @ = Nothing THEN <<v, id>> ELSE <<v, @[2]>>]
RECURSIVE Gall(_, _, _, _)
Gall(g, kvs, mk, i) == IF i > Len(kvs) THEN g ELSE Gall(Gput(g, kvs[i][1], kvs[i][2], mk[2 * i - 1][1]), kvs, mk, i + 1)
Record(x, g, h) ==
    LET k == x.k[1]  new == x.k[2]  occ == g[k] # Nothing
    IN CASE x.e = "ins" -> Gput(g, k, x.x[1], new)
         [] x.e = "sins" -> Gput(g, k, 0, new)
         [] x.e = "rep" -> [g EXCEPT ![k] = <<0, new>>]
         [] x.e = "getm" -> IF occ THEN Gput(g, k, x.v, new) ELSE g
         [] x.e = "ent" -> (CASE x.how = "or" -> IF occ THEN g ELSE Gput(g, k, x.x[1], new)
                              [] x.how = "am" -> Gput(g, k, IF occ THEN x.v + 1 ELSE x.x[1], new)
                              [] x.how = "orw" -> IF occ THEN g ELSE Gput(g, k, x.v, new)
                              [] x.how \in {"ord", "set"} -> Gput(g, k, IF x.how = "set" THEN x.x[1] ELSE x.v, new)
                              [] x.how \in {"gm", "im"} -> IF occ THEN Gput(g, k, x.v, new) ELSE g
                              [] x.how \in {"rm", "rme"} -> [g EXCEPT ![k] = Nothing] [] OTHER -> g)
         [] x.e \in {"rm", "srm", "take"} -> [g EXCEPT ![k] = Nothing]
         [] x.e \in {"clear", "drop", "it"} -> Bare
         [] x.e = "ext" -> Gall(g, x.kvs, x.mk, 1)
         [] x.e = "fromit" -> Gall(Bare, x.kvs, x.mk, 1)
         [] x.e = "sp" -> [j \in 1..NK |-> IF j >= k THEN Nothing ELSE g[j]]
         [] x.e = "ap" -> [j \in 1..NK |-> IF h[j] # Nothing THEN h[j] ELSE g[j]]
         [] OTHER -> g
Record2(x, g, h) == CASE x.e = "sp" -> [j \in 1..NK |-> IF j >= x.k[1] THEN g[j] ELSE Nothing] [] x.e = "ap" -> Bare
                      [] x.e \in {"tcl", "cl"} -> [j \in 1..NK |-> IF g[j] = Nothing THEN Nothing ELSE <<g[j][1], next + 10 + 2 * j>>] [] OTHER -> h
Do(x0, f) ==
    \E x1 \in Hit(x0, f) : \E o \in Allowed(x1, st[x1.s]) : \E x \in {[x1 EXCEPT !.ok = o]} :
        LET m == st[x.s]  n == st[x.t]  o2 == IF x.e = "sp" THEN Empty(NK) ELSE n
            dup == x.e \in {"tcl", "cl"} /\ o = OK
        IN /\ (o # OK => x.e \notin Several \/ o = ERR)
           /\ st' = [st EXCEPT ![x.s] = After(x, m, o2), ![x.t] = IF dup THEN Copy(m) ELSE IF x.e = "sp" \/ x.e = "ap" THEN After2(x, m, o2) ELSE @]
           /\ ghost' = IF x.e = "sp" /\ o = ERR THEN [ghost EXCEPT ![x.t] = Bare]     \* what was there went before the call
                       ELSE IF x.e \in {"drop", "clear"} THEN [ghost EXCEPT ![x.s] = Bare]
                       ELSE IF o # OK THEN ghost
                       ELSE [ghost EXCEPT ![x.s] = Record(x, ghost[x.s], ghost[x.t]), ![x.t] = Record2(x, ghost[x.s], ghost[x.t])]
           /\ next' = next + 20 + 2 * NK /\ last' = x
           /\ hist' = hist \o "|" \o (IF f = "none" THEN "" ELSE f \o "|") \o x.txt
           /\ dom' = dom
Next == \E s \in Slots : \E x \in Calls(s) : \E f \in Faults(x) : Do(x, f)
Init == /\ \E b \in BOOLEAN : dom = [kd |-> "T", vk |-> IF b THEN "Z" ELSE "T", set |-> b, n |-> NK] /\ hist = (IF b THEN "S" ELSE "M")
        /\ st = [s \in Slots |-> Empty(NK)] /\ ghost = [s \in Slots |-> Bare] /\ next = 1 /\ last = Base
Spec == Init /\ [][Next]_vars
Note == Emit => PrintT("CASE" \o hist')

(* every key holds what was put there last, under the key that was put there first (C07, C10, C14) *)
Faithful == \A s \in Slots : \A k \in 1..NK : IF ghost[s][k] = Nothing THEN ~Present(st[s], k)
                                             ELSE Present(st[s], k) /\ st[s][k][2] = ghost[s][k][1] /\ st[s][k][1] = ghost[s][k][2]
Ids(m) == {m[k][1] : k \in KeysOf(m)} \cup (IF dom.set THEN {} ELSE {m[k][3] : k \in KeysOf(m)})
OneOwner == Ids(st[0]) \cap Ids(st[1]) = {} /\ \A s \in Slots : Cardinality(Ids(st[s])) = (IF dom.set THEN 1 ELSE 2) * Size(st[s])
(* a failed call changes nothing but what a result was to replace (C11, C19) *)
Unchanged == [][last'.ok # OK => (last'.e \in {"clear", "drop", "it"} \/ st'[last'.s] = st[last'.s]) /\ (last'.e = "sp" \/ st'[last'.t] = st[last'.t])]_vars
(* a call for one key concerns no other, and not the other map *)
Local == [][last'.e \in Keyed => st'[last'.t] = st[last'.t] /\ \A k \in 1..NK : k # last'.k[1] => st'[last'.s][k] = st[last'.s][k]]_vars
(* answers: what is said to be there is what the simple record knows *)
Told == [][(last'.ok = OK /\ last'.e \in {"get", "rm", "ins", "getm", "sget", "take"}) =>
            LET r == Answer(last', st[last'.s])  g == ghost[last'.s][last'.k[1]]
            IN IF g = Nothing THEN r = <<>> ELSE Len(r) = 1 /\ (r[1] = <<>> \/ (Len(r[1]) = 2 /\ r[1][1] = g[1]) \/ (Len(r[1]) = 4 /\ r[1][1] = last'.k[1] /\ r[1][2] = g[2]))]_vars
(* splitting and appending move entries, identities and all (C10) *)
Moved == [][(last'.ok = OK /\ last'.e = "sp") => Ids(st'[0]) \cup Ids(st'[1]) = Ids(st[last'.s])]_vars
Joined == [][(last'.ok = OK /\ last'.e = "ap") => /\ KeysOf(st'[last'.s]) = KeysOf(st[0]) \cup KeysOf(st[1]) /\ KeysOf(st'[last'.t]) = {}
                                                  /\ Ids(st'[last'.s]) \subseteq Ids(st[0]) \cup Ids(st[1]) /\ Ids(st[last'.t]) \subseteq Ids(st'[last'.s])]_vars
=============================================================================
