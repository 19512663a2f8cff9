-------------------------------- MODULE FOrd --------------------------------
(* The calls of the ordered maps and sets, one by one, on the abstract maps of FMap: which outcomes are allowed, the map
   afterwards, the answer.  A call is a record; what it brings along (keys, values, made elements) carries identities. *)
EXTENDS FMap
VARIABLE dom       \* [kd |-> key kind, vk |-> value kind, set |-> BOOLEAN, n |-> key range]
N == dom.n
Vk == dom.vk
Zv(v) == Val(Vk, v)
Algebra == {"alg", "algo", "pred"}
Two == {"tcl", "cl", "sp", "ap", "rel"} \cup Algebra
Keyed == {"ins", "get", "getm", "rm", "ent", "sins", "rep", "take", "srm", "sget"}
Fallible == {"ins", "ent", "tcl", "sp", "sins", "rep"}

(* ---- what each call must do: the map after it, and its answer ---- *)
Bounds(e) == <<<<e.lk, e.lo>>, <<e.hk, e.hi>>>>
BadArgs(e, m) == (e.e = "get" /\ e.how = "i" /\ ~Present(m, e.k[1])) \/ (e.e = "rg" /\ BadRange(<<e.lk, e.lo>>, <<e.hk, e.hi>>))

RECURSIVE PutAll(_, _, _, _)
PutAll(m, kvs, mk, i) == IF i > Len(kvs) THEN m
    ELSE PutAll(IF dom.set THEN AddSet(m, kvs[i][1], mk[2*i-1][1]) ELSE Put(m, kvs[i][1], mk[2*i-1][1], Zv(kvs[i][2]), mk[2*i][1]), kvs, mk, i + 1)

(* entry calls *)
EntPost(e, m) ==
    LET k == e.k[1]   occ == Present(m, k)
    IN CASE e.how = "or"  -> IF occ THEN m ELSE Put(m, k, e.k[2], e.x[1], e.x[2])
         [] e.how = "orw" -> IF occ THEN m ELSE Put(m, k, e.k[2], Zv(e.v), e.back[2])
         [] e.how = "ord" -> IF occ THEN SetVal(m, k, Zv(e.v)) ELSE Put(m, k, e.k[2], Zv(e.v), e.back[2])
         [] e.how = "am"  -> IF occ THEN SetVal(m, k, Zv(e.v + 1)) ELSE Put(m, k, e.k[2], e.x[1], e.x[2])
         [] e.how = "set" -> Put(m, k, e.k[2], e.x[1], e.x[2])
         [] e.how \in {"rm", "rme"} -> Del(m, k)
         [] e.how \in {"gm", "im"} -> SetVal(m, k, Zv(e.v))
         [] OTHER -> m
EntBack(e, m) ==      \* the answers allowed
    LET k == e.k[1]   occ == Present(m, k)   c == m[k]   made == {e.mk[j][1] : j \in 1..Len(e.mk)} \cup (IF Vk \in {"Z", "W", "F"} THEN {0} ELSE {})
    IN CASE e.how = "or"  -> IF occ THEN {<<c[2], c[3]>>} ELSE {e.x}
         [] e.how = "orw" -> IF occ THEN {<<c[2], c[3]>>} ELSE {<<Zv(e.v), i>> : i \in made}
         [] e.how = "ord" -> IF occ THEN {<<c[2], c[3]>>} ELSE {<<0, i>> : i \in made}
         [] e.how = "am"  -> IF occ THEN {<<Zv(e.v + 1), c[3]>>} ELSE {e.x}
         [] e.how = "set" -> IF occ THEN {<<c[2], c[3]>>} ELSE {e.x}
         [] e.how = "rm"  -> IF occ THEN {<<c[2], c[3]>>} ELSE {e.k}
         [] e.how = "rme" -> IF occ THEN {Entry(m, k)} ELSE {e.k}
         [] e.how \in {"gm", "im"} -> IF occ THEN {<<Zv(e.v), c[3]>>} ELSE {<<>>}
         [] OTHER -> {<<>>}
EntCalled(e, m) == LET occ == Present(m, e.k[1]) IN IF (e.how = "orw" /\ ~occ) \/ (e.how = "am" /\ occ) THEN 1 ELSE 0

Touched(e, es) == LET c == Counts(e.stp)  y == WalkYields(es, c)
                  IN {y[j][1] : j \in {i \in 1..Len(c) : y[i] # <<>>}} \cup (IF Closing(e.stp) \in {"", "K"} THEN {} ELSE {x[1] : x \in ToSet(Closed(es, e.stp))})
Bumped(m, ks) == [k \in 1..Len(m) |-> IF k \in ks THEN <<m[k][1], Zv(m[k][2] + 100), m[k][3]>> ELSE m[k]]

Post(e, m, o) ==
    CASE e.e = "ins"  -> Put(m, e.k[1], e.k[2], e.x[1], e.x[2])
      [] e.e = "sins" -> AddSet(m, e.k[1], e.k[2])
      [] e.e = "rep"  -> PutNew(m, e.k[1], e.k[2])
      [] e.e = "getm" -> SetVal(m, e.k[1], Zv(e.v))
      [] e.e \in {"rm", "take", "srm"} -> Del(m, e.k[1])
      [] e.e \in {"clear", "drop"} -> Empty(N)
      [] e.e = "ent"  -> EntPost(e, m)
      [] e.e \in {"ext", "extr"}  -> PutAll(m, e.kvs, e.mk, 1)
      [] e.e = "fromit" -> PutAll(Empty(N), e.kvs, e.mk, 1)
      [] e.e = "sp"   -> Below(m, e.k[1])
      [] e.e = "ap"   -> Merge(m, o)
      [] e.e = "it"   -> IF e.kd = "o" THEN Empty(N) ELSE IF e.kd \in {"m", "bm", "w"} THEN Bumped(m, Touched(e, Entries(m))) ELSE m
      [] e.e = "rg"   -> IF e.kd = "m" THEN Bumped(m, Touched(e, InRange(m, <<e.lk, e.lo>>, <<e.hk, e.hi>>))) ELSE m
      [] OTHER -> m
Answer(e, m) ==
    LET k == e.k[1]  c == IF Present(m, k) THEN m[k] ELSE <<>>
    IN CASE e.e \in {"ins", "rm", "getm"} -> IF c = <<>> THEN <<>> ELSE <<<<c[2], c[3]>>>>
         [] e.e = "get" -> IF c = <<>> THEN <<>> ELSE IF e.how = "h" THEN <<<<>>>> ELSE IF e.how = "e" THEN <<Entry(m, k)>> ELSE <<<<c[2], c[3]>>>>
         [] e.e = "sins" -> IF c = <<>> THEN <<<<>>>> ELSE <<>>
         [] e.e = "srm" -> IF c = <<>> THEN <<>> ELSE <<<<>>>>
         [] e.e = "sget" -> IF c = <<>> THEN <<>> ELSE IF e.how = "h" THEN <<<<>>>> ELSE <<Entry(m, k)>>
         [] e.e \in {"take", "rep"} -> IF c = <<>> THEN <<>> ELSE <<Entry(m, k)>>
         [] OTHER -> <<>>

Allowed(e, m) ==
    LET bad == BadArgs(e, m)
    IN (IF (e.den > 0 \/ e.cf = 1) /\ e.e \in Fallible THEN {ERR} ELSE {})
       \cup (IF bad \/ e.pn > 0 THEN {PANIC} ELSE {})
       \cup (IF bad \/ e.pn > 0 \/ e.cf = 1 THEN {} ELSE {OK})
(* the map (in slot s) after the call, however it ended; exact unless the call works on entries of several keys and panicked *)
Several == {"sp", "ap", "ext", "extr"}
After(e, m, o) == IF e.ok = OK THEN Post(e, m, o) ELSE IF e.e \in {"drop", "clear"} \/ (e.e = "it" /\ e.kd = "o") THEN Empty(N) ELSE m
(* and the other one (in slot t) *)
After2(e, m, o) == IF e.e = "sp" THEN (IF e.ok = OK THEN AtOrAbove(m, e.k[1]) ELSE Empty(N))
                   ELSE IF e.e = "ap" THEN (IF e.ok = OK THEN Empty(N) ELSE o) ELSE o
=============================================================================
