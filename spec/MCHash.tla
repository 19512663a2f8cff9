-------------------------------- MODULE MCHash --------------------------------
(* Every history of two small hash maps (as abstract maps, FMap) with every refusal and every failing or panicking piece of
   foreign code.  Elements carry identities, so that ownership can be checked.  Every transition is printed as a script. *)
EXTENDS FMap, TLC
CONSTANTS N,       \* keys 1..N
          Vals, Emit
VARIABLES m,       \* slot -> map
          ghost,   \* slot -> key -> value of the last successful insertion not removed since, 0: none
          next,    \* next identity
          hist, last
vars == <<m, ghost, next, hist, last>>
Slots == {0, 1}
View == [s \in Slots |-> [k \in 1..N |-> IF m[s][k] = <<>> THEN 0 ELSE m[s][k][2]]]
S(x) == ToString(x)
Base == [op |-> "", s |-> 0, k |-> 0, v |-> 0, txt |-> ""]
Calls(s) == {[Base EXCEPT !.op = "hins", !.s = s, !.k = k, !.v = v, !.txt = "hins " \o S(s) \o " " \o S(k) \o " " \o S(v)] : k \in 1..N, v \in Vals}
            \cup {[Base EXCEPT !.op = o, !.s = s, !.k = k, !.txt = o \o " " \o S(s) \o " " \o S(k) \o " " \o h] : o \in {"hget", "hrm"}, k \in 1..N, h \in {"k", "p"}}
            \cup {[Base EXCEPT !.op = "hwc", !.s = s, !.txt = "hwc " \o S(s) \o " " \o S(n)] : n \in {0, 1, 4}}
            \cup {[Base EXCEPT !.op = "hit", !.s = s, !.v = o, !.txt = "hit " \o S(s) \o (IF o = 1 THEN " o " ELSE " r ") \o S(n)] : o \in {0, 1}, n \in {0, 1, N + 1}}
            \cup {[Base EXCEPT !.op = "htcl", !.s = s, !.txt = "htcl " \o S(s) \o " " \o S(1 - s)]}
            \cup {[Base EXCEPT !.op = o, !.s = s, !.txt = o \o " " \o S(s)] : o \in {"hdef", "hdbg"}}
Faults(x) == {"none"} \cup (IF x.op \in {"hins", "hwc", "htcl"} THEN {"!sa"} ELSE {}) \cup (IF x.op = "htcl" THEN {"!sc", "!c 1", "!sp c"} ELSE {})
             \cup (IF x.op \in {"hins", "hget", "hrm"} THEN {"!sp e"} ELSE {})
Post(x, ok) == IF ok # OK THEN m[x.s]
               ELSE CASE x.op = "hins" -> Put(m[x.s], x.k, next, x.v, next + 1)
                      [] x.op = "hrm" -> Del(m[x.s], x.k)
                      [] x.op \in {"hwc", "hdef"} \/ (x.op = "hit" /\ x.v = 1) -> Empty(N)
                      [] OTHER -> m[x.s]
Copy(a) == [k \in 1..N |-> IF a[k] = <<>> THEN <<>> ELSE <<next + 2 * k, a[k][2], next + 2 * k + 1>>]
Do(x, f) ==
    \E ok \in (IF f \in {"none"} THEN {OK} ELSE IF f = "!sa" \/ f \in {"!sc", "!c 1"} THEN {OK, ERR} ELSE {OK, PANIC}) :
        LET dup == x.op = "htcl" /\ ok = OK
        IN /\ m' = [m EXCEPT ![x.s] = Post(x, ok), ![1 - x.s] = IF dup THEN Copy(m[x.s]) ELSE @]
           /\ ghost' = IF ok # OK THEN ghost
                       ELSE CASE x.op = "hins" -> [ghost EXCEPT ![x.s][x.k] = x.v] [] x.op = "hrm" -> [ghost EXCEPT ![x.s][x.k] = 0]
                              [] x.op \in {"hwc", "hdef"} \/ (x.op = "hit" /\ x.v = 1) -> [ghost EXCEPT ![x.s] = [k \in 1..N |-> 0]]
                              [] dup -> [ghost EXCEPT ![1 - x.s] = ghost[x.s]] [] OTHER -> ghost
           /\ next' = next + 2 * N + 2 /\ last' = [x |-> x, ok |-> ok]
           /\ hist' = hist \o "|" \o (IF f = "none" THEN "" ELSE f \o "|") \o x.txt
Next == \E s \in Slots : \E x \in Calls(s) : \E f \in Faults(x) : Do(x, f)
Init == m = [s \in Slots |-> Empty(N)] /\ ghost = [s \in Slots |-> [k \in 1..N |-> 0]] /\ next = 1 /\ hist = "" /\ last = [x |-> Base, ok |-> OK]
Spec == Init /\ [][Next]_vars
Note == Emit => PrintT("CASE" \o hist')

Faithful == \A s \in Slots : \A k \in 1..N : IF ghost[s][k] = 0 THEN ~Present(m[s], k) ELSE Present(m[s], k) /\ m[s][k][2] = ghost[s][k]
Counted == \A s \in Slots : Size(m[s]) = Cardinality({k \in 1..N : ghost[s][k] # 0}) /\ Len(Entries(m[s])) = Size(m[s])
Ids(a) == {a[k][1] : k \in KeysOf(a)} \cup {a[k][3] : k \in KeysOf(a)}
OneOwner == Ids(m[0]) \cap Ids(m[1]) = {} /\ \A s \in Slots : Cardinality(Ids(m[s])) = 2 * Size(m[s])
Unchanged == [][last'.ok # OK => m' = m]_vars
(* the key stored first stays; the value is the new one; and the other map is not concerned *)
KeyStays == [][(last'.ok = OK /\ last'.x.op = "hins" /\ Present(m[last'.x.s], last'.x.k)) => m'[last'.x.s][last'.x.k][1] = m[last'.x.s][last'.x.k][1]]_vars
Apart == [][(last'.x.op # "htcl") => m'[1 - last'.x.s] = m[1 - last'.x.s]]_vars
=============================================================================
