-------------------------------- MODULE MCCell --------------------------------
(* Every history of boxes, wrapped boxes, raw pointers and shared pointers in a few slots, with every refusal, as far as
   FCell tells them apart.  Checked: what FCell allows keeps ownership sound.  Every transition is printed as a script. *)
EXTENDS FCell, TLC
CONSTANTS K,       \* slots
          Emit
VARIABLES c,       \* the cells
          ng,      \* next allocation and identity
          gone,    \* identities destroyed so far, in order
          hist, last
vars == <<c, ng, gone, hist, last>>
Slots == 1..K
(* allocations are told apart only by which cells share them *)
View == [j \in Slots |-> IF c[j] = <<>> THEN <<>> ELSE <<c[j][1], c[j][2], CHOOSE i \in Slots : c[i] # <<>> /\ c[i][4] = c[j][4] /\ \A h \in 1..(i - 1) : c[h] = <<>> \/ c[h][4] # c[j][4]>>]
Ids(q) == {q[j][3] : j \in Filled(q)}
S(n) == ToString(n)
Calls == [e : {"nb"}, s : Slots, t : {0}, kd : {"b", "t", "r", "a"}, v : {1}] \cup [e : {"tc"}, s : Slots, t : Slots, kd : {""}, v : {0}]
         \cup [e : {"wr"}, s : Slots, t : {0}, kd : {""}, v : {1, 2}] \cup [e : {"rw", "dr", "rd"}, s : Slots, t : {0}, kd : {""}, v : {0}]
         \cup [e : {"ur"}, s : Slots, t : {0}, kd : {"b", "t"}, v : {0}]
Txt(x) == x.e \o " " \o S(x.s - 1) \o (CASE x.e = "nb" -> " " \o x.kd \o " " \o S(x.v) [] x.e = "tc" -> " " \o S(x.t - 1) [] x.e = "wr" -> " " \o S(x.v) [] x.e = "ur" -> " " \o x.kd [] OTHER -> "")
Do(x0, f) ==
    LET x == [x0 EXCEPT !.t = IF x0.e = "tc" THEN @ ELSE x0.s]
        den == IF f = "!sa" THEN 1 ELSE 0   cf == IF f = "!sc" THEN 1 ELSE 0   pn == IF f = "!p c 1" THEN 1 ELSE 0
    IN /\ (x.e = "tc" => x.t # x.s)
       /\ \E ok \in CellAllowed(x, c, den, cf, pn) :
            /\ (f # "none" => ok # OK)
            /\ c' = CellPost(x, c, ok, <<x.v, ng>>, ng, x.v, ng)
            /\ gone' = gone \cup (Ids(c) \ Ids(c')) \cup (IF x.e = "nb" /\ ok # OK THEN {ng} ELSE {})
            /\ last' = [x |-> x, ok |-> ok]
       /\ ng' = ng + 1 /\ hist' = hist \o "|" \o (IF f = "none" THEN "" ELSE f \o "|") \o Txt(x)
Next == \E x \in Calls : \E f \in {"none"} \cup (IF x.e = "nb" /\ x.kd \in {"b", "t"} THEN {"!sa"} ELSE IF Cloned(x, c) THEN {"!sa", "!sc", "!p c 1"} ELSE {}) : Do(x, f)
Init == c = [j \in Slots |-> <<>>] /\ ng = 1 /\ gone = {} /\ hist = "" /\ last = [x |-> [e |-> "", s |-> 1, t |-> 1, kd |-> "", v |-> 0], ok |-> OK]
Spec == Init /\ [][Next]_vars
Note == Emit => PrintT("CASE" \o hist')

(* one value per allocation; only shared pointers of one kind share; what is gone is not reachable *)
Sound == \A i, j \in Filled(c) : c[i][4] = c[j][4] => (c[i][2] = c[j][2] /\ c[i][3] = c[j][3] /\ (i # j => Ref(c[i]) /\ c[i][1] = c[j][1]))
Apart == \A i, j \in Filled(c) : c[i][3] = c[j][3] => c[i][4] = c[j][4]
NotGone == Ids(c) \cap gone = {}
(* every value made is owned or gone, never both, never neither *)
Others(x) == \A j \in Slots \ {x.s, x.t} : c'[j] = c[j]
Local == [][Others(last'.x)]_vars
(* writing through one owner of a shared value is never seen by another *)
NoAlias == [][last'.x.e = "wr" => \A j \in Slots \ {last'.x.s} : c'[j] = c[j]]_vars
(* a failed creation or duplication makes nothing *)
Nothing == [][last'.ok # OK => Groups(c') \subseteq Groups(c)]_vars
=============================================================================
