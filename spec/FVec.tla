-------------------------------- MODULE FVec --------------------------------
(* Abstract specification of the crate's vectors (FallibleVec for Vec, and TryVec).
   State of a vector: the sequence of its elements.  An element is <<value, identity>>.
   A call c is a record: operation, arguments, and the faults that hit it; the operators below give,
   for the state before, the outcomes the specification allows and, per outcome, the allowed states
   after.  They are used twice: MCVec explores them exhaustively, TraceVec accepts recorded calls. *)
EXTENDS FCommon

Growers == {"push", "pushgb", "insert", "append", "resize", "resizenc", "resizewith", "extend", "extendnc", "reserve"}
Quiet   == {"pop", "clear", "set", "dbg", "eq"}              \* never touch the capacity
Makers  == {"withcap", "concat", "fromslice", "fromvec", "collect", "fromelem", "tryvec"}  \* replace the slot

Rep(x, n) == [i \in 1..n |-> x]
RemoveLast(s) == SubSeq(s, 1, Len(s) - 1)
InsertAt0(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
FreshSeq(vals) == [i \in 1..Len(vals) |-> <<vals[i], Fresh>>]
RECURSIVE FlatV(_)
FlatV(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o FlatV(Tail(ss))

(* how a number given for an element is seen in an element of kind k: Z carries nothing, B is a byte *)
Val(k, v) == IF k = "Z" THEN 0 ELSE IF k \in {"B", "M"} THEN v % 256 ELSE IF k = "S" THEN ((v + 128) % 256) - 128
             ELSE IF k = "O" THEN v % 2 ELSE v

Unrep(c) == c.n = -1                      \* a size nothing can provide

(* what a call adds, as a list of elements, given the state before (pre) and of the other vector *)
Added(c, pre, pre2) ==
    CASE c.op \in {"push", "pushgb", "insert"} -> <<c.x>>
      [] c.op = "append"    -> pre2
      [] c.op \in {"resize", "resizenc"} ->
           IF Unrep(c) \/ c.n <= Len(pre) THEN <<>> ELSE Rep(<<c.x[1], Fresh>>, c.n - Len(pre))
      [] c.op = "resizewith" ->
           IF Unrep(c) \/ c.n <= Len(pre) THEN <<>> ELSE [i \in 1..(c.n - Len(pre)) |-> <<Val(c.ek, c.b + i - 1), Fresh>>]
      [] c.op \in {"extend", "extendnc"} -> FreshSeq(c.vals)
      [] OTHER -> <<>>

Need(c, pre, pre2) == IF c.op = "reserve" THEN c.n ELSE Len(Added(c, pre, pre2))

(* contents after success *)
Success(c, pre, pre2) ==
    CASE c.op \in {"push", "pushgb", "append", "extend", "extendnc"} -> pre \o Added(c, pre, pre2)
      [] c.op = "insert"  -> IF c.i \in 0..Len(pre) THEN InsertAt0(pre, c.i, c.x) ELSE pre
      [] c.op \in {"resize", "resizenc", "resizewith"} ->
           IF c.n <= Len(pre) THEN SubSeq(pre, 1, c.n) ELSE pre \o Added(c, pre, pre2)
      [] c.op \in {"clear", "withcap", "drop"} -> <<>>
      [] c.op = "pop"     -> IF pre = <<>> THEN <<>> ELSE RemoveLast(pre)
      [] c.op = "set"     -> [pre EXCEPT ![c.i + 1] = <<Val(c.ek, c.v), @[2]>>]
      [] c.op \in {"reserve", "tryclone", "dbg", "eq"} -> pre
      [] c.op = "concat"  -> FreshSeq(FlatV(c.parts))
      [] c.op \in {"fromslice", "collect"} -> FreshSeq(c.vals)
      [] c.op \in {"fromvec", "tryvec"} -> c.xs
      [] c.op = "fromelem" -> Rep(<<c.x[1], Fresh>>, c.n)
      [] c.op = "it"      -> IF c.kd = "m" THEN [i \in 1..Len(pre) |-> IF i \in c.steps THEN <<Val(c.ek, pre[i][1] + 100), pre[i][2]>> ELSE pre[i]]
                             ELSE IF c.kd = "o" THEN <<>> ELSE pre

Prefixes(pre, add) == {pre \o SubSeq(add, 1, k) : k \in 0..Len(add)}

(* contents after a reported failure: everything as before; only an operation that duplicates
   elements and whose duplication failed may have appended a leading part of the duplicates *)
Failure(c, pre, pre2) ==
    IF c.op \in {"resizenc", "extendnc"} /\ c.cf = 1 THEN Prefixes(pre, Added(c, pre, pre2)) ELSE {pre}

(* contents after a panic: caller code panicked in the middle, or an index was out of range *)
Panicked(c, pre, pre2) ==
    IF c.op \in {"resize", "resizenc", "resizewith"} /\ c.n # -1 /\ c.n <= Len(pre)
    THEN {SubSeq(pre, 1, k) : k \in c.n..Len(pre)}
    ELSE IF c.op = "clear" THEN {SubSeq(pre, 1, k) : k \in 0..Len(pre)}
    ELSE IF c.op \in {"drop"} THEN {<<>>}
    ELSE IF c.op \in {"resizenc", "extendnc", "resizewith"} THEN Prefixes(pre, Added(c, pre, pre2))
    ELSE IF c.op = "it" /\ c.kd = "o" THEN {<<>>}
    ELSE {pre}

BadIndex(c, pre) == (c.op = "insert" /\ c.i \notin 0..Len(pre)) \/ (c.op = "set" /\ c.i \notin 0..(Len(pre)-1))

(* A ZST vector can represent sizes nothing else can. *)
Allowed(c, pre, zst) ==
    (IF c.den > 0 \/ c.cf = 1 \/ Unrep(c) THEN {ERR} ELSE {})
    \cup (IF c.pn > 0 \/ BadIndex(c, pre) THEN {PANIC} ELSE {})
    \cup (IF (Unrep(c) /\ ~zst /\ c.op # "collect") \/ BadIndex(c, pre) \/ c.cf = 1 \/ c.pn > 0 THEN {} ELSE {OK})

Posts(c, ok, pre, pre2) ==
    CASE ok = OK -> {Success(c, pre, pre2)}
      [] ok = ERR -> Failure(c, pre, pre2)
      [] ok = PANIC -> Panicked(c, pre, pre2)

(* contents of the second vector of a two-vector call *)
Post2(c, ok, pre, pre2) ==
    CASE c.op = "append" -> IF ok = OK THEN <<>> ELSE pre2
      [] c.op = "tryclone" -> IF ok = OK THEN FreshSeq([i \in 1..Len(pre) |-> pre[i][1]]) ELSE pre2
      [] OTHER -> pre2

(* Lengths of vectors of elements without size: <<0, n>> is n, <<1, n>> is the largest length minus n. *)
ZOver(a, b) == (a[1] = 1 /\ b[1] = 1) \/ (a[1] = 1 /\ b[2] > a[2]) \/ (b[1] = 1 /\ a[2] > b[2])
ZSum(a, b) == IF a[1] = 0 /\ b[1] = 0 THEN <<0, a[2] + b[2]>> ELSE IF a[1] = 1 THEN <<1, a[2] - b[2]>> ELSE <<1, b[2] - a[2]>>
=============================================================================
