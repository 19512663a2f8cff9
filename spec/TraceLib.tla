------------------------------ MODULE TraceLib ------------------------------
(* Shared by all trace specifications: the recorded execution, clause reporting and acceptance.    *)
EXTENDS FCommon, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NTrace == Len(Trace)
Prop  == IOEnv.PROP                       \* the property under decision, or "ALL"

VARIABLE l                                \* next event to be explained

(* A clause belongs to the properties in tags; it decides only when one of them is being checked.  *)
Mine(tags) == Prop = "ALL" \/ Prop \in tags
Chk(tags, name, cond, info) ==
    IF ~Mine(tags) THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"MISMATCH", l, name, info>>) /\ FALSE

Accepted == IF TLCGet("stats").diameter - 1 = NTrace THEN PrintT(<<"ACCEPTED", NTrace>>)
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Range1(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN "" ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

(* debug text of a collection, on one line and over several *)
Flat(open, ss, close) == open \o Join(ss, ", ") \o close
Tall(open, ss, close) == IF ss = <<>> THEN open \o close ELSE open \o "\n" \o Join([j \in 1..Len(ss) |-> "    " \o ss[j] \o ",\n"], "") \o close
TextsOk(open, ss, close, e) == e.txt = Flat(open, ss, close) /\ e.tp = Tall(open, ss, close) /\ e.te = 1

Has(e, f) == f \in DOMAIN e
Fld(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d

(* the reason an outcome other than plain success was forced by the harness decides who is concerned *)
FaultTags(e) == (IF e.den > 0 THEN {"C01"} ELSE {}) \cup (IF e.pn > 0 THEN {"C19"} ELSE {})

(* Memory facts every event carries: nothing destroyed twice, nothing dead reachable, no block misused *)
MemTags(e) == {"C05"} \cup (IF e.pn > 0 THEN {"C19"} ELSE {})
MemOk(e) == e.bad = 0 /\ e.ds = 0 /\ e.mem = 0
(* calls that cannot fail for lack of memory make no request, and are not told that there is none *)
NeedsNone(quiet, e) == quiet => Chk({"C23"}, "needs no memory", e.ok # 0 /\ (e.ok = 2 \/ e.pn > 0 \/ e.att = 0), <<e.e, e.ok, e.att>>)
(* what is only read stays as it was, byte for byte: during, and after, whatever else happens *)
Untouched(reads, e) == reads => Chk({"C24"}, "reading changes nothing", e.chg = 0, <<e.e, e.ok>>)
(* at the end of a case everything is gone *)
GoneOk(e) == e.ok = 1 /\ e.al = 0 /\ e.bad = 0 /\ e.mem = 0 /\ e.blk = 0 /\ e.eblk = 0
=============================================================================
