--------------------------------- MODULE MCIo ---------------------------------
(* Reading at most a limit from any source of bytes, one request to the source at a time: the reader may offer it room for
   any number of bytes up to what the limit leaves, the source may serve fewer, be interrupted, fail or end.  Whatever room
   is offered, what has been appended in the end and how the call ends are what FIo's Reads says, which the recorded
   executions are held to. *)
EXTENDS FIo, TLC
CONSTANTS P,       \* plans of up to so many steps
          L,       \* limits up to
          Emit
VARIABLES plan, lim,
          at, left,          \* the source: current step, what is left of it
          got,               \* bytes appended
          taken,             \* bytes the source has handed out
          pc                 \* "start", "refused", "read", "done", "failed"
vars == <<plan, lim, at, left, got, taken, pc>>
Steps == {<<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 0>>, <<2, 0>>, <<3, 0>>}
Plans == UNION {[1..k -> Steps] : k \in 0..P}
Left(x) == IF x > Len(plan) THEN 0 ELSE plan[x][2]
Init == plan \in Plans /\ lim \in 0..L /\ at = 1 /\ left = (IF plan = <<>> THEN 0 ELSE plan[1][2]) /\ got = 0 /\ taken = 0 /\ pc = "start"
Min(x, y) == IF x < y THEN x ELSE y
Advance == at' = at + 1 /\ left' = Left(at + 1)
Reserve == pc = "start" /\ pc' \in {"read", "refused"} /\ UNCHANGED <<plan, lim, at, left, got, taken>>
Stop == pc = "read" /\ got = lim /\ pc' = "done" /\ UNCHANGED <<plan, lim, at, left, got, taken>>
Ask(room) == /\ pc = "read" /\ got < lim /\ room \in 1..(lim - got) /\ UNCHANGED <<plan, lim>>
             /\ LET k == IF at > Len(plan) THEN 3 ELSE plan[at][1]
                IN CASE k = 3 -> pc' = "done" /\ UNCHANGED <<at, left, got, taken>>                           \* the end
                     [] k = 1 -> Advance /\ UNCHANGED <<pc, got, taken>>                                      \* interrupted: asked again
                     [] k = 2 -> Advance /\ pc' = "failed" /\ UNCHANGED <<got, taken>>
                     [] OTHER -> \E n \in {Min(left, room)} : /\ got' = got + n /\ taken' = taken + n /\ UNCHANGED pc
                                                             /\ IF n = left THEN Advance ELSE left' = left - n /\ UNCHANGED at
Next == Reserve \/ Stop \/ \E room \in 1..L : Ask(room)
Spec == Init /\ [][Next]_vars
Bounded == got <= lim /\ taken = got
Untouched == pc \in {"start", "refused"} => got = 0 /\ at = 1
Agrees == /\ pc = "done" => Reads(plan, 1, lim, 0) = <<got, FALSE>>
          /\ pc = "failed" => Reads(plan, 1, lim, 0) = <<got, TRUE>>
NeverStuck == pc \in {"done", "failed", "refused"} \/ ENABLED Next
RECURSIVE Txt(_)
Txt(p) == IF p = <<>> THEN "" ELSE "," \o ToString(p[1][1]) \o (IF p[1][1] = 0 THEN ToString(p[1][2]) ELSE "") \o Txt(Tail(p))
Note == (Emit /\ pc = "start") => PrintT("CASE|" \o ToString(lim) \o "|" \o Txt(plan))
=============================================================================
