-------------------------------- MODULE FIo --------------------------------
(* Sources of bytes and reading a bounded amount from them.  A source is a plan of steps <<kind, n>>: 0 up to n bytes
   (none at all: end), 1 interrupted, 2 failure, 3 end; after the plan there is nothing more.  *)
EXTENDS FCommon
Byte(i) == (i * 37 + 11) % 251
Bytes(base, n) == [j \in 1..n |-> Byte(base + j - 1)]
(* reading at most lim bytes: <<bytes obtained, failed>>.  A failure counts only when the source is asked again,
   which happens exactly while the limit is not reached. *)
RECURSIVE Reads(_, _, _, _)
Reads(plan, i, lim, got) ==
    IF got = lim \/ i > Len(plan) THEN <<got, FALSE>>
    ELSE LET k == plan[i][1]   n == plan[i][2]
         IN CASE k = 1 -> Reads(plan, i + 1, lim, got)
              [] k = 2 -> <<got, TRUE>>
              [] k = 3 -> <<got, FALSE>>
              [] OTHER -> IF n = 0 THEN <<got, FALSE>> ELSE IF got + n >= lim THEN <<lim, FALSE>> ELSE Reads(plan, i + 1, lim, got + n)
=============================================================================
