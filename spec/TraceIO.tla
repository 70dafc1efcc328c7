---- MODULE TraceIO ----
(* Reading a recorded trace (one JSON event per line) and reporting verdicts. *)
EXTENDS Core, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(e, clauses) == IF clauses = {} THEN TRUE ELSE PrintT(<<"BAD", e.id, clauses>>)
====
