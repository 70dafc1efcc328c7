---- MODULE T_Batch ----
(* Trace validation: "start" opens a history of one estimator and method on a pool of e.n series, "batch" is one call *)
EXTENDS Batch, TraceIO
VARIABLES l, known, single
JBatch(e) ==
  IF e.err # "" THEN {"fails: " \o e.err}
  ELSE IF Len(e.rows) # Len(e.ids) THEN {"number-of-rows"}
  ELSE Failed(<< <<"row-depends-on-batch", Agrees(known, e.ids, e.rows, single)>>,
                 <<"input-modified", ~e.mod>> >>)
Judge(e) ==
  CASE e.k = "start" -> {}
    [] e.k = "batch" -> JBatch(e)
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ known = <<>> /\ single = FALSE
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
        /\ single' = IF Trace[l].k = "start" THEN Trace[l].single ELSE single
        /\ LET e == Trace[l] IN
           known' = IF e.k = "start" THEN Unseen(e.n) ELSE IF e.err # "" \/ Len(e.rows) # Len(e.ids) THEN known ELSE Learn(known, e.ids, e.rows)
Spec == Init /\ [][Next]_<<l, known, single>>
====
