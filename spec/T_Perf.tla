---- MODULE T_Perf ----
(* Trace validation of mae, mse and mase. *)
EXTENDS Perf, TraceIO
VARIABLE l
Guard(e, cl) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(cl \o << <<"input-modified", ~e.mod>> >>)
Errors(e) == IF e.fn = "mse" THEN Features(e.Y, e.P, e.u, e.w, SqE) ELSE Features(e.Y, e.P, e.u, e.w, AbsE)
\* multi: "raw", "uniform" or "weights" (v)
Expected(e) ==
  LET q == Errors(e)
      s == IF e.fn = "mase" THEN Scale(e.X, e.m) ELSE [j \in 1..Len(q) |-> <<1, 1>>]
      one(v) == Average(q, v)
  IN IF e.multi = "raw" THEN {[j \in 1..Len(q) |-> Ratio(q[j], s[j])]}
     ELSE IF e.multi = "uniform" THEN {<<Ratio(one(e.v), Average(s, e.v))>>}
     \* the scale of a weighted average of features: their uniform or their weighted average
     ELSE {<<Ratio(one(e.v), Average(s, e.v))>>, <<Ratio(one(e.v), Average(s, Ones(Len(s))))>>}
JError(e) == Guard(e, << <<"value", e.out \in Expected(e)>>, <<"shape", e.nd = (IF e.multi = "raw" THEN 1 ELSE 0)>> >>)
JRefused(e) == Failed(<< <<"accepted", e.err = "ValueError">>, <<"input-modified", ~e.mod>> >>)
Judge(e) ==
  CASE e.k = "error" -> JError(e)
    [] e.k = "refused" -> JRefused(e)
    [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
