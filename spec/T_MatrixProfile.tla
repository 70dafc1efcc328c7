---- MODULE T_MatrixProfile ----
(* Trace validation of MatrixProfile.transform. *)
EXTENDS MatrixProfile, TraceIO
VARIABLE l
Guard(e, cl) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(cl \o << <<"input-modified", ~e.mod>>, <<"params-modified", ~e.pmod>> >>)
Ok(a, b, s) == IF b = INF \/ a = INF THEN a = b ELSE Abs(a - b) <= s
\* A: series; out: one row per series of the dataset, NaN after the profile of a shorter series
JProfile(e) ==
  LET W == e.sz - e.m + 1 IN
  Guard(e, << <<"shape", e.shape = <<Len(e.A), W, 1>> >>,
     <<"profile", \A i \in 1..Len(e.out): LET p == IF e.scale THEN Profile(e.A[i], e.m, ZD) ELSE Profile(e.A[i], e.m, RawD) IN
         Len(p) <= Len(e.out[i]) /\ \A t \in 1..Len(e.out[i]): IF t > Len(p) THEN e.out[i][t] = NANN ELSE Ok(e.out[i][t], p[t], IF e.scale THEN e.m ELSE 0)>>,
     <<"fit_transform", e.ft>>, <<"alone", e.alone>>, <<"repeat", e.again>> >>)
JRefused(e) == Failed(<< <<"accepted", e.err = e.want>> >>)
Judge(e) ==
  CASE e.k = "profile" -> JProfile(e)
    [] e.k = "refused" -> JRefused(e)
    [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
