---- MODULE T_Transform ----
(* Trace validation of the preprocessing transformers. Values are logged as reduced fractions. *)
EXTENDS Transform, TraceIO
VARIABLE l
Guard(e, cl) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(cl \o << <<"input-modified", ~e.mod>> >>)
\* e.A: data the scaler was fitted on, e.B: data transformed (both padded arrays), statistics from A unless per series
Src(e) == IF e.perts THEN e.B ELSE e.A
JMinMax(e) ==
  Guard(e, << <<"shape", Len(e.out) = Len(e.B) /\ \A i \in 1..Len(e.B): Len(e.out[i]) = Len(e.B[i])>>,
    <<"scaled-values", \A i \in 1..Len(e.B): \A t \in 1..Len(e.B[i]): \A k \in 1..e.d:
        LET v == e.B[i][t][k] IN
        IF v = NANN THEN IsNan(e.out[i][t][k])
        ELSE LET g == Group(Src(e), e.d, i, k, e.perts, e.perfeat) IN g = << >> \/ e.out[i][t][k] = MinMaxVal(v, g, e.lo, e.hi, e.unit)>> >>)
\* e.out[i][t][k] = <<sign, p, q>> of z and z squared
JMeanVar(e) ==
  Guard(e, << <<"shape", Len(e.out) = Len(e.B) /\ \A i \in 1..Len(e.B): Len(e.out[i]) = Len(e.B[i])>>,
    <<"standardised-values", \A i \in 1..Len(e.B): \A t \in 1..Len(e.B[i]): \A k \in 1..e.d:
        LET v == e.B[i][t][k] o == e.out[i][t][k] IN
        IF v = NANN THEN o[1] = NANN
        ELSE LET g == Group(Src(e), e.d, i, k, e.perts, e.perfeat) IN
             g = << >> \/ (o[1] = ZSign(v, g) /\ <<o[2], o[3]>> = ZSq(v, g, e.unit))>> >>)
JRefuse(e) == Failed(<< <<"accepted what it must refuse: " \o e.what, e.err # "">> >>)
JResample(e) == Guard(e, << <<"resampled-values", e.out = ResampleSet(e.B, e.d, e.sz)>> >>)
JImpute(e) == Guard(e, << <<"imputed-values", e.out = ImputeSet(e.B, e.d, e.m, e.c, e.keep)>> >>)
JSync(e) == Guard(e, << <<"synchronised-values", e.out = SyncSet(e.B, e.d, e.ref, e.stamped, e.T)>> >>)
Judge(e) ==
  CASE e.k = "minmax" -> JMinMax(e)
    [] e.k = "meanvar" -> JMeanVar(e)
    [] e.k = "refuse" -> JRefuse(e)
    [] e.k = "resample" -> JResample(e)
    [] e.k = "impute" -> JImpute(e)
    [] e.k = "sync" -> JSync(e)
    [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
