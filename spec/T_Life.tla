---- MODULE T_Life ----
(* Trace validation of estimator histories. ref[c][f + 1] = <<parameters, state>> of a fresh estimator of configuration c fitted to f. *)
EXTENDS Life, TraceIO
VARIABLES l, m, ref, errs
StartState(e) == [i \in 1..2 |-> [c |-> e.slots[i][1], f |-> e.slots[i][2]]]
Params(r, s) == IF s.c = 0 THEN "" ELSE r[s.c][1][1]
\* "-" when nothing is known
State(r, s) == IF s.c = 0 THEN "" ELSE IF s.f = Unknown THEN "-" ELSE r[s.c][s.f + 1][2]
SameP(r, s, o) == o[1] = "-" \/ o[1] = Params(r, s)
SameS(r, s, o) == o[2] = "-" \/ State(r, s) = "-" \/ o[2] = State(r, s)
JStart(e) == Failed(<< <<"two-fresh-estimators-differ", \A i \in 1..2: SameP(e.ref, StartState(e)[i], e.obs[i]) /\ SameS(e.ref, StartState(e)[i], e.obs[i])>>,
                       <<"usable-before-fit", \A c \in 1..2: \A x \in 1..Len(e.errs[c][1]): e.errs[c][1][x] = "NotFittedError">>,
                       <<"global-parameters", \A c \in 1..2: \A f \in 2..3: e.ref[c][f][1] = e.ref[c][1][1]>> >>)
JOp(e) ==
  LET r == Do(m, e.o) IN
  Failed(<< <<"fails: " \o e.o.k \o " " \o e.err, r.end \in {"ok", "skip"} => e.err = "">>,
            <<"accepted: " \o e.o.k, r.end \in {"refused", "not-fitted"} => e.err # "">>,
            <<"exception: " \o e.err, r.end = "not-fitted" => e.err = "NotFittedError">>,
            <<"ends-otherwise: " \o e.err, r.end = "fresh" => e.err = errs[r.m[e.o.m].c][r.m[e.o.m].f + 1][e.x]>>,
            <<"parameters-differ", \A i \in 1..2: SameP(ref, r.m[i], e.obs[i])>>,
            <<"state-differs", \A i \in 1..2: SameS(ref, r.m[i], e.obs[i])>>,
            <<"output-differs", e.out = e.refout>>,
            <<"fit-then-transform", e.sep = e.refout>>,
            <<"returns-self", e.self_>>,
            <<"input-modified", ~e.mod>> >>)
Judge(e) ==
  CASE e.k = "start" -> JStart(e)
    [] e.k = "op" -> JOp(e)
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ m = [i \in 1..2 |-> None] /\ ref = <<>> /\ errs = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
        /\ LET e == Trace[l] IN
           IF e.k = "start" THEN m' = StartState(e) /\ ref' = e.ref /\ errs' = e.errs
           ELSE m' = Do(m, e.o).m /\ UNCHANGED <<ref, errs>>
Spec == Init /\ [][Next]_<<l, m, ref, errs>>
====
