---- MODULE T_Mlp ----
(* Trace validation of TimeSeriesMLPClassifier and TimeSeriesMLPRegressor. Training is compared with the network scikit-learn trains on the
   flattened series (rw, rout: its weights and answers); after "set" the answers are computed from the integer weights. *)
EXTENDS Mlp, TraceIO
VARIABLES l, m, p
\* p: the parameters of the history [warm, kind, classes]
Expect(e, want, cl) == IF e.err # want THEN {IF want = "" THEN "raised " \o e.err ELSE "expected " \o want \o " got " \o e.err}
                       ELSE Failed((IF want = "" THEN cl ELSE <<>>) \o << <<"input-modified", ~e.mod>> >>)
Train(e) == << <<"differs-from-reference", NumMatEq(e.w, e.rw, 20, -8)>>, <<"returns-self", e.self_>>, <<"shapes", e.shapes>> >>
JFit(e) == IF m.dims = -1 /\ p.warm THEN {} ELSE Expect(e, FitErr(m, p.warm, e.shape, e.bad), Train(e))
JPartial(e) == IF m.dims = -1 THEN {} ELSE Expect(e, PartialErr(m, e.shape, e.bad), Train(e))
Answer(e) ==
  IF m.net = <<>> THEN << <<"differs-from-reference", NumMatEq(e.out, e.rout, 20, -8)>> >>
  ELSE LET z == [i \in 1..Len(e.X) |-> Forward(m.net, e.X[i])] IN
       IF p.kind = "regressor" THEN << <<"prediction", e.iout = z>> >>
       ELSE IF e.what = "predict" THEN << <<"prediction", Len(e.cls) = Len(z) /\ \A i \in 1..Len(z): e.cls[i] # 0 /\ LET q == Scores(z[i]) IN q[e.cls[i]] = q[Best(q)]>> >>
       ELSE << <<"probabilities", Len(e.pout) = Len(z) /\ \A i \in 1..Len(z): ProbaOk(Scores(z[i]), e.pout[i])>> >>
JCall(e) == IF m.dims = -1 THEN {} ELSE IF m.dims = -2 THEN Failed(<< <<"answers untrained", e.err # "">> >>) ELSE Expect(e, CallErr(m, e.shape, e.bad), Answer(e))
Judge(e) ==
  CASE e.k = "start" -> {}
    [] e.k = "fit" -> JFit(e)
    [] e.k = "partial" -> JPartial(e)
    [] e.k = "set" -> {}
    [] e.k = "call" -> JCall(e)
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ m = New /\ p = <<>>
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
  /\ LET e == Trace[l] IN
     /\ p' = IF e.k = "start" THEN e ELSE p
     /\ m' = CASE e.k = "start" -> New
               [] e.k = "fit" -> IF m.dims = -1 /\ p.warm THEN m ELSE AfterFit(m, p.warm, e.shape, e.bad)
               [] e.k = "partial" -> IF m.dims = -1 THEN m ELSE AfterPartial(m, e.shape, e.bad)
               [] e.k = "set" -> [m EXCEPT !.net = <<e.W, e.b, p.act>>]
               [] OTHER -> m
Spec == Init /\ [][Next]_<<l, m, p>>
====
