---- MODULE T_Serial ----
(* Trace validation of save/load histories. A "start" event opens a history: the kinds of the two configurations, what the two slots
   hold and the fingerprints (parameters, fitted attributes, outputs) of freshly built estimators; the other events are operations. *)
EXTENDS Serial, TraceIO
VARIABLES l, m, d, kind, ref
Nil == [p \in 1..2 |-> Missing]
RefOf(r, s) == IF s.c = 0 THEN "" ELSE r[s.c][s.f + 1]
StartState(e) == [i \in 1..2 |-> [c |-> e.slots[i][1], f |-> e.slots[i][2]]]
JStart(e) == Failed(<< <<"fresh-estimator", \A i \in 1..2: e.obs[i] = RefOf(e.ref, StartState(e)[i])>> >>)
JOp(e) ==
  LET r == Do(kind, m, d, e.o)
      bad == {i \in 1..2: e.obs[i] # "-" /\ e.obs[i] # RefOf(ref, r.m[i])} IN
  Failed(<< <<"fails: " \o e.o.k \o " " \o e.o.fmt \o " " \o e.err, r.ok => e.err = "">>,
            <<"accepted: " \o e.o.k \o " " \o e.o.fmt, ~r.ok => e.err # "">>,
            <<"exception: " \o e.err, ~r.ok /\ r.errs # {} => e.err \in r.errs>>,
            <<"estimator-differs", bad = {}>>,
            <<"existing-files", \A p \in 1..2: e.exists[p] = (r.d[p].fmt # "")>>,
            <<"other-file-changed", \A p \in 1..2: e.changed[p] => r.ok /\ e.o.k \in {"save", "delete"} /\ e.o.p = p>>,
            <<"stray-files", e.stray = 0>>,
            <<"input-modified", ~e.mod>> >>)
Judge(e) ==
  CASE e.k = "start" -> JStart(e)
    [] e.k = "op" -> JOp(e)
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ m = [i \in 1..2 |-> None] /\ d = Nil /\ kind = <<"plain", "plain">> /\ ref = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
        /\ LET e == Trace[l] IN
           IF e.k = "start" THEN m' = StartState(e) /\ d' = Nil /\ kind' = e.kind /\ ref' = e.ref
           ELSE LET r == Do(kind, m, d, e.o) IN m' = r.m /\ d' = r.d /\ UNCHANGED <<kind, ref>>
Spec == Init /\ [][Next]_<<l, m, d, kind, ref>>
====
