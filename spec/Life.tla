---- MODULE Life ----
(* The life of estimators: what an estimator does depends on its parameters (configuration c) and the dataset f of its last successful
   fit, not on what happened to it or to other estimators before. f = 0: never fitted; Unknown: since its last fit, its parameters were
   changed or it was fitted to invalid data, so that nothing is said about its fitted state until it is fitted again. *)
EXTENDS Core
Unknown == 9
None == [c |-> 0, f |-> 0]
Fitted(s) == s.f \in 1..2
\* one operation on the slots m: the new slots, and how the operation must end ("ok", "refused", "not-fitted", "any", "fresh": like a fresh estimator)
Ret(m, end) == [m |-> m, end |-> end]
Live(m, o) == m[o.m].c # 0
Do(m, o) ==
  LET s == m[o.m] IN
  IF o.k = "new" THEN Ret([m EXCEPT ![o.m] = [c |-> o.c, f |-> 0]], "ok")
  ELSE IF s.c = 0 THEN Ret(m, "skip")
  ELSE CASE o.k \in {"fit", "fitout"} -> Ret([m EXCEPT ![o.m].f = o.f], "ok")
         [] o.k = "badfit" -> Ret([m EXCEPT ![o.m].f = Unknown], "any")
         [] o.k = "set" -> Ret([m EXCEPT ![o.m] = [c |-> o.c, f |-> IF s.f = 0 THEN 0 ELSE IF o.c = s.c THEN s.f ELSE Unknown]], "ok")
         [] o.k = "clone" -> Ret([m EXCEPT ![o.to] = [c |-> s.c, f |-> 0]], "ok")
         [] o.k = "copy" -> Ret([m EXCEPT ![o.to] = s], "ok")
         [] o.k \in {"params", "noise"} -> Ret(m, "ok")
         [] o.k = "call" -> Ret(m, CASE Fitted(s) -> "fresh" [] s.f = 0 -> "not-fitted" [] OTHER -> "any")
         [] o.k = "badcall" -> Ret(m, IF s.f = 0 THEN "refused" ELSE "any")
====
