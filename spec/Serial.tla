---- MODULE Serial ----
(* Saving and loading estimators. A slot holds nothing or an estimator of configuration c fitted to dataset f (f = 0: not fitted);
   a path holds nothing or what was saved there. kind[c] tells which formats can represent configuration c. *)
EXTENDS Core
Formats == {"json", "hdf5", "pickle", "py"}
None == [c |-> 0, f |-> 0]
Missing == [fmt |-> "", c |-> 0, f |-> 0]
\* plain parameters; a generator object or a module-level function; a closure; a neural network; an estimator without to_*
CanSave(kind, fmt) == CASE kind = "plain" -> TRUE
                        [] kind = "object" -> fmt \in {"pickle", "py"}
                        [] kind = "closure" -> FALSE
                        [] kind = "network" -> fmt # "hdf5"
                        [] OTHER -> fmt = "py"
SaveOk(kind, s, file, fmt) == CanSave(kind[s.c], fmt) /\ (fmt = "py" \/ s.f # 0) /\ (fmt = "hdf5" => file.fmt = "")
\* admissible exceptions; {} stands for "any exception"
SaveErr(kind, s, file, fmt) ==
  LET unfitted == fmt # "py" /\ s.f = 0 exists == fmt = "hdf5" /\ file.fmt # "" cannot == ~CanSave(kind[s.c], fmt) IN
  IF cannot THEN {} ELSE (IF unfitted THEN {"NotFittedError"} ELSE {}) \cup (IF exists THEN {"FileExistsError"} ELSE {})
LoadErr(kind, file) == IF file.fmt = "" /\ kind[1] # "sklearn" THEN {"FileNotFoundError"} ELSE {}
(* one operation on (slots m, files d): the new state and whether it succeeds *)
Ret(m, d, ok, errs) == [m |-> m, d |-> d, ok |-> ok, errs |-> errs]
Do(kind, m, d, o) ==
  CASE o.k = "new" -> Ret([m EXCEPT ![o.m] = [c |-> o.c, f |-> 0]], d, TRUE, {})
    [] o.k = "fit" -> IF m[o.m].c = 0 THEN Ret(m, d, TRUE, {}) ELSE Ret([m EXCEPT ![o.m].f = o.f], d, TRUE, {})
    [] o.k = "refit" -> IF m[o.m].c = 0 THEN Ret(m, d, TRUE, {}) ELSE Ret([m EXCEPT ![o.m] = [c |-> o.c, f |-> o.f]], d, TRUE, {})
    [] o.k = "clone" -> IF m[o.m].c = 0 THEN Ret(m, d, TRUE, {}) ELSE Ret([m EXCEPT ![o.to] = [c |-> m[o.m].c, f |-> 0]], d, TRUE, {})
    [] o.k = "copy" -> IF m[o.m].c = 0 THEN Ret(m, d, TRUE, {}) ELSE Ret([m EXCEPT ![o.to] = m[o.m]], d, TRUE, {})
    [] o.k = "save" -> IF m[o.m].c = 0 THEN Ret(m, d, TRUE, {})
                       ELSE IF SaveOk(kind, m[o.m], d[o.p], o.fmt) THEN Ret(m, [d EXCEPT ![o.p] = [fmt |-> o.fmt, c |-> m[o.m].c, f |-> m[o.m].f]], TRUE, {})
                       ELSE Ret(m, d, FALSE, SaveErr(kind, m[o.m], d[o.p], o.fmt))
    [] o.k = "load" -> IF d[o.p].fmt = o.fmt THEN Ret([m EXCEPT ![o.m] = [c |-> d[o.p].c, f |-> d[o.p].f]], d, TRUE, {})
                       ELSE Ret(m, d, FALSE, LoadErr(kind, d[o.p]))
    [] o.k = "delete" -> Ret(m, [d EXCEPT ![o.p] = Missing], TRUE, {})
====
