---- MODULE T_Cache ----
(* Trace validation of the dataset cache: every history starts with a "start" event. *)
EXTENDS Core, TraceIO
VARIABLES l, cache, server
U == INSTANCE UcrCache WITH Names <- {"Alpha", "Beta", "AtrialFibrillation"}, Versions <- {1, 2, 3}, result <- 0

Frame(e, n) == \A m \in DOMAIN cache: m # n => e.dirs[m] = cache[m]
Common(e, n) == << <<"another-dataset-changed", Frame(e, n)>>, <<"changed-outside-the-dataset", e.outside = << >>>> >>
\* a load that ran to its end
LoadClauses(e) ==
  LET c == cache[e.n] s == server[e.n] IN
  << <<"raised " \o e.err, e.err = "">>,
     <<"result", e.err # "" \/ e.res = U!Result(c, s, e.use)>>,
     <<"directory", e.dirs[e.n] = U!After(c, s, e.use)>>,
     <<"warning", e.err # "" \/ (e.warned <=> U!Result(c, s, e.use) = 0)>>,
     <<"downloads-despite-cache", U!Hit(c, e.use) => e.reqs = 0>>,
     <<"list-of-cached-datasets", e.err # "" \/ {e.listed[k] : k \in 1..Len(e.listed)} = {m \in DOMAIN e.dirs: e.dirs[m].k \in {"partial", "full"}}>>,
     <<"temporary-files-left", ~e.left>> >> \o Common(e, e.n)
JKill(e) ==
  LET c == cache[e.n] s == server[e.n]
      ok == e.dirs[e.n] \in U!Interrupted(c, s, e.use) \cup (IF U!Hit(c, e.use) THEN {} ELSE {U!Partial}) IN
  IF e.done /\ e.how # "full" THEN Failed(LoadClauses(e))
  ELSE IF ~e.done THEN Failed(<< <<"damaged-directory", ok>> >> \o Common(e, e.n))
  ELSE Failed(<< <<"raised " \o e.err, e.err = "">>, <<"damaged-directory", ok>>,
                 <<"result", e.err # "" \/ e.res \in {0, U!Result(c, s, e.use)}>>,
                 <<"warning", e.err # "" \/ (e.warned <=> e.res = 0)>> >> \o Common(e, e.n))
\* a name that is no dataset: nothing is returned, nothing changes
JOdd(e) == Failed(<< <<"raised " \o e.err, e.err = "">>, <<"result", e.err # "" \/ e.res = 0>>, <<"warning", e.err # "" \/ e.warned>>,
                     <<"another-dataset-changed", e.dirs = cache>>, <<"changed-outside-the-dataset", e.outside = << >>>> >>)
JNames(e) == IF e.err # "" THEN {"raised " \o e.err}
             ELSE Failed(<< <<"univariate", e.uni = e.wuni>>, <<"multivariate", e.multi = e.wmulti>>, <<"all", e.all = e.wuni \o e.wmulti>>, <<"accuracy", e.acc = e.wacc>> >>)
Judge(e) ==
  CASE e.k \in {"start", "publish"} -> {}
    [] e.k = "load" -> Failed(LoadClauses(e))
    [] e.k = "kill" -> JKill(e)
    [] e.k = "odd" -> JOdd(e)
    [] e.k = "names" -> JNames(e)
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ cache = << >> /\ server = << >>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ Report(Trace[l], Judge(Trace[l]))
        /\ LET e == Trace[l] IN
           /\ cache' = IF e.k = "names" THEN cache ELSE e.dirs
           /\ server' = IF e.k = "start" THEN e.server ELSE IF e.k = "publish" THEN [server EXCEPT ![e.n] = e.x] ELSE server
Spec == Init /\ [][Next]_<<l, cache, server>>
====
