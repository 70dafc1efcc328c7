---- MODULE UcrCache ----
(* The cache of downloaded datasets (tslearn.datasets.UCR_UEA_datasets): one directory per dataset, a server, loads that may be
   interrupted at any point.  Directory states: absent, a plain file in its place, a directory without a complete pair of files,
   or a complete copy of one version.  Server states: a version, or one of several failures. *)
EXTENDS Core
CONSTANTS Names, Versions

Absent == [k |-> "absent", v |-> 0]
PlainFile == [k |-> "file", v |-> 0]
Partial == [k |-> "partial", v |-> 0]
Full(v) == [k |-> "full", v |-> v]
DirStates == {Absent, PlainFile, Partial} \cup {Full(v) : v \in Versions}
Failures == {"down", "notfound", "badzip", "truncated"}
Incomplete == {"trainonly", "otherformat"}
ServerStates == {[k |-> f, v |-> 0] : f \in Failures \cup Incomplete} \cup {[k |-> "ok", v |-> v] : v \in Versions}

Hit(c, use) == use /\ c.k = "full"
\* what a load that runs to its end leaves in the directory and returns (0: nothing, with a RuntimeWarning)
After(c, s, use) == IF Hit(c, use) THEN c
                    ELSE IF s.k = "ok" THEN Full(s.v)
                    ELSE IF s.k \in Incomplete THEN Partial ELSE c
Result(c, s, use) == IF Hit(c, use) THEN c.v ELSE IF s.k = "ok" THEN s.v ELSE 0
\* the directory after a load that was killed, or that ran out of disk space
Interrupted(c, s, use) == IF Hit(c, use) THEN {c} ELSE {c, Absent, After(c, s, use)}

VARIABLES cache, server, result
vars == <<cache, server, result>>
Init == /\ cache \in [Names -> {Absent, PlainFile, Partial}] /\ server \in [Names -> ServerStates] /\ result = [n \in Names |-> 0]
Publish(n) == \E s \in ServerStates: server' = [server EXCEPT ![n] = s] /\ UNCHANGED <<cache, result>>
Load(n, use) == /\ result' = [result EXCEPT ![n] = Result(cache[n], server[n], use)]
                /\ cache' = [cache EXCEPT ![n] = After(cache[n], server[n], use)] /\ UNCHANGED server
Kill(n, use) == /\ \E c \in Interrupted(cache[n], server[n], use): cache' = [cache EXCEPT ![n] = c]
                /\ result' = [result EXCEPT ![n] = 0] /\ UNCHANGED server
Next == \E n \in Names: Publish(n) \/ \E use \in BOOLEAN: Load(n, use) \/ Kill(n, use)
Spec == Init /\ [][Next]_vars

TypeOk == cache \in [Names -> DirStates] /\ server \in [Names -> ServerStates]
\* whatever a load returns is a complete version, and that version is then in the cache
ReturnsCached == \A n \in Names: result[n] # 0 => result[n] \in Versions
\* a load never loses a complete copy unless the server's copy replaces it or it was interrupted
Keeps == [][\A n \in Names: (cache[n].k = "full" /\ cache'[n] # cache[n]) => (cache'[n] = Absent \/ server[n].k \in {"ok"} \cup Incomplete)]_vars
\* only one dataset's directory changes at a time
Frame == [][Cardinality({n \in Names: cache'[n] # cache[n]}) <= 1]_vars
\* a complete copy stays usable without the server
Offline == \A n \in Names: cache[n].k = "full" => Result(cache[n], [k |-> "down", v |-> 0], TRUE) = cache[n].v
====
