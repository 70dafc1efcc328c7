---- MODULE SerialMC ----
(* Design model: histories over two slots, two paths and two configurations; h remembers what was last saved successfully. *)
EXTENDS Serial
CONSTANTS Kinds, Depth
VARIABLES m, d, kind, last, ghost, n
vars == <<m, d, kind, last, ghost, n>>
Slots == 1..2
Paths == 1..2
Ops == [k: {"new"}, m: Slots, c: 1..2] \cup [k: {"fit"}, m: Slots, f: 1..2] \cup [k: {"refit"}, m: Slots, c: 1..2, f: 1..2]
       \cup [k: {"clone", "copy"}, m: Slots, to: Slots] \cup [k: {"save", "load"}, m: Slots, p: Paths, fmt: Formats] \cup [k: {"delete"}, p: Paths]
Init == /\ m = [i \in Slots |-> None] /\ d = [p \in Paths |-> Missing] /\ kind \in [1..2 -> Kinds] /\ n = 0
        /\ last = [o |-> [k |-> ""], ok |-> TRUE] /\ ghost = [p \in Paths |-> Missing]
Next == /\ n < Depth /\ n' = n + 1 /\ \E o \in Ops:
          LET r == Do(kind, m, d, o) IN
          /\ m' = r.m /\ d' = r.d /\ last' = [o |-> o, ok |-> r.ok]
          /\ ghost' = IF o.k = "save" /\ r.ok /\ m[o.m].c # 0 THEN [ghost EXCEPT ![o.p] = [fmt |-> o.fmt, c |-> m[o.m].c, f |-> m[o.m].f]]
                      ELSE IF o.k = "delete" THEN [ghost EXCEPT ![o.p] = Missing] ELSE ghost
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
\* a path holds what was last saved there; only what can be represented, and (but for Python pickles) only fitted estimators
Durable == d = ghost /\ \A p \in Paths: d[p].fmt # "" => CanSave(kind[d[p].c], d[p].fmt) /\ (d[p].fmt # "py" => d[p].f # 0)
\* a failed operation changes nothing; saving changes no estimator; loading changes no file
Frame == [][ /\ ~last'.ok => m' = m /\ d' = d
             /\ last'.o.k = "save" => m' = m
             /\ last'.o.k # "save" /\ last'.o.k # "delete" => d' = d ]_vars
\* HDF5 never replaces a file
NoOverwrite == [][ last'.o.k = "save" /\ last'.o.fmt = "hdf5" => \A p \in Paths: d[p].fmt # "" => d'[p] = d[p] ]_vars
\* save, then load into another slot: the same estimator
RoundTrip == \A i, j \in Slots: \A p \in Paths: \A fmt \in Formats:
  LET s == Do(kind, m, d, [k |-> "save", m |-> i, p |-> p, fmt |-> fmt]) IN
  s.ok /\ m[i].c # 0 => Do(kind, s.m, s.d, [k |-> "load", m |-> j, p |-> p, fmt |-> fmt]).m[j] = m[i]
====
