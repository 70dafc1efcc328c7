---- MODULE LifeMC ----
(* Design model: every history of the operations over two slots. *)
EXTENDS Life
CONSTANTS Depth
VARIABLES m, n, last, h
Slots == 1..2
Ops == [k: {"new", "set"}, m: Slots, c: 1..2] \cup [k: {"fit", "fitout"}, m: Slots, f: 1..2] \cup [k: {"badfit", "params", "noise", "call", "badcall"}, m: Slots]
       \cup [k: {"clone", "copy"}, m: Slots, to: Slots]
Init == m = [i \in Slots |-> None] /\ n = 0 /\ last = [k |-> "", m |-> 1] /\ h = [i \in Slots |-> <<>>]
\* h: for every slot, the operations that made the estimator in it what it is (copying copies them, cloning keeps the parameters)
Made(i, o) == CASE o.k = "new" /\ o.m = i -> <<o>>
                [] o.k \in {"fit", "fitout", "badfit", "set"} /\ o.m = i /\ h[i] # <<>> -> Append(h[i], o)
                [] o.k = "copy" /\ o.to = i /\ h[o.m] # <<>> -> h[o.m]
                [] o.k = "clone" /\ o.to = i /\ h[o.m] # <<>> -> <<[k |-> "new", m |-> i, c |-> m[o.m].c]>>
                [] OTHER -> h[i]
Next == n < Depth /\ n' = n + 1 /\ \E o \in Ops: m' = Do(m, o).m /\ last' = o /\ h' = [i \in Slots |-> Made(i, o)]
Spec == Init /\ [][Next]_<<m, n, last, h>>
\* the parameters are those last set; a fitted estimator was fitted with its present parameters, after every failure
LastOf(s, K) == LET I == {j \in 1..Len(s): s[j].k \in K} IN IF I = {} THEN 0 ELSE CHOOSE j \in I: \A q \in I: q <= j
Config == \A i \in Slots: m[i].c # 0 => LET j == LastOf(h[i], {"new", "set"}) IN j > 0 /\ h[i][j].c = m[i].c
Fresh == \A i \in Slots: Fitted(m[i]) => LET j == LastOf(h[i], {"fit", "fitout"}) IN
  /\ j > 0 /\ h[i][j].f = m[i].f
  /\ \A q \in (j + 1)..Len(h[i]): h[i][q].k # "badfit" /\ h[i][q].k # "new" /\ (h[i][q].k = "set" => h[i][q].c = m[i].c)
Unfitted == \A i \in Slots: m[i].c # 0 /\ m[i].f = 0 => LastOf(h[i], {"fit", "fitout", "badfit"}) = 0
\* an operation concerns only its slot (the target of copies and clones); looking changes nothing
Frame == [][ \A i \in Slots: m'[i] # m[i] => last'.k \notin {"params", "noise", "call", "badcall"}
             /\ i = IF last'.k \in {"clone", "copy"} THEN last'.to ELSE last'.m ]_<<m, n, last, h>>
====
