---- MODULE EarlyMC ----
(* A series arriving in chunks: whatever the chunks, what the stream holds is a prefix of the series, a decision taken as soon as the rule allows it is the
   decision the rule takes on the complete series, and it does not depend on what comes later. Two clusters, two classes, error rates and membership from small grids. *)
EXTENDS Early
CONSTANTS T, EV, CT
VARIABLES err, p, ct, seen, decided
vars == <<err, p, ct, seen, decided>>
Share == << <<ONE, 0>>, <<0, ONE>> >>  \* class c makes up cluster c
\* p[u]: membership at time u; it depends on the prefix only, so one sequence stands for one series
Init == /\ err \in [1..T -> {[k \in 1..2 |-> [c \in 1..2 |-> IF c = k THEN v[k] ELSE 0]] : v \in [1..2 -> EV]}]
        /\ p \in [1..T -> {<<ONE, 0>>, <<ONE \div 2, ONE \div 2>>, <<0, ONE>>}]
        /\ ct \in CT /\ seen = 0 /\ decided = 0
Arrive == \E k \in 1..(T - seen):
   /\ seen' = seen + k
   /\ decided' = IF decided # 0 THEN decided
                 ELSE LET ok == {u \in (seen + 1)..(seen + k) : MustStop(err, Share, p[u], ct, u, T, 0)} IN
                      IF ok = {} THEN 0 ELSE CHOOSE u \in ok: \A v \in ok: u <= v
   /\ UNCHANGED <<err, p, ct>>
Next == Arrive
Spec == Init /\ [][Next]_vars
\* the rule as predict states it (first time the best delay is 0)
Tie(u) == Len(p) > 0 /\ MayStop(err, Share, p[u], ct, u, T, 0) # MustStop(err, Share, p[u], ct, u, T, 0)
Rule == decided # 0 => DecidedAt(err, Share, p, ct, 1, decided, T, 0)
InTime == seen = T => decided # 0
Past == decided <= seen
\* without a cost of time it only pays to decide when the error cannot fall; with a cost above every error rate it is decided at once
Prompt == (ct >= ONE \div 2 /\ \A u \in 1..T: \A k \in 1..2: err[u][k][k] < ONE \div 2) => decided \in {0, 1}
Patient == (ct = 0 /\ decided # 0 /\ decided < T) => \A u \in decided..T: Cost(err, Share, p[decided], 0, decided) <= Cost(err, Share, p[decided], 0, u)
\* mixing memberships mixes costs
Convex == \A u \in 1..T: Abs(2 * Cost(err, Share, <<ONE \div 2, ONE \div 2>>, 0, u) - Cost(err, Share, <<ONE, 0>>, 0, u) - Cost(err, Share, <<0, ONE>>, 0, u)) <= 4
Logi == \A x \in {0, 100, 4096, 8192, 40000, 90000}: Abs(Logistic(x) + Logistic(-x) - ONE) <= 2 /\ Logistic(x) >= ONE \div 2
LogiValues == Abs(Logistic(4096) - 7311) <= 8 /\ Abs(Logistic(8192) - 8808) <= 8 /\ Abs(Logistic(-12288) - 474) <= 8
====
