---- MODULE MlpMC ----
(* Design model: the state machine of training, and laws of the forward pass on all small nets and series. *)
EXTENDS Mlp
CONSTANTS V, Depth
VARIABLES m, warm, n, x, net, act
Vs == (-V)..V
Nets == {<<1, 1>>, <<2, 1>>, <<2, 2>>}
Init == /\ m = New /\ warm \in BOOLEAN /\ n = 0 /\ act \in {"relu", "identity"}
        /\ x \in [1..2 -> [1..1 -> Vs]]
        /\ net \in [1..2 -> [1..2 -> Vs]]
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED <<warm, x, net, act>>
        /\ \E s \in 1..2, bad \in BOOLEAN: m' = AfterFit(m, warm, s, bad) \/ m' = AfterPartial(m, s, bad)
Spec == Init /\ [][Next]_<<m, warm, n, x, net, act>>
W2 == << <<1, -1, 2>>, <<0, 2, -1>> >>
N2 == << <<net, W2>>, << <<0, 1>>, <<1, 0, -1>> >>, act>>
Z == Forward(N2, x)
\* the fold equals the formula written out
H(c) == Act(act, <<0, 1>>[c] + x[1][1] * net[1][c] + x[2][1] * net[2][c])
Formula == Z = [c \in 1..3 |-> <<1, 0, -1>>[c] + H(1) * W2[1][c] + H(2) * W2[2][c]]
\* probabilities: the best class has the largest weight, equal scores equal weights
Probs == \A c \in 1..3: Weight(Z, c) <= Weight(Z, Best(Z)) /\ (Z[c] = Z[Best(Z)] <=> Weight(Z, c) = 4096)
Uniform == ProbaOk(<<0, 0>>, <<50000, 50000>>) /\ ~ProbaOk(<<0, 1>>, <<66667, 33333>>) /\ ProbaOk(<<0, 1>>, <<33333, 66667>>)
\* training state
Kept == \A s \in 1..2: (m.dims # 0 => AfterPartial(m, s, TRUE) = m) /\ (m.dims > 0 /\ m.dims # s => AfterPartial(m, s, FALSE) = m)
Trained == /\ m.dims \in {0, -2} => \A s \in 1..2: PartialErr(m, s, FALSE) = "" /\ FitErr(m, warm, s, FALSE) = ""
           /\ m.dims = 0 => \A s \in 1..2: CallErr(m, s, FALSE) = "NotFittedError"
====
