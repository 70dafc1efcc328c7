---- MODULE Mlp ----
(* Multi-layer perceptrons on time series: a state machine of what has been trained, and the forward pass of integer weights.
   A model is [dims, net]: dims = 0 before training, -2 after failed calls of partial_fit before training, -1 when unspecified (after a
   failed fit), otherwise the number of the shape <<sz, d>> it was trained on; net = <<>> unless its weights have been replaced. Data sets are numbered; Shape(ds) is the shape of data set ds. *)
EXTENDS Core
Flat(x) == FoldLeft(LAMBDA a, p: a \o p, <<>>, x)
Relu(v) == IF v > 0 THEN v ELSE 0
Act(f, v) == IF f = "relu" THEN Relu(v) ELSE v
Affine(W, b, v) == [c \in 1..Len(b) |-> b[c] + Sum(Len(v), LAMBDA r: v[r] * W[r][c])]
\* net: <<weights, biases, activation>>; the last layer is linear
Forward(net, x) == FoldLeft(LAMBDA v, k: LET z == Affine(net[1][k], net[2][k], v) IN IF k = Len(net[2]) THEN z ELSE [c \in 1..Len(z) |-> Act(net[3], z[c])], Flat(x), Idx(Len(net[2])))
\* classes: one score (logistic, classes 1 and 2) or one per class (softmax); scores are powers of two
Scores(z) == IF Len(z) = 1 THEN <<0, z[1]>> ELSE z
Best(z) == CHOOSE c \in 1..Len(z): z[c] = MaxSeq(z) /\ \A e \in 1..(c - 1): z[e] < z[c]
Weight(z, c) == LET k == MaxSeq(z) - z[c] IN IF k > 12 THEN 0 ELSE 2^(12 - k)
\* p: probabilities times 100000
ProbaOk(z, p) == Len(p) = Len(z) /\ LET S == Sum(Len(z), LAMBDA c: Weight(z, c)) IN \A c \in 1..Len(z): p[c] >= 0 /\ p[c] <= 100001 /\ Abs(p[c] * S - 100000 * Weight(z, c)) <= 30 * S
New == [dims |-> 0, net |-> <<>>]
\* outcome of an operation: "" accepted, otherwise the exception
FitErr(m, warm, shape, bad) == IF bad THEN "ValueError" ELSE IF warm /\ m.dims > 0 /\ m.dims # shape THEN "ValueError" ELSE ""
PartialErr(m, shape, bad) == IF bad THEN "ValueError" ELSE IF m.dims > 0 /\ m.dims # shape THEN "ValueError" ELSE ""
CallErr(m, shape, bad) == IF m.dims = 0 THEN "NotFittedError" ELSE IF bad \/ m.dims # shape THEN "ValueError" ELSE ""
AfterFit(m, warm, shape, bad) == IF FitErr(m, warm, shape, bad) = "" THEN [dims |-> shape, net |-> <<>>] ELSE [dims |-> -1, net |-> <<>>]
AfterPartial(m, shape, bad) == IF PartialErr(m, shape, bad) = "" THEN [dims |-> shape, net |-> <<>>] ELSE IF m.dims = 0 THEN [dims |-> -2, net |-> <<>>] ELSE m
====
