---- MODULE T_Shapelet ----
(* Trace validation. The weights are state: "model" opens a fitted model, "shapelets" and "classes" replace weights of a layer,
   "setall" all of them; every look at the model must agree with the weights now in force. *)
EXTENDS Shapelet, TraceIO
VARIABLES l, m
\* m.S: all shapelets, in the order of the sizes; m.W[q][c], m.b[c]
Layer(sizes, i) == LET before == Sum(i - 1, LAMBDA j: sizes[j][2]) IN (before + 1)..(before + sizes[i][2])
SetLayer(S, sizes, i, new) == [q \in 1..Len(S) |-> IF q \in Layer(sizes, i) THEN new[q - MinSeq(SetToSeq(Layer(sizes, i))) + 1] ELSE S[q]]
\* a transformed value v (1024ths) of the exact value num / (64 L)
CloseT(v, num, L) == Abs(v * 64 * L - 1024 * num) <= 3 * 64 * L
C == Len(m.b)
Rows(e, P(_, _)) == \A i \in 1..Len(e.X): P(Eighths(e.X[i], m.scale), e.rows[i])
JTransform(e) == Failed(<< <<"rows", Len(e.rows) = Len(e.X)>>,
  <<"transform", Len(e.rows) = Len(e.X) => Rows(e, LAMBDA u, r: Len(r) = Len(m.S) /\ LET T == Transform(u, m.S) IN \A q \in 1..Len(m.S): CloseT(r[q], T[q], Len(m.S[q])))>>,
  <<"input-modified", ~e.mod>> >>)
JLocate(e) == Failed(<< <<"rows", Len(e.rows) = Len(e.X)>>,
  <<"locate", Len(e.rows) = Len(e.X) => Rows(e, LAMBDA u, r: Len(r) = Len(m.S) /\ \A q \in 1..Len(m.S): Located(u, m.S[q], r[q] + 1))>>,
  <<"input-modified", ~e.mod>> >>)
\* rows of a "proba" event: <<sum of the probabilities in 10^6ths, log-odds against the first class in 1024ths>>
Binary == C = 1
NC == IF Binary THEN 2 ELSE C
ScoreOf(u, c) == IF Binary THEN (IF c = 1 THEN 0 ELSE Score(u, m.S, m.W, m.b, 1)) ELSE Score(u, m.S, m.W, m.b, c)
Moderate(u) == \A c, q \in 1..NC: Abs(ScoreOf(u, c) - ScoreOf(u, q)) <= 6000
JProba(e) == Failed(<< <<"rows", Len(e.rows) = Len(e.X)>>,
  <<"sums-to-one", \A i \in 1..Len(e.rows): Abs(e.rows[i][1] - 1000000) <= 3>>,
  <<"probabilities", Len(e.rows) = Len(e.X) => Rows(e, LAMBDA u, r: Len(r[2]) = NC /\ (Moderate(u) => \A c \in 1..NC: Abs(r[2][c] - (ScoreOf(u, c) - ScoreOf(u, 1))) <= 12 + Len(m.S)))>>,
  <<"input-modified", ~e.mod>> >>)
JPredict(e) == Failed(<< <<"rows", Len(e.rows) = Len(e.X)>>,
  <<"class", Len(e.rows) = Len(e.X) => Rows(e, LAMBDA u, r: r \in 1..NC /\ (Moderate(u) => \A c \in 1..NC: ScoreOf(u, c) <= ScoreOf(u, r) + 12 + Len(m.S)))>>,
  <<"input-modified", ~e.mod>> >>)
Padded(s, n) == s \o [q \in 1..(n - Len(s)) |-> [c \in 1..Len(s[1]) |-> NANN]]
JGet(e) == Failed(<< <<"shapelets_", e.shapelets = m.S>>,
  <<"shapelets_as_time_series_", e.asts = [q \in 1..Len(m.S) |-> Padded(m.S[q], MaxSeq([j \in 1..Len(m.S) |-> Len(m.S[j])]))]>>,
  <<"get_weights", e.layers = [i \in 1..Len(m.sizes) |-> SubSeq(m.S, MinSeq(SetToSeq(Layer(m.sizes, i))), MinSeq(SetToSeq(Layer(m.sizes, i))) + m.sizes[i][2] - 1)]>>,
  <<"classification", e.W = m.W /\ e.b = m.b>>,
  <<"all-weights", e.all>> >>)
JModel(e) == Failed(<< <<"sizes", e.auto = <<>> \/ e.sizes = Sizes(e.auto[1], e.auto[2], e.auto[3], e.auto[4], e.auto[5], e.auto[6])>>,
  <<"given-sizes", e.given = <<>> \/ e.sizes = e.given>>,
  <<"shapes", e.shapes = [q \in 1..Sum(Len(e.sizes), LAMBDA i: e.sizes[i][2]) |-> <<e.sizes[CHOOSE i \in 1..Len(e.sizes): q \in Layer(e.sizes, i)][1], e.d>>]>>,
  <<"classes_", e.classes = e.expected>>,
  <<"epochs", e.niter = e.maxiter>>,
  <<"finite", e.finite>>,
  <<"input-modified", ~e.mod>> >>)
Judge(e) ==
  IF "err" \in DOMAIN e /\ e.err # "" THEN {"exception:" \o e.err}
  ELSE CASE e.k = "model" -> JModel(e)
    [] e.k \in {"shapelets", "classes", "setall"} -> {}
    [] e.k = "transform" -> JTransform(e)
    [] e.k = "locate" -> JLocate(e)
    [] e.k = "proba" -> JProba(e)
    [] e.k = "predict" -> JPredict(e)
    [] e.k = "get" -> JGet(e)
    [] e.k = "refused" -> IF e.ok THEN {} ELSE {"accepted"}
    [] e.k = "sizes" -> Failed(<< <<"default-sizes", e.out = Sizes(e.n, e.sz, e.C, e.ln, e.ld, e.r)>> >>)
    [] OTHER -> {"unknown event"}
Empty == [sizes |-> <<>>, scale |-> FALSE, S |-> <<>>, W |-> <<>>, b |-> <<>>]
Init == l = 1 /\ m = Empty
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
        /\ LET e == Trace[l] IN
           m' = CASE e.k = "model" -> [Empty EXCEPT !.sizes = e.sizes, !.scale = e.scale, !.S = [q \in 1..Len(e.shapes) |-> <<>>]]
                  [] e.k = "shapelets" -> [m EXCEPT !.S = SetLayer(m.S, m.sizes, e.i, e.new)]
                  [] e.k = "classes" -> [m EXCEPT !.W = e.W, !.b = e.b]
                  [] e.k = "setall" -> [m EXCEPT !.S = e.S, !.W = e.W, !.b = e.b]
                  [] OTHER -> m
Spec == Init /\ [][Next]_<<l, m>>
====
