---- MODULE T_Walk ----
(* Trace validation of random_walks and random_walk_blobs.  "start" opens a history with calls e.calls (parameter records); sources 0 (global), 1, 2 *)
EXTENDS Walk, TraceIO
VARIABLES l, src, known, calls
\* the steps of a call at a position: the standardised steps are the same for all mu, std (a, b: values <<steps - mu, std>>)
Flat(X) == FoldLeft(LAMBDA a, i: a \o FoldLeft(LAMBDA b, j: b \o Steps(X[i], j), <<>>, Idx(Len(X[i][1]))), <<>>, Idx(Len(X)))
Kind(c) == <<c.fn, c.n, c.sz, c.d, c.blobs, c.noise>>
Val(c, X) == LET f == Flat(X) IN IF c.fn = "walks" THEN [i \in 1..Len(f) |-> f[i] - c.mu * U] ELSE f
Same(c, x, k) ==
  IF c.fn = "walks" THEN Len(x) = Len(k.val) /\ \A i \in 1..Len(x): Abs((x[i] \div 16) * k.std - (k.val[i] \div 16) * c.std) <= 3 * (Abs(c.std) + Abs(k.std)) + 3
  ELSE x = k.val
ShapeOk(c, X) == Len(X) = (IF c.fn = "walks" THEN c.n ELSE c.n * c.blobs) /\ \A i \in 1..Len(X): Len(X[i]) = c.sz /\ \A t \in 1..c.sz: Len(X[i][t]) = c.d
Before(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
Other(p, q) == p[1] # q[1] \/ Before(p[2], q[2]) \/ Before(q[2], p[2])
Pos(e) == IF e.g = 3 THEN Fresh(e.s) ELSE src[e.g + 1]
JDraw(e) ==
  LET c == calls[e.c] IN
  IF e.err # "" THEN {"raised " \o e.err}
  ELSE IF ~ShapeOk(c, e.X) THEN {"shape"}
  ELSE LET x == Val(c, e.X)
           p == <<Pos(e), Kind(c)>>
           rows == Len(e.X)
       IN Failed(<<
         <<"not-determined-by-seed", \A k \in known: k.p = p => Same(c, x, k)>>,
         \* another seed, or later draws from the same source: other numbers
         <<"same-numbers-again", \A k \in known: (Other(k.p[1], p[1]) /\ k.p[2] = p[2] /\ Len(x) >= 3 /\ (c.fn = "blobs" \/ (c.std # 0 /\ k.std # 0))) => ~Same(c, x, k)>>,
         <<"deterministic-walk", c.fn = "walks" /\ c.std = 0 => \A i \in 1..Len(x): Abs(x[i]) <= 1>>,
         <<"blob-members", c.fn = "blobs" /\ c.noise = 0 => \A i, j \in 1..rows: (Member(i, c.n) = Member(j, c.n)) <=> (e.X[i] = e.X[j])>>,
         <<"noise", c.fn = "blobs" /\ c.noise # 0 => \A i, j \in 1..rows: i # j => \A t \in 1..c.sz, a \in 1..c.d: e.X[i][t][a] # e.X[j][t][a]>>,
         <<"labels", c.fn = "blobs" => e.y = Labels(c.n, c.blobs)>>,
         <<"parameters", ~e.mod>> >>)
\* z: standardised numbers (hundredths) of one large call, lags k at which other features, series or times follow
JMoments(e) ==
  IF e.err # "" THEN {"raised " \o e.err}
  ELSE Failed(<< <<"mean", MeanOk(e.z)>>, <<"variance", VarOk(e.z)>>, <<"normal", ShareOk(e.z)>>,
         <<"correlated", \A i \in 1..Len(e.lags): LagOk(e.z, e.lags[i])>> >>)
JDefaults(e) == Failed(<< <<"default-shape", e.shape = e.want>>, <<"default-labels", e.labels>> >>)
Judge(e) ==
  CASE e.k = "start" -> {}
    [] e.k = "seed" -> {}
    [] e.k = "draw" -> JDraw(e)
    [] e.k = "moments" -> JMoments(e)
    [] e.k = "defaults" -> JDefaults(e)
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ src = <<>> /\ known = {} /\ calls = <<>>
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
  /\ LET e == Trace[l] IN
     /\ calls' = IF e.k = "start" THEN e.calls ELSE calls
     /\ src' = CASE e.k = "start" -> [g \in 1..3 |-> Fresh(1)]
                 [] e.k = "seed" -> [src EXCEPT ![e.g + 1] = Fresh(e.s)]
                 [] e.k = "draw" /\ e.g # 3 -> [src EXCEPT ![e.g + 1] = Drawn(src[e.g + 1], Kind(calls[e.c]))]
                 [] OTHER -> src
     /\ known' = CASE e.k = "start" -> {}
                   [] e.k = "draw" -> IF e.err = "" /\ ShapeOk(calls[e.c], e.X)
                                      THEN known \cup {[p |-> <<Pos(e), Kind(calls[e.c])>>, std |-> calls[e.c].std, val |-> Val(calls[e.c], e.X)]} ELSE known
                   [] OTHER -> known
Spec == Init /\ [][Next]_<<l, src, known, calls>>
====
