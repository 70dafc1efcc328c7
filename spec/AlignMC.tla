---- MODULE AlignMC ----
(* Design model of elastic alignment: walkers that build warping paths / common subsequences step by step, in every
   possible way, for every pair of small series and every constraint region.  Invariants relate what a walker can reach
   to the values that Elastic.tla defines (and that the trace checks hold the implementation to). *)
EXTENDS Elastic
CONSTANTS Vals, MaxLen
VARIABLES x, y, gc, mode, i, j, acc, mx, len
vars == <<x, y, gc, mode, i, j, acc, mx, len>>

Series == UNION {[1..n -> Vals] : n \in 1..MaxLen}
Regions == { [t |-> "none", r |-> 0, a |-> 1, b |-> 1] }
   \cup { [t |-> "sak", r |-> r, a |-> 1, b |-> 1] : r \in 0..2 }
   \cup { [t |-> "ita", r |-> 0, a |-> s[1], b |-> s[2]] : s \in {<<2, 1>>, <<3, 2>>, <<3, 1>>} }
n == Len(x)
m == Len(y)
C(a, b) == Sq(x[a] - y[b])
Ok(a, b) == Admissible(gc, n, m, a, b)
Match(a, b) == C(a, b) <= 0
G == DtwGrid(n, m, C, Ok)
F == FreGrid(n, m, C, Ok)
L == LcssGrid(n, m, Match, Ok)
LAt(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE L[a][b]

Init == /\ x \in Series /\ y \in Series /\ gc \in Regions
        /\ ~Refused(gc, Len(x), Len(y))
        /\ mode \in {"walk", "back", "chain", "cback"}
        /\ IF mode = "walk" THEN Ok(1, 1) /\ i = 1 /\ j = 1 /\ acc = C(1, 1) /\ mx = C(1, 1) /\ len = 1
           ELSE IF mode = "back" THEN G[n][m] < INF /\ i = n /\ j = m /\ acc = C(n, m) /\ mx = C(n, m) /\ len = 1
           ELSE IF mode = "chain" THEN i = 0 /\ j = 0 /\ acc = 0 /\ mx = 0 /\ len = 0
           ELSE i = n /\ j = m /\ acc = 0 /\ mx = 0 /\ len = 0
\* extend the path by one admissible unit step
Walk == /\ mode = "walk"
        /\ \E s \in Steps: /\ i + s[1] <= n /\ j + s[2] <= m /\ Ok(i + s[1], j + s[2])
                           /\ i' = i + s[1] /\ j' = j + s[2]
                           /\ acc' = acc + C(i', j') /\ mx' = Max2(mx, C(i', j')) /\ len' = len + 1
        /\ UNCHANGED <<x, y, gc, mode>>
\* retrieve an optimal path backwards, as the implementation does: to a predecessor of least accumulated cost
Pred == {<<i - s[1], j - s[2]>> : s \in Steps} \cap ((1..n) \X (1..m))
Back == /\ mode = "back" /\ <<i, j>> # <<1, 1>>
        /\ \E p \in Pred: /\ \A q \in Pred: G[p[1]][p[2]] <= G[q[1]][q[2]]
                          /\ i' = p[1] /\ j' = p[2] /\ acc' = acc + C(p[1], p[2]) /\ mx' = mx /\ len' = len + 1
        /\ UNCHANGED <<x, y, gc, mode>>
\* a common subsequence: skip a point, or match the next two points if they match inside the region
SkipX == mode = "chain" /\ i < n /\ i' = i + 1 /\ UNCHANGED <<x, y, gc, mode, j, acc, mx, len>>
SkipY == mode = "chain" /\ j < m /\ j' = j + 1 /\ UNCHANGED <<x, y, gc, mode, i, acc, mx, len>>
Take == /\ mode = "chain" /\ i < n /\ j < m /\ Ok(i + 1, j + 1) /\ Match(i + 1, j + 1)
        /\ i' = i + 1 /\ j' = j + 1 /\ acc' = acc + 1 /\ UNCHANGED <<x, y, gc, mode, mx, len>>
\* retrieve a longest common subsequence backwards
CBack == /\ mode = "cback" /\ i > 0 /\ j > 0
         /\ IF Ok(i, j) /\ Match(i, j) THEN i' = i - 1 /\ j' = j - 1 /\ acc' = acc + 1
            ELSE IF LAt(i - 1, j) > LAt(i, j - 1) THEN i' = i - 1 /\ UNCHANGED <<j, acc>>
            ELSE j' = j - 1 /\ UNCHANGED <<i, acc>>
         /\ UNCHANGED <<x, y, gc, mode, mx, len>>
Next == Walk \/ Back \/ SkipX \/ SkipY \/ Take \/ CBack
Spec == Init /\ [][Next]_vars /\ WF_vars(Back \/ CBack)

\* no path is better than the specified optimum, in any prefix
NoBetter == mode = "walk" => /\ acc >= G[i][j] /\ mx >= F[i][j]
                             /\ len <= n + m - 1
                             /\ (i = n /\ j = m) => acc >= LimDtw(n, m, len, C)
\* the optimum is attained: what the backward retrieval has collected plus what remains is the total
Attained == mode = "back" => /\ Ok(i, j) /\ acc - C(i, j) + G[i][j] = G[n][m] /\ len <= n + m - 1
BackArrives == mode = "back" => <>(i = 1 /\ j = 1)
NoLonger == mode = "chain" => acc <= LAt(i, j)
LcssAttained == mode = "cback" => acc + LAt(i, j) = L[n][m]
CBackArrives == mode = "cback" => <>(i = 0 \/ j = 0)

\* laws between the measures, for every pair of series (checked once per pair)
AllOk(a, b) == TRUE
Ct(a, b) == C(b, a)
Okt(a, b) == Ok(b, a)
At0 == mode = "walk" /\ len = 1
Laws == At0 =>
  /\ gc.t # "ita" => Dtw(m, n, Ct, LAMBDA a, b: Admissible(gc, m, n, a, b)) = G[n][m]     \* symmetry
  /\ Fre(n, m, C, Ok) <= G[n][m]
  /\ Dtw(n, m, C, AllOk) <= G[n][m]                                                      \* a region can only cost
  /\ SubDtw(n, m, C) <= Dtw(n, m, C, AllOk)
  /\ LimDtw(n, m, n + m - 1, C) = Dtw(n, m, C, AllOk)
  /\ LimDtw(n, m, Max2(n, m), C) >= LimDtw(n, m, Max2(n, m) + 1, C)
  /\ (n = m /\ gc.t = "sak") => LbKeogh2(x, [k \in 1..n |-> EnvLo(y, gc.r, k)], [k \in 1..n |-> EnvHi(y, gc.r, k)]) <= G[n][m]
  /\ (x = y) => G[n][m] = 0 /\ L[n][m] = n
  /\ gc.t = "sak" => (G[n][m] < INF /\ \A a \in 1..n, b \in 1..m: Ok(a, b) = SakoeOk(m, n, gc.r, b, a))
====
