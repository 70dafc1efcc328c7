---- MODULE T_Elastic ----
(* Trace validation of the alignment measures: each event is one call of the public API with its inputs and results. *)
EXTENDS Elastic, TraceIO
VARIABLE l

\* local cost of the event: by metric of the points, or a given matrix
Cost(e, i, j) ==
  CASE e.c = "sq" -> SqD(e.x[i], e.y[j])
    [] e.c = "city" -> CityD(e.x[i], e.y[j])
    [] e.c = "cheb" -> ChebD(e.x[i], e.y[j])
    [] OTHER -> e.D[i][j]
SizeX(e) == IF e.c = "mat" THEN Len(e.D) ELSE Len(e.x)
SizeY(e) == IF e.c = "mat" THEN Len(e.D[1]) ELSE Len(e.y)
Open(e) == e.gc.t = "ita" /\ ItaTie(SizeX(e), SizeY(e), e.gc.a, e.gc.b)

\* a path (if one was returned) is admissible and attains the value
PathClauses(e, n, m, Ok(_, _), v, Val(_)) ==
  IF ~e.hasp \/ v >= INF THEN <<>>
  ELSE LET g == PathInGrid(e.p, n, m) IN
       << <<"path-in-grid", g>>,
          <<"path-ends", g => PathEnds(e.p, n, m)>>,
          <<"path-steps", g => PathMoves(e.p)>>,
          <<"path-in-region", g => PathRegion(e.p, Ok)>>,
          <<"path-attains-value", g => Val(e.p) = v>> >>

JOpt(e, kind) ==
  LET n == SizeX(e) m == SizeY(e)
      reg == RegionMatrix(e.gc, n, m)
      cost == [i \in 1..n |-> [j \in 1..m |-> Cost(e, i, j)]]
      Ok(i, j) == reg[i][j]
      C(i, j) == cost[i][j]
      PS(p) == PathSum(p, C)
      PM(p) == PathMax(p, C)
  IN IF Open(e) THEN {}
     ELSE IF Refused(e.gc, n, m) THEN Failed(<< <<"infeasible-region-refused", e.err # "">> >>)
     ELSE IF e.err # "" THEN {"raised " \o e.err}
     ELSE IF kind = "dtw"
          THEN LET v == Dtw(n, m, C, Ok) IN Failed(<< <<"optimal-value", e.v = v>> >> \o PathClauses(e, n, m, Ok, v, PS))
          ELSE LET v == Fre(n, m, C, Ok) IN Failed(<< <<"optimal-value", e.v = v>> >> \o PathClauses(e, n, m, Ok, v, PM))

JLcss(e) ==
  LET n == SizeX(e) m == SizeY(e)
      reg == RegionMatrix(e.gc, n, m)
      cost == [i \in 1..n |-> [j \in 1..m |-> Cost(e, i, j)]]
      Ok(i, j) == reg[i][j]
      Match(i, j) == cost[i][j] <= e.eps
  IN IF Open(e) THEN {}
     ELSE IF Refused(e.gc, n, m) THEN Failed(<< <<"infeasible-region-refused", e.err # "">> >>)
     ELSE IF e.err # "" THEN {"raised " \o e.err}
     ELSE LET v == Lcss(n, m, Match, Ok) IN
          Failed(<< <<"longest-common-subsequence", e.v = v>>,
                    <<"path-is-common-subsequence", e.hasp => ChainOk(e.p, n, m, Match, Ok)>>,
                    <<"path-attains-value", e.hasp => Len(e.p) = v>> >>)

JSub(e) ==
  LET n == Len(e.x) m == Len(e.y)
      cost == [i \in 1..n |-> [j \in 1..m |-> SqD(e.x[i], e.y[j])]]
      C(i, j) == cost[i][j]
      g == SubGrid(n, m, C)
      v == MinSeq(g[n])
      inb == PathInGrid(e.p, n, m)
  IN IF e.err # "" THEN {"raised " \o e.err}
     ELSE Failed(<< <<"best-match-value", e.v = v>>,
             <<"path-in-grid", inb>>,
             <<"path-covers-query", inb => e.p[1][1] = 0 /\ e.p[Len(e.p)][1] = n - 1>>,
             <<"path-steps", inb => PathMoves(e.p)>>,
             <<"path-attains-value", inb => PathSum(e.p, C) = v>> >>)
\* subsequence_cost_matrix, and subsequence_path from any end column
JSubM(e) ==
  LET n == Len(e.x) m == Len(e.y)
      cost == [i \in 1..n |-> [j \in 1..m |-> SqD(e.x[i], e.y[j])]]
      C(i, j) == cost[i][j]
      g == SubGrid(n, m, C)
      inb == PathInGrid(e.p, n, m)
  IN IF e.err # "" THEN {"raised " \o e.err}
     ELSE Failed(<< <<"cost-matrix", e.M = g>>,
             <<"path-in-grid", inb>>,
             <<"path-covers-query", inb => e.p[1][1] = 0 /\ e.p[Len(e.p)] = <<n - 1, e.end>> >>,
             <<"path-steps", inb => PathMoves(e.p)>>,
             <<"path-attains-value", inb => PathSum(e.p, C) = g[n][e.end + 1]>> >>)
JLim(e) ==
  LET n == Len(e.x) m == Len(e.y)
      cost == [i \in 1..n |-> [j \in 1..m |-> SqD(e.x[i], e.y[j])]]
      C(i, j) == cost[i][j]
      All(i, j) == TRUE
      PS(p) == PathSum(p, C)
  IN IF e.L < Max2(n, m) THEN Failed(<< <<"too-short-length-refused", e.err = "ValueError">> >>)
     ELSE IF e.err # "" THEN {"raised " \o e.err}
     ELSE LET v == LimDtw(n, m, e.L, C) IN
          Failed(<< <<"optimal-value", e.v = v>>, <<"path-length-limit", e.hasp => Len(e.p) <= e.L>> >>
                 \o PathClauses(e, n, m, All, v, PS))

JMask(e) ==
  LET gc == e.gc IN
  IF gc.t = "ita" /\ ItaTie(e.n, e.m, gc.a, gc.b) THEN {}
  ELSE IF gc.t = "ambiguous" THEN Failed(<< <<"ambiguous-parameters-reported", e.err # "">> >>)
  ELSE IF Refused(gc, e.n, e.m) THEN Failed(<< <<"infeasible-region-refused", e.err # "">> >>)
  ELSE IF e.err # "" THEN {"raised " \o e.err}
  ELSE Failed(<< <<"region-cells", e.M = RegionMatrix(gc, e.n, e.m)>> >>)

JEnv(e) ==
  LET n == Len(e.x) d == Len(e.x[1])
      col(k) == [i \in 1..n |-> e.x[i][k]]
      lo == [i \in 1..n |-> [k \in 1..d |-> EnvLo(col(k), e.r, i)]]
      hi == [i \in 1..n |-> [k \in 1..d |-> EnvHi(col(k), e.r, i)]]
  IN IF e.err # "" THEN {"raised " \o e.err}
     ELSE Failed(<< <<"envelope-down", e.lo = lo>>, <<"envelope-up", e.hi = hi>> >>)
JLb(e) ==
  LET n == Len(e.x)
      q == [i \in 1..n |-> e.x[i][1]]
      c == [i \in 1..n |-> e.y[i][1]]
      lo == [i \in 1..n |-> EnvLo(c, e.r, i)]
      hi == [i \in 1..n |-> EnvHi(c, e.r, i)]
      C(i, j) == Sq(q[i] - c[j])
      Ok(i, j) == SakoeOk(n, n, e.r, i, j)
  IN IF e.err # "" THEN {"raised " \o e.err}
     ELSE Failed(<< <<"lb-value", e.v = LbKeogh2(q, lo, hi)>>,
             <<"lb-is-lower-bound", e.v <= Dtw(n, n, C, Ok)>>,
             <<"lb-below-dtw-returned", e.v <= e.dtw>> >>)

Judge(e) ==
  CASE e.k = "dtw" -> JOpt(e, "dtw")
    [] e.k = "fre" -> JOpt(e, "fre")
    [] e.k = "lcss" -> JLcss(e)
    [] e.k = "sub" -> JSub(e)
    [] e.k = "subm" -> JSubM(e)
    [] e.k = "lim" -> JLim(e)
    [] e.k = "mask" -> JMask(e)
    [] e.k = "env" -> JEnv(e)
    [] e.k = "lb" -> JLb(e)
    [] OTHER -> {"unknown event"}

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
