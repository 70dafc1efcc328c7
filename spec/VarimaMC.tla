---- MODULE VarimaMC ----
(* Laws of differencing and forecasting on every small series. *)
EXTENDS Varima
CONSTANTS V, N, MaxD, Seasons
VARIABLES x, d, S
vars == <<x, d, S>>
Init == x = <<>> /\ d \in 0..MaxD /\ S \in Seasons
Next == Len(x) < N /\ \E v \in (-V)..V: x' = Append(x, <<v>>) /\ UNCHANGED <<d, S>>
Spec == Init /\ [][Next]_vars
Enough(k) == Len(x) >= d + S + k
Pre == SubSeq(x, 1, Len(x) - 1)
\* integrating undoes differencing
Undoes == Enough(2) => LET w == DiffN(SDiff(x, S), d) IN Unseason(Pre, S, Undiff(SDiff(Pre, S), d, Last(w))) = Last(x)
\* seasonal and ordinary differencing commute
Commute == Enough(1) => DiffN(SDiff(x, S), d) = SDiff(DiffN(x, d), S)
Models == {<<<<>>, <<>>>>, <<<<2>>, <<>>>>, <<<<1>>, << <<<<1>>>> >>>>, <<<<>>, << <<<<-1>>>>, <<<<1>>>> >>>>, <<<<0>>, << <<<<2>>>>, <<<<-1>>>> >>>>}
F(y, m, n) == Forecast(y, m[1], m[2], <<>>, d, S, n, 1, 1)
\* the forecast of n + 1 steps starts with that of n steps; forecasting from the extended series continues it
Steps == \A m \in Models: Enough(Len(m[2]) + 1) => LET f == F(x, m, 3) IN SubSeq(f, 1, 2) = F(x, m, 2) /\ F(x \o SubSeq(f, 1, 1), m, 2) = SubSeq(f, 2, 3)
\* without autoregression the differences of the forecast are the intercept: polynomials continue
Poly == \A m \in {<<<<>>, <<>>>>, <<<<2>>, <<>>>>}: Enough(1) =>
  LET y == x \o F(x, m, 3) w == DiffN(SDiff(y, S), d) IN \A t \in (Len(w) - 2)..Len(w): w[t] = (IF m[1] = <<>> THEN <<0>> ELSE m[1])
\* a series that obeys the model has no errors
Exact == \A m \in Models: Enough(Len(m[2]) + 1) =>
  LET y == SubSeq(x, 1, d + S + Len(m[2])) z == IF Len(y) > 0 THEN y \o F(y, m, 4) ELSE y w == DiffN(SDiff(z, S), d) e == Errors(w, m[1], m[2], <<>>, 1, 1, 1) IN
  Len(y) > 0 => \A t \in 1..Len(e): e[t] = <<0>>
\* errors of a moving average reproduce the series
MaTwo == Enough(3) => LET w == DiffN(SDiff(x, S), d) MA == << <<<<1>>>>, <<<<-1>>>> >> e == Errors(w, <<>>, <<>>, MA, 1, 1, 1) IN
  \A t \in 3..Len(w): w[t][1] = e[t][1] + e[t - 1][1] - e[t - 2][1]
====
