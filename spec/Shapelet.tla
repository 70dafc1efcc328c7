---- MODULE Shapelet ----
(* Learning shapelets, inference: a model holds shapelets s (sequences of points, in eighths) and a classification layer (64ths). The
   shapelet transform of a series is, for each shapelet, the smallest mean squared distance to a window of the series; a class has a
   score linear in the transform. Missing time stamps at the end of a series are not part of it. *)
EXTENDS Core
\* the series in eighths: as it is, or every feature scaled to [0, 1] (ranges dividing 8; constant features become 0)
Feature(x, c) == [t \in 1..Len(x) |-> x[t][c]]
Span(x, c) == LET r == MaxSeq(Feature(x, c)) - MinSeq(Feature(x, c)) IN IF r = 0 THEN 1 ELSE r
Eighths(x, scale) == [t \in 1..Len(x) |-> [c \in 1..Len(x[1]) |-> IF scale THEN ((x[t][c] - MinSeq(Feature(x, c))) * 8) \div Span(x, c) ELSE 8 * x[t][c]]]
SqWin(u, s, t) == Sum(Len(s), LAMBDA q: SqD(u[t + q - 1], s[q]))
Positions(u, s) == 1..(Len(u) - Len(s) + 1)
Smallest(u, s) == FoldLeft(LAMBDA a, t: Min2(a, SqWin(u, s, t)), INF, Idx(Len(u) - Len(s) + 1))
Transform(u, S) == [q \in 1..Len(S) |-> Smallest(u, S[q])]   \* in 64ths, times the length of the shapelet
Located(u, s, t) == t \in Positions(u, s) /\ SqWin(u, s, t) = Smallest(u, s)
\* class scores in 1024ths
Score(u, S, W, b, c) == 16 * b[c] + Sum(Len(S), LAMBDA q: (16 * W[q][c] * Smallest(u, S[q])) \div (64 * Len(S[q])))
\* default sizes: r (at most sz) multiples of floor(l sz); numbers: floor(log10(n (sz - L + 1) (C - 1))), at least 1. l = ln / ld
Digits(v) == CHOOSE q \in 1..10: v < 10^q /\ v >= 10^(q - 1)
Base(sz, ln, ld) == Max2(1, (ln * sz) \div ld)
Sizes(n, sz, C, ln, ld, r) == [i \in 1..Min2(r, sz) |-> LET L == i * Base(sz, ln, ld) IN <<L, Max2(1, Digits(n * (sz - L + 1) * (C - 1)) - 1)>>]
====
