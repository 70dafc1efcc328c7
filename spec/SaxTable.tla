---- MODULE SaxTable ----
(* Quantiles of the standard normal distribution in units of 1e-8, for alphabets of 2..12 symbols:
   the n-1 breakpoints k/n and the n medians (2k-1)/(2n). *)
EXTENDS Integers
BpT ==
  <<<<0>>,
  <<-43072730, 43072730>>,
  <<-67448975, 0, 67448975>>,
  <<-84162123, -25334710, 25334710, 84162123>>,
  <<-96742157, -43072730, 0, 43072730, 96742157>>,
  <<-106757052, -56594882, -18001237, 18001237, 56594882, 106757052>>,
  <<-115034938, -67448975, -31863936, 0, 31863936, 67448975, 115034938>>,
  <<-122064035, -76470967, -43072730, -13971030, 13971030, 43072730, 76470967, 122064035>>,
  <<-128155157, -84162123, -52440051, -25334710, 0, 25334710, 52440051, 84162123, 128155157>>,
  <<-133517774, -90845787, -60458535, -34875570, -11418529, 11418529, 34875570, 60458535, 90845787, 133517774>>,
  <<-138299413, -96742157, -67448975, -43072730, -21042839, 0, 21042839, 43072730, 67448975, 96742157, 138299413>>>>
MdT ==
  <<<<-67448975, 67448975>>,
  <<-96742157, 0, 96742157>>,
  <<-115034938, -31863936, 31863936, 115034938>>,
  <<-128155157, -52440051, 0, 52440051, 128155157>>,
  <<-138299413, -67448975, -21042839, 21042839, 67448975, 138299413>>,
  <<-146523379, -79163861, -36610636, 0, 36610636, 79163861, 146523379>>,
  <<-153412054, -88714656, -48877641, -15731068, 15731068, 48877641, 88714656, 153412054>>,
  <<-159321882, -96742157, -58945580, -28221615, 0, 28221615, 58945580, 96742157, 159321882>>,
  <<-164485363, -103643339, -67448975, -38532047, -12566135, 12566135, 38532047, 67448975, 103643339, 164485363>>,
  <<-169062163, -109680356, -74785859, -47278912, -22988412, 0, 22988412, 47278912, 74785859, 109680356, 169062163>>,
  <<-173166440, -115034938, -81221780, -54852228, -31863936, -10463346, 10463346, 31863936, 54852228, 81221780, 115034938, 173166440>>>>
Bp(n) == BpT[n - 1]
Md(n) == MdT[n - 1]
====
