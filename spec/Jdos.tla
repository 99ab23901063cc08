-------------------------------- MODULE Jdos --------------------------------
(***************************************************************************)
(* Joint density of states at a grid point.                                *)
(*                                                                         *)
(* A base holds, per smearing s and sampling point x, the three components *)
(* g of the integration weights of all triplets and pairs of bands:        *)
(*   1: delta(f - f1 - f2)      2: delta(f + f1 - f2) - delta(f - f1 + f2) *)
(*   3: the sum of all three deltas                                        *)
(* A result is a row <collision, decay> per sampling point.                *)
(* Numbers: g 20 decimals, results 30.                                     *)
(***************************************************************************)
EXTENDS SelfEnergy
\* temperature "none": no occupation
Weight(oc, t, b1, b2, k) == LET n1 == oc[t][1][b1] n2 == oc[t][2][b2] IN
   IF n1 = "none" \/ n2 = "none" THEN "0" ELSE IF k = 1 THEN BSub(n1, n2) ELSE BAdd(BAdd(n1, n2), S)
\* k = 1: collision, 2: decay; 50 decimals
Bare(b, s, x, k) == BSum([t \in 1..Len(b.w) |-> BMul(b.w[t],
   IF k = 2 THEN BSum(b.g[s][x][1][t]) ELSE BSub(BSum(b.g[s][x][3][t]), BSum(b.g[s][x][1][t])))])
Dressed(b, tab, s, x, k) == BSum([t \in 1..Len(b.w) |-> BMul(b.w[t], BDot(tab[k][t], b.g[s][x][IF k = 2 THEN 1 ELSE 2][t]))])
WTab(b, T) == LET oc == Occ(b, T) IN TLCEval([k \in 1..2 |-> TLCEval([t \in 1..Len(b.w) |-> TLCEval([y \in 1..(b.n * b.n) |->
   Weight(oc, t, ((y-1) \div b.n) + 1, ((y-1) % b.n) + 1, k)])])])
Same(got, ex, N) == BCloseSeq(TLCEval([i \in 1..Len(got) |-> BMul(got[i], N)]), ex, BAdd(BDiv(BMaxAbs(ex), 1000000000), BMul(N, "100000000000000")), 100)
JdosInv == Of({"jdos"}) => LET b == Bases[c.b] tab == IF c.T = "none" THEN <<>> ELSE WTab(b, c.T) IN
  \A k \in 1..2 : Same([i \in 1..Len(c.got) |-> c.got[i][k]],
    TLCEval([i \in 1..Len(c.pts) |-> IF c.T = "none" THEN BMul(Bare(b, c.s, c.pts[i], k), "10000000000")
                                     ELSE BDiv(Dressed(b, tab, c.s, c.pts[i], k), "100000000000000000000")]), c.N)
\* without temperature and with the weights of smearing: all channels are
\* non-negative; the decay spectrum and the collision spectrum of all pairs
PositiveInv == Of({"jdos"}) => (c.T = "none" => \A i \in 1..Len(c.got) : \A k \in 1..2 : BLeq("-1000000000000000000", c.got[i][k]))
\* two settings which must not matter
SameInv == Of({"same"}) => BCloseSeq(c.a, c.z, BAdd("10000000000000000", BDiv(BMaxAbs(c.z), 10000000)), 100)
\* a text file: frequency and the two columns
TextInv == Of({"text"}) => /\ c.n = c.rows
                           /\ \A i \in 1..Len(c.f) : BNear(c.f[i], c.fx[i], 60000)
                           /\ \A k \in 1..2 : BCloseSeq(c.a[k], c.z[k], "1000000000000000", 100)
=============================================================================
