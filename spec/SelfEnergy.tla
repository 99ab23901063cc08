----------------------------- MODULE SelfEnergy -----------------------------
(***************************************************************************)
(* Imaginary part of the phonon self-energy.                               *)
(*                                                                         *)
(* A base (Data.bases) is what enters: strengths v of the triplets of a    *)
(* grid point for all bands, integration weights (two components) at the   *)
(* sampling points (the first ones being the frequencies of the bands),    *)
(* frequencies, triplet weights and addresses.  A case is a result the     *)
(* code got from some route for some temperature, bands and points.        *)
(* Frequencies, temperatures: 12 decimals.  Strengths, weights and results *)
(* have 40, 20 and 60 - Data.shift decimals.                               *)
(***************************************************************************)
EXTENDS Cases, Lattice, BigNum, TLCExt, SequencesExt
c == Case
Bases == Data.bases
S == "1000000000000000000000000000000"  \* 10^30
E12 == "1000000000000"
\* h THz / kB in K, 15 decimals
HK == "47992398658977166"
Of(k) == IsCase /\ c.kind \in k
\* -------------------------------------------------------------- occupation
\* Bose-Einstein occupation number of frequency f (12 decimals) at T (12), in 1/S
Bose(f, T) == LET a == BDiv(BMul(BMul(f, HK), "1000000000000000"), T) IN
  IF BLeq(BMul(S, 300), a) THEN "0" ELSE BDiv(BMul(S, S), BSub(BExp(a, S), S))
\* -------------------------------------------------------------- summation
NB(b) == b.n
Fl(b, b0, b1, b2) == (b0-1)*b.n*b.n + (b1-1)*b.n + b2
Gi(b, b1, b2) == (b1-1)*b.n + b2
\* occupation numbers of the second and third phonon of every triplet; below
\* the cutoff frequency modes take no part ("none")
Occ(b, T) == TLCEval([t \in 1..Len(b.w) |-> TLCEval([l \in 1..2 |-> TLCEval([k \in 1..b.n |->
   IF ~BLeq(b.f[t][l][k], b.cut) THEN IF T = "0" THEN "0" ELSE Bose(b.f[t][l][k], T) ELSE "none"])])])
\* factor in 1/S times weights of decimals 20, at point x (index into the points)
Pair(b, oc, s, t, b1, b2, x, cls) == LET n1 == oc[t][1][b1] n2 == oc[t][2][b2]
     ga == IF cls = 1 THEN 0 ELSE b.g[s][x][1][t][Gi(b, b1, b2)]
     gb == IF cls = 2 THEN 0 ELSE b.g[s][x][2][t][Gi(b, b1, b2)]
  IN IF n1 = "none" \/ n2 = "none" THEN "0"
     ELSE BAdd(BMul(BAdd(BAdd(n1, n2), S), ga), BMul(BSub(n1, n2), gb))
\* one triplet, one first band; without the triplet weight; 60 decimals
PairTab(b, oc, s, t, x, cls) == TLCEval([y \in 1..(b.n * b.n) |-> Pair(b, oc, s, t, ((y-1) \div b.n) + 1, ((y-1) % b.n) + 1, x, cls)])
AtTriplet(b, tab, t, b0) == BDiv(BDot(tab, SubSeq(b.v[t], Fl(b, b0, 1, 1), Fl(b, b0, b.n, b.n))), S)
Normal(b, t) == b.sum[t] = <<0, 0, 0>>
\* which = "all", "N", "U"
Picks(b, t, which) == which = "all" \/ (which = "N") = Normal(b, t)
\* [b0 -> value] for the bands at point x(b0)
Total(b, oc, s, b0, x, cls, which) ==
  BSum([t \in 1..Len(b.w) |-> IF Picks(b, t, which) THEN BMul(b.w[t], AtTriplet(b, PairTab(b, oc, s, t, x, cls), t, b0)) ELSE "0"])
\* bands degenerate with band k, among the asked ones
Deg(b, k, asked) == {i \in 1..Len(asked) : b.deg[asked[i]] = b.deg[k]}
RECURSIVE Sorted(_)
Sorted(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : \A z \in X : y <= z IN <<x>> \o Sorted(X \ {x})
\* averaged over the degenerate bands asked for
Averaged(b, raw, asked) == [i \in 1..Len(asked) |-> LET d == Sorted(Deg(b, asked[i], asked)) IN
   BRound(BSum([k \in 1..Len(d) |-> raw[d[k]]]), Len(d))]
\* expected result at one point (x = 0: every band at its own frequency)
Row(b, oc, cc, x, which) == LET raw == TLCEval([i \in 1..Len(cc.bands) |->
     Total(b, oc, cc.s, cc.bands[i], IF x = 0 THEN cc.bands[i] ELSE x, cc.cls, which)])
  IN TLCEval(Averaged(b, raw, cc.bands))
\* the results are in THz; Data.unit (20 decimals) times 10^-shift converts
Conv(r) == TLCEval([i \in 1..Len(r) |-> BDiv(BMul(r[i], Data.unit), Data.unitden)])
OK(got, ex) == BCloseSeq(got, ex, BAdd(BDiv(BMaxAbs(ex), 1000000000), "300000000"), 100)
\* got: [point][band]
IseInv == Of({"ise"}) => LET b == Bases[c.b] oc == Occ(b, c.T) IN
  \A p \in 1..Len(c.pts) : OK(c.got[p], Conv(Row(b, oc, c, c.pts[p], c.which)))
\* every triplet and band triplet of the detail
DetailInv == Of({"detail"}) => LET b == Bases[c.b] oc == Occ(b, c.T) IN
  \A p \in 1..Len(c.pts) : \A t \in 1..Len(b.w) : \A i \in 1..Len(c.bands) :
     LET x == IF c.pts[p] = 0 THEN c.bands[i] ELSE c.pts[p]
         tab == PairTab(b, oc, c.s, t, x, c.cls)
         ex == TLCEval([y \in 1..(b.n * b.n) |-> BDiv(BMul(tab[y], b.v[t][Fl(b, c.bands[i], 1, 1) + y - 1]), S)])
     IN OK(c.got[p][t][i], Conv(ex))
\* text output: average over a group of bands
GroupInv == Of({"group"}) => LET b == Bases[c.b] oc == Occ(b, c.T) IN
  \A p \in 1..Len(c.pts) : LET r == Row(b, oc, c, c.pts[p], "all") IN
     \A k \in 1..Len(c.groups) : LET gr == c.groups[k] IN
       OK(<<c.got[k][p]>>, Conv(<<BRound(BSum([i \in 1..Len(gr) |-> r[gr[i]]]), Len(gr))>>))
\* ------------------------------------------------------- frequency sampling
\* numbers with 12 decimals; fmax = 1.005 (2 max + 4 sigma)
PointsInv == Of({"points"}) =>
  LET fm == BDiv(BMul(BAdd(BMul(2, c.max), BMul(4, c.sigma)), 1005), 1000)
      n == Len(c.got)
      num == IF c.num > 0 THEN c.num ELSE IF c.step = "0" THEN 201 ELSE 0
  IN /\ BNear(c.got[1], 0, 10)
     /\ IF num > 0 THEN /\ n = num
                        /\ \A k \in 1..n : BNear(BMul(c.got[k], n - 1), BMul(fm, k - 1), 100000)
        ELSE /\ \A k \in 1..n : BNear(c.got[k], BMul(c.step, k - 1), 100000)
             /\ BLeq(c.got[n], BAdd(fm, 10)) /\ BLeq(BSub(fm, 100000), BMul(c.step, n))
\* occupation numbers alone: got in 1/10^12 * 10^-e
BoseInv == Of({"bose"}) => \A k \in 1..Len(c.f) :
  BClose(BMul(c.got[k], 1000000), Bose(c.f[k], c.T), 10000000, 1)
=============================================================================
