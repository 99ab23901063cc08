------------------------------ MODULE Isotope ------------------------------
(***************************************************************************)
(* Scattering of phonons by isotopes (Tamura).                             *)
(*                                                                         *)
(*   gamma(0) = (pi f0^2 / 4 N) sum_qk  D(f0 - f_qk)                       *)
(*                                sum_l g_l | e0*(l) . e_qk(l) |^2         *)
(*                                                                         *)
(* A base holds frequencies and eigenvectors of all points of the regular  *)
(* grid; modes below the cutoff take no part.  D is a Gaussian of width    *)
(* sigma, or the weight of the tetrahedron method (recorded).              *)
(* Frequencies 12 decimals, eigenvectors 15, variances 15, weights 15,     *)
(* rates 30.                                                               *)
(***************************************************************************)
EXTENDS Cases, BigNum, TLCExt, SequencesExt
c == Case
Bases == Data.bases
Of(k) == IsCase /\ c.kind \in k
E12 == "1000000000000"
E15 == "1000000000000000"
E30 == "1000000000000000000000000000000"
E84 == BMul(BMul(E30, E30), BMul(E12, E12))
Pi30 == "3141592653589793238462643383280"
Sqrt2Pi15 == "2506628274631001"
\* exp(-x^2 / 2 s^2) / (s sqrt(2 pi)), x, s of 12 decimals, 15 decimals
Gauss(x, s) == LET y == BDiv(BMul(BMul(x, x), "-500000000000000000000000000000"), BMul(s, s))
   IN IF BLeq(y, BMul(E30, "-60")) THEN "0" ELSE BDiv(BDiv(BMul(BExp(y, E30), E12), s), Sqrt2Pi15)
\* sum_l g_l |e0* . e|^2, eigenvectors as rows <re, im> over 3 l + x, 45 decimals
Over(a, z, g) == BSum([l \in 1..Len(g) |->
   LET i == 3*l - 2 j == 3*l
       ar == SubSeq(a[1], i, j) ai == SubSeq(a[2], i, j) br == SubSeq(z[1], i, j) bi == SubSeq(z[2], i, j)
       re == BAdd(BDot(ar, br), BDot(ai, bi))
       im == BSub(BDot(ar, bi), BDot(ai, br))
   IN BMul(g[l], BDiv(BAdd(BMul(re, re), BMul(im, im)), E30))])
\* rate of band i (a position in c.bands) in 30 decimals
Rate(b, cc, i) == LET f0 == b.f0[cc.bands[i]] a == b.e0[cc.bands[i]]
   sum == BSum(TLCEval([q \in 1..Len(b.f) |-> BSum([k \in 1..b.n |->
            IF ~BLeq(b.cut, b.f[q][k]) THEN "0"
            ELSE BMul(Over(a, b.e[q][k], cc.g), IF cc.tet THEN b.w[q][cc.bands[i]][k] ELSE Gauss(BSub(f0, b.f[q][k]), cc.sigma))])]))
   \* 60 decimals (45 of the variances and products, 15 of the weights)
   IN IF ~BLeq(b.cut, f0) THEN "0"
      ELSE BDiv(BRound(BMul(BMul(BMul(sum, f0), f0), Pi30), BMul(4, Len(b.f))), E84)
RateInv == Of({"rate"}) => LET b == Bases[c.b] IN
   /\ Len(c.got) = Len(c.bands)
   /\ BCloseSeq(c.got, TLCEval([i \in 1..Len(c.bands) |-> Rate(b, c, i)]), BAdd("1000000000000000", BDiv(BMaxAbs(c.got), "10000000000")), 100)
\* two routes
CloseInv == Of({"close"}) => /\ Len(c.a) = Len(c.z)
                             /\ BCloseSeq(c.a, c.z, BAdd(c.abs, BDiv(BMaxAbs(c.z), c.rel)), 1)
\* variance of a list of isotopes <mass, fraction> (15 decimals each), 30 decimals
Variance(iso) == LET ave == BSum([k \in 1..Len(iso) |-> BMul(iso[k][1], iso[k][2])])  \* 30
   IN BSum([k \in 1..Len(iso) |-> LET d == BSub(E30, BDiv(BMul(BMul(iso[k][1], E15), E30), ave))
                                   IN BDiv(BMul(iso[k][2], BDiv(BMul(d, d), E30)), E15)])
VarInv == Of({"variance"}) => /\ Len(c.got) = Len(c.iso)
                              /\ \A i \in 1..Len(c.iso) : BNear(c.got[i], Variance(c.iso[i]), "1000000000000000")
ZeroInv == Of({"zero"}) => \A i \in 1..Len(c.got) : c.got[i] = "0"
=============================================================================
