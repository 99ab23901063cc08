------------------------------ MODULE RealSE ------------------------------
(***************************************************************************)
(* Real part of the phonon self-energy by the principal value sum, the     *)
(* Kramers-Kronig transform of the imaginary part, and the spectral        *)
(* function built from both.  Bases are those of SelfEnergy; the sampling  *)
(* points of a base are given by pf (12 decimals), the frequencies of the  *)
(* bands first.                                                            *)
(***************************************************************************)
EXTENDS SelfEnergy
E32 == "100000000000000000000000000000000"
\* f / (f^2 + eps^2) with 20 decimals; f, eps 12 decimals
Princ(f, eps) == BRound(BMul(f, E32), BAdd(BMul(f, f), BMul(eps, eps)))
\* factor (in 1/S, 20 decimals) of the band pair
RPair(b, oc, eps, T, t, b1, b2, w) ==
  LET n1 == oc[t][1][b1] n2 == oc[t][2][b2] w1 == b.f[t][1][b1] w2 == b.f[t][2][b2]
      s == BAdd(w1, w2) d == BSub(w1, w2)
  IN IF n1 = "none" \/ n2 = "none" THEN "0"
     ELSE LET a == BMul(BAdd(BAdd(n1, n2), S), BSub(Princ(BSub(w, s), eps), Princ(BAdd(w, s), eps)))
          IN IF T = "0" THEN a
             ELSE BAdd(a, BMul(BSub(n1, n2), BSub(Princ(BAdd(w, d), eps), Princ(BSub(w, d), eps))))
RTab(b, oc, eps, T, t, w) == TLCEval([y \in 1..(b.n * b.n) |-> RPair(b, oc, eps, T, t, ((y-1) \div b.n) + 1, ((y-1) % b.n) + 1, w)])
\* below the cutoff frequency no shift is given
RTotal(b, oc, eps, T, b0, w) == IF ~BLeq(b.cut, w) THEN "0"
  ELSE BSum([t \in 1..Len(b.w) |-> BMul(b.w[t], AtTriplet(b, RTab(b, oc, eps, T, t, w), t, b0))])
\* frequency of point x for band k
At(cc, b, x, k) == IF x = 0 THEN b.pf[k] ELSE cc.w[x]
RRow(b, oc, cc, x) == LET raw == TLCEval([i \in 1..Len(cc.bands) |-> RTotal(b, oc, cc.eps, cc.T, cc.bands[i], At(cc, b, x, cc.bands[i]))])
  IN TLCEval(Averaged(b, raw, cc.bands))
\* the unit of the shift is that of the width over pi
PI == "3141592653589793238462643383279502884"
E36 == "1000000000000000000000000000000000000"
OverPi(x) == BDiv(BMul(x, E36), PI)
RConv(r) == TLCEval([i \in 1..Len(r) |-> OverPi(BDiv(BMul(r[i], Data.unit), Data.unitden))])
\* scale: cancellation among the terms costs digits
ROK(got, ex, sc) == BCloseSeq(got, ex, BAdd(BDiv(BAdd(BMaxAbs(ex), sc), 10000000), "3000000000"), 100)
Scale(b) == BMaxAbs(RConv([t \in 1..Len(b.w) |-> BMul(BMul(b.w[t], BMaxAbs(b.v[t])), "100000000000000000000")]))
RseInv == Of({"rse"}) => LET b == Bases[c.b] oc == Occ(b, c.T) sc == Scale(b) IN
  \A p \in 1..Len(c.pts) : ROK(c.got[p], RConv(RRow(b, oc, c, c.pts[p])), sc)
RGroupInv == Of({"rgroup"}) => LET b == Bases[c.b] oc == Occ(b, c.T) sc == Scale(b) IN
  \A p \in 1..Len(c.pts) : LET r == RConv(RRow(b, oc, c, c.pts[p])) IN
     \A k \in 1..Len(c.groups) : LET gr == c.groups[k] IN
       ROK(<<c.got[k][p]>>, <<BRound(BSum([i \in 1..Len(gr) |-> r[gr[i]]]), Len(gr))>>, sc)
\* -------------------------------------------------------- Kramers-Kronig
\* im: values at 0, d, 2d, ...; odd; re at the point of index i (0, 1, ..),
\* or in between when half.  Uniform sampling: the pitch cancels.
\* An odd function vanishes at 0; smeared widths do not quite, and which of im, 0
\* and -im (z = 1, 0, -1) is taken there is left open.
Odd(im, m, z) == IF m > 0 THEN im[m+1] ELSE IF m = 0 THEN BMul(z, im[1]) ELSE BSub(0, im[1-m])
\* sum over im_m / (m - i); denominators as 1 / (2(m-i) - half)
KK(im, i, half, z) == LET n == Len(im) IN
  OverPi(BSum([y \in 1..(2*n - 1) |-> LET m == y - n dd == 2*(m - i) - half IN
     IF dd = 0 THEN "0" ELSE IF dd > 0 THEN BRound(BMul(2, Odd(im, m, z)), dd) ELSE BRound(BMul(-2, Odd(im, m, z)), 0 - dd)]))
KKInv == Of({"kk"}) => LET sc == BMaxAbs(c.im) IN \E z \in {-1, 0, 1} :
  \A i \in 1..Len(c.got) : BNear(c.got[i], KK(c.im, i - 1, c.half, z), BAdd(BDiv(sc, 1000000000), 1000))
\* ------------------------------------------------------ spectral function
\* widths at the points pts, 25 decimals, averaged over degenerate bands
Widths(b, oc, cc) == TLCEval([p \in 1..Len(cc.pts) |-> Conv(Row(b, oc, cc, cc.pts[p], "all"))])
\* to 25 decimals
E25 == "10000000000000000000000000"
E13 == "10000000000000"
\* A = (4 f^2 g / pi) / ((w^2 - f^2 - 2 f d)^2 + (2 f g)^2); f, w 12 decimals; g, d 25 decimals (rounded to it before)
Ratio(f, w, g, d) ==
  LET f25 == BMul(f, E13) w25 == BMul(w, E13)
      sq(x, y) == BMul(x, y)   \* 50 decimals
      a == BSub(BSub(sq(w25, w25), sq(f25, f25)), BMul(2, sq(f25, d)))
      e == BMul(2, sq(f25, g))
      den == BAdd(sq(a, a), sq(e, e))   \* 100
      num == OverPi(BMul(4, BMul(sq(f25, f25), g)))   \* 75
  IN IF BEq(den, 0) THEN "0" ELSE BRound(BMul(num, BMul(E25, E25)), den)   \* 25
\* the parts by themselves
SpecInv == Of({"spec"}) => LET b == Bases[c.b] oc == Occ(b, c.T) W == Widths(b, oc, c) np == Len(c.pts) IN
  \A i \in 1..Len(c.bands) :
    LET im == TLCEval([p \in 1..np |-> W[p][i]])
        sc == BMaxAbs(im)
        tol == BAdd(BDiv(sc, 100000000), "1000000000")
        re(z) == TLCEval([p \in 1..np |-> BSub(0, KK(im, p - 1, 0, z))])
        f == b.pf[c.bands[i]]
    IN /\ \E z \in (IF BEq(im[1], 0) THEN {0} ELSE {-1, 0, 1}) : LET r == re(z) IN \A p \in 1..np : BNear(c.del[i][p], r[p], BMul(10, tol))
       /\ \A p \in 1..np :
          /\ BNear(c.gam[i][p], im[p], tol)
       \* the function of width and shift reported
          /\ LET x == Ratio(f, c.w[p], c.gam[i][p], c.del[i][p]) IN BClose(c.got[i][p], x, "10000000000000", 20000)
\* text: mean of the functions of a group
SGroupInv == Of({"sgroup"}) => \A k \in 1..Len(c.groups) : LET gr == c.groups[k] IN \A p \in 1..Len(c.w) :
   LET x == BRound(BSum([i \in 1..Len(gr) |-> c.ref[gr[i]][p]]), Len(gr)) IN BClose(c.got[k][p], x, "10000000000000", 10000)
\* sampling points
PtsInv == Of({"points"}) => PointsInv
=============================================================================
