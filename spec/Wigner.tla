------------------------------- MODULE Wigner -------------------------------
(***************************************************************************)
(* Conductivity with coherences between bands: the Wigner form (RTA and    *)
(* direct solution) and the Green-Kubo form.                               *)
(*                                                                         *)
(* A case holds, for some grid points (gs, rates, temperatures as in       *)
(* Kappa), velocities between pairs of bands:                              *)
(*   given   vre, vim: what the code holds (Wigner)                        *)
(*   derived from eigenvectors e, changes dd of the dynamical matrix along *)
(*           x, y, z and frequencies (Data.scale2: (THz)^2 per unit of dd) *)
(* Velocities 18 decimals, products 24, e and dd 15, fd: frequencies, 18.  *)
(***************************************************************************)
EXTENDS Collision
E60 == BMul(S, S)
E90 == BMul(E60, S)
E84 == BMul(E60, E24)
E114 == BMul(E90, E24)
\* sum over the star of the symmetrized product, over the order of the group
\* of the point: real part of sum V_a conj V_b, 24 decimals
PairSum(cc, g, re, im) == LET a == GroupXY(cc, re, re) b == GroupXY(cc, im, im) m == Multi(cc, g) IN
  [k \in 1..6 |-> BDiv(BAdd(a[k], b[k]), BMul(BMul(2, m), E12))]
\* 1 / (frequency) of the pair, 30 decimals
Lor(g, df) == IF g = "0" THEN "0" ELSE BDiv(BMul(g, E90), BAdd(BMul(BMul(df, df), E84), BMul(g, g)))
\* pref 72 decimals, result 12
Contr(cc, vv, pref, lor) == [k \in 1..6 |-> BRound(BMul(BMul(BMul(vv[k], pref), lor), Data.conv), BMul(cc.vol, E114))]
Add6(a, b) == [k \in 1..6 |-> BAdd(a[k], b[k])]
\* heat capacity times frequencies of a pair in the Wigner form, 72 decimals
PrefW(f, h, cf, ch) == BDiv(BMul(BAdd(f, h), BAdd(BDiv(BMul(cf, E12), f), BDiv(BMul(ch, E12), h))), 4)
\* heat capacity of a pair in the Green-Kubo form, 72 decimals
X30(f, T) == BDiv(BMul(BMul(f, HK), "1000000000000000"), T)
PrefK(f, h, T, cut) == BMul(E12, IF T = "0" THEN "0"
  ELSE IF ~BLeq(cut, BAbs(BSub(f, h))) THEN Cv(f, T, "0")
  ELSE LET x == X30(f, T) y == X30(h, T) p == BAdd(x, y) IN
       BDiv(BMul(BMul(Kb, BSub(Bose(h, T), Bose(f, T))), BMul(p, p)), BMul(BMul(4, BSub(x, y)), E60)))
\* ---------------------------------------------------------------- velocity
\* complex e_i^* . dd . e_j (45), divided by 2 sqrt(f_i f_j) or f_i + f_j
CDot(m, v) == <<BSub(BDot(m[1], v[1]), BDot(m[2], v[2])), BAdd(BDot(m[1], v[2]), BDot(m[2], v[1]))>>
\* e[j] = <<re, im>> of band j; dd[a] = <<row 1, ...>>, a row <<re, im>>
Vel(p, i, j, kubo) == LET n == Len(p.f)
  d == IF kubo THEN BMul(2, BSqrt(BMul(p.f[i], p.f[j]))) ELSE BAdd(p.f[i], p.f[j])
  z == TLCEval([a \in I3 |-> LET w == TLCEval([r \in 1..n |-> CDot(p.dd[a][r], p.e[j])])
         wr == [r \in 1..n |-> w[r][1]] wi == [r \in 1..n |-> w[r][2]] IN
       <<BAdd(BDot(p.e[i][1], wr), BDot(p.e[i][2], wi)), BSub(BDot(p.e[i][1], wi), BDot(p.e[i][2], wr))>>])
     o == BMul(d, "1000000000000000000000000000")
  IN << [a \in I3 |-> BDiv(BMul(z[a][1], Data.scale2), o)], [a \in I3 |-> BDiv(BMul(z[a][2], Data.scale2), o)] >>
Prod(v, a, b) == BAdd(BMul(v[1][a], v[1][b]), BMul(v[2][a], v[2][b]))
Imag(v, a, b) == BSub(BMul(v[2][a], v[1][b]), BMul(v[1][a], v[2][b]))
VelInv == Of({"vel"}) => \A x \in 1..Len(c.pairs) : LET i == c.pairs[x][1] j == c.pairs[x][2]
    v == Vel(c, i, j, FALSE) u == <<c.vre[i][j], c.vim[i][j]>> t == <<c.vre[j][i], c.vim[j][i]>> IN
  /\ \A a \in I3 : BNear(u[1][a], t[1][a], "100000000") /\ BNear(u[2][a], BMul(t[2][a], -1), "100000000")
  /\ \A a, b \in I3 : /\ BNear(Prod(u, a, b), Prod(v, a, b), c.tol)
                      /\ BNear(Imag(u, a, b), Imag(v, a, b), c.tol)
\* --------------------------------------------------------------- Wigner RTA
Use(cc, f) == ~BLeq(f, cc.cut)
Same(f, h) == ~BLeq("100000000000000", BAbs(BSub(f, h)))
WigInv == Of({"wig"}) => \A i \in 1..Len(c.gs) :
  LET g == c.gs[i] n == Len(g.f)
      bs == IF c.bands = <<>> THEN [x \in 1..n |-> x] ELSE c.bands
      vv == TLCEval([x \in 1..Len(bs) |-> TLCEval([y \in 1..n |-> PairSum(c, g, g.vre[bs[x]][y], g.vim[bs[x]][y])])])
  IN /\ \A x \in 1..Len(bs) : \A y \in 1..n : Clo(g.sum2[bs[x]][y], vv[x][y], "1000000000000000")
     /\ \A k \in 1..Len(c.T) : LET cv == TLCEval([b \in 1..n |-> Cv(g.f[b], c.T[k], c.cut)]) IN
        \A j \in 1..Len(c.gamma) : LET r == TLCEval([b \in 1..n |-> Rate(c, j, k, i, b)])
          e == TLCEval([x \in 1..Len(bs) |-> TLCEval([y \in 1..n |-> LET s == bs[x] IN
                 IF Use(c, g.f[s]) /\ Use(c, g.f[y])
                 THEN Contr(c, vv[x][y], PrefW(g.f[s], g.f[y], cv[s], cv[y]), Lor(BAdd(r[s], r[y]), BSub(g.fd[s], g.fd[y]))) ELSE Zero6])])
          \* rounding errors: velocities of degenerate bands have 14 digits
          \* and frequencies of degenerate bands differ by 1e-15
          few == {b \in 1..n : Use(c, g.f[b]) /\ r[b] # "0" /\ BLeq(BAbs(r[b]),
                   IF c.length = "0" /\ Cardinality({y \in 1..n : Same(g.fd[b], g.fd[y])}) = 1 THEN S ELSE BMul(S, "1000000000000000000000"))}
          m == BMaxAbs([x \in 1..Len(bs) |-> BMaxAbs([y \in 1..n |-> BMaxAbs(e[x][y])])])
          noise == TLCEval([x \in 1..Len(bs) |-> TLCEval([y \in 1..n |-> LET s == bs[x] IN IF Use(c, g.f[s]) /\ Use(c, g.f[y])
                 THEN BAbs(Contr(c, Noise6, PrefW(g.f[s], g.f[y], cv[s], cv[y]), Lor(BAdd(r[s], r[y]), BSub(g.fd[s], g.fd[y])))[1]) ELSE "0"])])
          tol == BAdd(BDiv(m, 100000000), 1000)
        IN \A x \in 1..Len(bs) : LET s == bs[x] d == SetToSeq({y \in 1..n : Same(g.fd[s], g.fd[y])}) IN
              Range(d) \cap few = {} =>
              /\ c.coh => \A y \in 1..n : BCloseSeq(c.modeC[j][k][i][s][y], IF y \in Range(d) THEN Zero6 ELSE e[x][y], BAdd(tol, noise[x][y]), 1)
              /\ c.pop => BCloseSeq(c.modeP[j][k][i][s], [q \in 1..6 |-> BSum([z \in 1..Len(d) |-> e[x][d[z]][q]])], BAdd(tol, BSum([z \in 1..Len(d) |-> noise[x][d[z]]])), 1)
\* ---------------------------------------------------------------- totals
\* sums over all modes over the number of grid points; total of both terms
TotInv == Of({"tot"}) => LET N == NSample(c) IN
  /\ (c.full /\ c.sym) => N = c.N
  /\ \A p \in 1..Len(c.sums) : LET z == c.sums[p] IN
       BCloseSeq(z.kappa, [k \in 1..6 |-> BRound(BSum([i \in 1..Len(z.mode) |-> z.mode[i][k]]), N)], BAdd(BDiv(BMaxAbs(z.kappa), 100000000), 1000), 1)
  /\ \A p \in 1..Len(c.adds) : LET z == c.adds[p] IN
       BCloseSeq(z.total, Add6(z.p, z.q), 1000, 1)
\* ------------------------------------------------------------- Green-Kubo
KuboInv == Of({"kubo"}) => \A i \in 1..Len(c.gs) : LET g == c.gs[i] n == Len(g.f) IN
  \A x \in 1..Len(g.pairs) : LET s == g.pairs[x][1] y == g.pairs[x][2]
     use == BLeq(c.cut, g.f[s]) /\ BLeq(c.cut, g.f[y])
     v == IF use THEN Vel(g, s, y, TRUE) ELSE <<<<"0","0","0">>, <<"0","0","0">>>>
     vv == PairSum(c, g, v[1], v[2])
  IN \A k \in 1..Len(c.T) : LET pref == IF use THEN PrefK(g.f[s], g.f[y], c.T[k], c.cut) ELSE "0" IN
     \A j \in 1..Len(c.gamma) : LET r == BAdd(c.gamma[j][k][i][s], BAdd(c.gamma[j][k][i][y], IF c.isotope THEN BAdd(c.iso[j][i][s], c.iso[j][i][y]) ELSE "0"))
        lor == Lor(r, BSub(g.fd[s], g.fd[y]))
        e == IF use THEN Contr(c, vv, pref, lor) ELSE Zero6
        tol == Contr(c, [q \in 1..6 |-> BMul(c.vtol, 2 * Len(c.ops))], pref, lor)[1]
     IN \/ r # "0" /\ BLeq(BAbs(r), S)
        \/ BCloseSeq(c.mode[j][k][i][s][y], e, BAdd(BAbs(tol), 1000), 1)
=============================================================================
