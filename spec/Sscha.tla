------------------------------- MODULE Sscha -------------------------------
(***************************************************************************)
(* Thermal displacements of the atoms of a supercell.                      *)
(*                                                                         *)
(*   psi(a,b)     = sum_s e_s(a) e_s(b) l_s^2 / sqrt(m_a m_b)               *)
(*   upsilon(a,b) = sum_s e_s(a) e_s(b) l_s^-2 sqrt(m_a m_b)                *)
(*   l_s^2        = (n_s + 1/2) hbar / w_s                                  *)
(*                                                                         *)
(* over the modes s above the cutoff (frozen, imaginary and uniform modes  *)
(* do not move).  The eigenvectors of a base are a witness: BaseInv checks *)
(* that they diagonalise the force constants.  Force constants fitted to   *)
(* snapshots are decided by their normal equations.                        *)
(* Numbers have 12 decimals, eigenvalues 24.                               *)
(***************************************************************************)
EXTENDS Cases, BigNum
c == Case
Bases == Data.bases
E12 == "1000000000000"
E18 == "1000000000000000000"
E30 == "1000000000000000000000000000000"
Of(k) == IsCase /\ c.kind = k
Dim(b) == Len(b.lam)
\* sum of three-fold products of two sequences and weights
Wsum(u, w, v) == BDot([s \in 1..Len(w) |-> BRound(BMul(u[s], w[s]), E12)], v)
BaseInv == Of("base") => LET b == Bases[c.b] d == Dim(b)
     l12 == TLCEval([s \in 1..d |-> BRound(b.lam[s], E12)]) IN
  /\ \A x \in 1..d : \A y \in x..d :
       /\ BNear(BRound(BDot(b.v[x], b.v[y]), E12), IF x = y THEN E12 ELSE "0", 1000)
       /\ BNear(BRound(Wsum(b.v[x], l12, b.v[y]), E12),
                BRound(BMul(BRound(BMul(b.fc[x][y], b.ism[x]), E12), b.ism[y]), E12), 10000)
  /\ \A x \in 1..d : BNear(BRound(BMul(b.ism[x], b.sm[x]), E12), E12, 1000)
\* frequency in THz
Freq(b, s) == IF BLeq(b.lam[s], 0) THEN "0" ELSE BRound(BMul(Data.vf, BSqrt(b.lam[s])), E12)
Half == "500000000000"
\* n + 1/2 at T mK
Occ(f, T) == IF T = 0 THEN Half
  ELSE LET x == BDiv(BMul(BMul(f, Data.kelvin), 1000), BMul(T, E12))
       IN IF BLeq(BMul(E12, 300), x) THEN Half
          ELSE BAdd(Half, BDiv(BMul(E12, E12), BSub(BExp(x, E12), E12)))
\* squared mode length and its inverse, zero where the mode does not move
Len2(b, T, cut) == TLCEval([s \in 1..Dim(b) |-> LET f == Freq(b, s) IN
   IF BLeq(f, cut) THEN "0" ELSE BRound(BMul(Data.fac, Occ(f, T)), f)])
Inv2(l) == TLCEval([s \in 1..Len(l) |-> IF BEq(l[s], 0) THEN "0" ELSE BRound(BMul(E12, E12), l[s])])
Sand(b, w, m, x, y) == BRound(BMul(BRound(BMul(BRound(Wsum(b.v[x], w, b.v[y]), E12), m[x]), E12), m[y]), E12)
Mat(b, w, m) == TLCEval([x \in 1..Dim(b) |-> TLCEval([y \in 1..Dim(b) |-> Sand(b, w, m, x, y)])])
MaxRow(M) == BMaxAbs([x \in 1..Len(M) |-> BMaxAbs(M[x])])
SameMat(A, B) == LET t == BAdd(BDiv(MaxRow(B), 10000000), 10) IN
   Len(A) = Len(B) /\ \A x \in 1..Len(A) : BCloseSeq(A[x], B[x], t, 0)
PsiInv == Of("corr") => LET b == Bases[c.b] IN SameMat(c.psi, Mat(b, Len2(b, c.T, c.cut), b.ism))
UpsilonInv == Of("corr") => LET b == Bases[c.b] IN SameMat(c.ups, Mat(b, Inv2(Len2(b, c.T, c.cut)), b.sm))
\* upsilon is the inverse of psi on the moving modes: psi upsilon psi = psi
Prod(A, B) == LET d == Len(A)  Bt == TLCEval([y \in 1..d |-> TLCEval([x \in 1..d |-> B[x][y]])]) IN
   TLCEval([x \in 1..d |-> TLCEval([y \in 1..d |-> BRound(BDot(A[x], Bt[y]), E12)])])
InverseInv == Of("corr") => SameMat(Prod(Prod(c.psi, c.ups), c.psi), c.psi)
\* the Gaussian of the moving modes is normalised
PrefactorInv == (Of("corr") /\ c.pref # "") => LET l == Len2(Bases[c.b], c.T, c.cut)
     m == SelectSeq(l, LAMBDA z : ~BEq(z, 0))
  IN BNear(BAdd(BRound(BMul(2, BLog(c.pref, E30)), E18), BSum([s \in 1..Len(m) |-> BLog(BRound(BMul(Data.twopi, m[s]), E12), E12)])),
           0, 100000)
\* ------------------------------------------------- fits to snapshots
\* column x of the snapshots
ColOf(m, x) == [n \in 1..Len(m) |-> m[n][x]]
Gram(u) == LET d == Len(u[1]) cs == TLCEval([x \in 1..d |-> TLCEval(ColOf(u, x))]) IN
   TLCEval([x \in 1..d |-> TLCEval([y \in 1..d |-> BRound(BDot(cs[x], cs[y]), E12)])])
\* second order: (u u) fc = - u f
SecondInv == Of("second") => LET d == Len(c.u[1])  G == Gram(c.u)
     cu == TLCEval([x \in 1..d |-> TLCEval(ColOf(c.u, x))])  cf == TLCEval([x \in 1..d |-> TLCEval(ColOf(c.f, x))])
     fcT == TLCEval([y \in 1..d |-> TLCEval(ColOf(c.fc, y))])
     t == BMul(BAdd(BMaxAbs([x \in 1..d |-> MaxRow(<<c.fc[x]>>)]), E12), 1)
  IN \A x, y \in 1..d :
       BNear(BRound(BDot(G[x], fcT[y]), E12), BRound(BSub(0, BDot(cu[x], cf[y])), E12), BAdd(BDiv(t, 10000000), 100))
\* the force constants themselves where the forces are harmonic
ExactInv == (Of("second") /\ c.exact # <<>>) => SameMat(c.fc, c.exact)
\* third order: (u u)_ia (u u)_jb fc_abk = - N <u_i u_j f_k>, f without its mean and its harmonic part
ThirdInv == Of("third") => LET N == Len(c.u)  d == Len(c.u[1])  b == Bases[c.b]
     cu == TLCEval([x \in 1..d |-> TLCEval(ColOf(c.u, x))])
     mean == TLCEval([y \in 1..d |-> BRound(BSum(ColOf(c.f, y)), N)])
     harm(n, y) == BRound(BDot(c.u[n], [x \in 1..d |-> b.fc[x][y]]), E12)
     row(i) == TLCEval([a \in 1..d |-> BRound(BDot(cu[i], cu[a]), E12)])
  IN \A p \in 1..Len(c.pick) : LET i == c.pick[p].i  j == c.pick[p].j  k == c.pick[p].k
        gi == row(i)  gj == row(j)
        lhs == BRound(BDot(gi, [a \in 1..d |-> BRound(BDot(gj, c.pick[p].fc[a]), E12)]), E12)
        res == TLCEval([n \in 1..N |-> BAdd(BSub(c.f[n][k], mean[k]), harm(n, k))])
        rhs == BRound(BMul(BSub(0, BDot([n \in 1..N |-> BRound(BMul(cu[i][n], cu[j][n]), E12)], res)), N), E12)
     IN BNear(lhs, rhs, BAdd(BDiv(BAdd(BAbs(rhs), E12), 1000000), 1000))
=============================================================================
