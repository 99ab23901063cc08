----------------------------- MODULE Gruneisen -----------------------------
(***************************************************************************)
(* Mode Grueneisen tensors: the response of the phonons of a crystal to a  *)
(* homogeneous strain u_k = e_kl R_l with the atoms inside the cell        *)
(* relaxed.                                                                *)
(*                                                                         *)
(* The strain displaces atom M, seen from primitive atom nu, by            *)
(*   Y(nu, M)_m = e_ml R(nu, M)_l + X(M)_mkl e_kl                          *)
(* with X such that no atom feels a force (EquilInv); force constants      *)
(* change by the third-order ones times Y; and the Grueneisen tensors g of *)
(* the modes satisfy, with D the dynamical matrix and D' its derivative,   *)
(*   sum_s w_s^(2k) (-2 w_s^2 g_s) = Tr(D^k D')   for every k.             *)
(* StrainInv ties D' to its meaning: the difference of the force constants *)
(* of two finitely strained crystals.                                      *)
(***************************************************************************)
EXTENDS Interact
Cl(a, b, abs, rel) == BClose(a, b, abs, rel)
\* mean shortest vector from primitive atom nu to atom M, Cartesian, 12 decimals
RV(x, nu, M) == LET w == Worlds[x]  S == Geo[x].sv[nu][M] IN TLCEval([l \in I3 |->
   BRound(BSum([n \in 1..Len(S) |-> BSum([a \in I3 |-> BMul(S[n][a], w.prim[a][l])])]), w.den * Len(S))])
KindOf(w, M) == CHOOSE p \in 1..NP(w) : w.p2s[p] = w.s2p[M]
T9(a) == <<((a-1) \div 3) + 1, ((a-1) % 3) + 1>>
\* displacement of atom M seen from nu: [m] -> [kl]
YV(x, nu, M, clamp) == LET w == Worlds[x]  R == RV(x, nu, M)  k == KindOf(w, M) IN
   TLCEval([m \in I3 |-> TLCEval([a \in 1..9 |-> LET s == IF T9(a)[1] = m THEN R[T9(a)[2]] ELSE "0" IN
      IF clamp THEN s ELSE BAdd(s, w.X[k][9*(m-1) + a])])])
\* [nu][kl] -> sequence over (M, m)
YSeq == TLCEval([x \in 1..Len(Worlds) |-> LET w == Worlds[x] IN
   [z \in {0, 1} |-> TLCEval([nu \in 1..NP(w) |-> LET y == TLCEval([M \in 1..NS(w) |-> YV(x, nu, M, z = 1)]) IN
      TLCEval([a \in 1..9 |-> TLCEval([n \in 1..(3*NS(w)) |-> y[((n-1) \div 3) + 1][((n-1) % 3) + 1][a]])])])]])
\* derivative of the force constants, [nu][P][ij][kl]
DPhi == TLCEval([x \in 1..Len(Worlds) |-> LET w == Worlds[x] IN
   [z \in {0, 1} |-> TLCEval([nu \in 1..NP(w) |-> TLCEval([P \in 1..NS(w) |-> TLCEval([ij \in 1..9 |->
      LET f == TLCEval([n \in 1..(3*NS(w)) |-> w.fc3[nu][P][((n-1) \div 3) + 1][3*(ij-1) + ((n-1) % 3) + 1]])
      IN TLCEval([a \in 1..9 |-> BRound(BDot(f, YSeq[x][z][nu][a]), E12)])])])])]])
EquilInv == (IsCase /\ c.kind = "equil") => LET w == Worlds[c.w] IN
   \A nu \in 1..NP(w) : \A i \in I3 : \A a \in 1..9 :
      BNear(BRound(BDot([n \in 1..(3*NS(w)) |-> w.fc2[nu][((n-1) \div 3) + 1][3*(i-1) + ((n-1) % 3) + 1]],
                        YSeq[c.w][0][nu][a]), E12), 0, 1000000)
StrainInv == (IsCase /\ c.kind = "strain") => LET w == Worlds[c.w] IN
   \A nu \in 1..NP(w) : \A P \in 1..NS(w) : \A ij \in 1..9 :
      Cl(BRound(BMul(BSub(c.plus[nu][P][ij], c.minus[nu][P][ij]), c.inv2), 1),
         DPhi[c.w][0][nu][P][ij][c.kl], c.tol, 100000)
\* ------------------------------------------------------------ matrices at q
\* sum over the copies of pi of phase times f(P), divided by the root of masses
Four(x, ph, nu, pi, f) == LET w == Worlds[x]  at == Geo[x].at[pi]
     v == TLCEval([y \in 1..Len(at) |-> f[at[y]]])
     m == BRound(BMul(w.ism[nu], w.ism[pi]), E12)
     mul(s) == BRound(BMul(BRound(s, E12), m), E12)
  IN << mul(BDot(v, [y \in 1..Len(at) |-> ph[nu][at[y]][1]])), mul(BDot(v, [y \in 1..Len(at) |-> ph[nu][at[y]][2]])) >>
At(r) == ((r-1) \div 3) + 1
Ax(r) == ((r-1) % 3) + 1
DMat(x, ph) == LET w == Worlds[x] n == NB(w) IN TLCEval([r \in 1..n |-> TLCEval([s \in 1..n |->
   Four(x, ph, At(r), At(s), [P \in 1..NS(w) |-> w.fc2[At(r)][P][3*(Ax(r)-1) + Ax(s)]])])])
DPrime(x, ph, z, a) == LET w == Worlds[x] n == NB(w) IN TLCEval([r \in 1..n |-> TLCEval([s \in 1..n |->
   Four(x, ph, At(r), At(s), [P \in 1..NS(w) |-> DPhi[x][z][At(r)][P][3*(Ax(r)-1) + Ax(s)][a]])])])
\* product of complex matrices of n rows, 12 decimals
Prod(n, A, B) == TLCEval([r \in 1..n |-> LET ar == TLCEval([k \in 1..n |-> A[r][k][1]]) ai == TLCEval([k \in 1..n |-> A[r][k][2]]) IN
   TLCEval([s \in 1..n |-> LET br == TLCEval([k \in 1..n |-> B[k][s][1]]) bi == TLCEval([k \in 1..n |-> B[k][s][2]]) IN
      << BRound(BSub(BDot(ar, br), BDot(ai, bi)), E12), BRound(BAdd(BDot(ar, bi), BDot(ai, br)), E12) >>])])
Tr(n, A) == BSum([r \in 1..n |-> A[r][r][1]])
TrProd(n, A, B) == BRound(BSum([r \in 1..n |-> BSub(BDot([k \in 1..n |-> A[r][k][1]], [k \in 1..n |-> B[k][r][1]]),
                                                    BDot([k \in 1..n |-> A[r][k][2]], [k \in 1..n |-> B[k][r][2]]))]), E12)
Norm(n, A) == BMaxAbs([y \in 1..(n*n) |-> BAdd(BAbs(A[((y-1) \div n) + 1][((y-1) % n) + 1][1]), BAbs(A[((y-1) \div n) + 1][((y-1) % n) + 1][2]))])
TensorInv == (IsCase /\ c.kind = "tensor") => LET
     x == c.w  w == Worlds[x]  n == NB(w)
     ph == Phase(x, c.q)
     D == IF c.dm = <<>> THEN DMat(x, ph) ELSE c.dm
     D2 == Prod(n, D, D)
     D3 == Prod(n, D2, D)
     o1 == c.om2
     o2 == TLCEval([s \in 1..n |-> BRound(BMul(o1[s], o1[s]), E12)])
     o3 == TLCEval([s \in 1..n |-> BRound(BMul(o2[s], o1[s]), E12)])
     o4 == TLCEval([s \in 1..n |-> BRound(BMul(o3[s], o1[s]), E12)])
     near(p, q, sc) == Cl(p, q, BAdd(BDiv(BMul(sc, n * n), 20000000), 10000), 1000)
     nd == BAdd(Norm(n, D), 1)
     s1 == BRound(BMul(nd, BMul(n, 1)), 1)
     p1 == s1  p2 == BRound(BMul(p1, s1), E12)  p3 == BRound(BMul(p2, s1), E12)
  IN /\ near(BSum(o1), Tr(n, D), p1)
     /\ near(BSum(o2), Tr(n, D2), p2)
     /\ near(BSum(o3), Tr(n, D3), p3)
     /\ \A s \in 1..(n-1) : BLeq(c.om2[s], BAdd(c.om2[s+1], 1000))
     /\ \A a \in 1..9 : LET
          P == DPrime(x, ph, c.clamp, a)
          np == BAdd(Norm(n, P), 1)
          g == TLCEval([s \in 1..n |-> c.g[s][a]])
          m2(v) == BMul(-2, v)
        IN /\ near(m2(BRound(BDot(o1, g), E12)), Tr(n, P), BMul(np, n))
           /\ near(m2(BRound(BDot(o2, g), E12)), TrProd(n, D, P), BRound(BMul(p1, np), E12))
           /\ near(m2(BRound(BDot(o3, g), E12)), TrProd(n, D2, P), BRound(BMul(p2, np), E12))
           /\ near(m2(BRound(BDot(o4, g), E12)), TrProd(n, D3, P), BRound(BMul(p3, np), E12))
\* acoustic modes have no Grueneisen tensor at Gamma
GammaInv == (IsCase /\ c.kind = "tensor" /\ c.q = <<0, 0, 0>>) =>
   \A s \in I3 : \A a \in 1..9 : BEq(c.g[s][a], 0)
\* -------------------------------------------- paths, meshes and written files
DistInv == (IsCase /\ c.kind = "dist") => LET w == Worlds[c.w]
     d == c.got
     st(i) == TLCEval([l \in I3 |-> BSum([a \in I3 |-> BMul(c.qs[i+1][a] - c.qs[i][a], w.rec[l][a])])])
  IN /\ \A a, b \in I3 : BNear(BDot([k \in I3 |-> w.prim[a][k]], [k \in I3 |-> w.rec[k][b]]), IF a = b THEN E24 ELSE "0", BMul(E12, 100))
     /\ BEq(d[1], 0) /\ Len(d) = Len(c.qs)
     /\ \A i \in 1..(Len(d)-1) : LET e == BMul(BSub(d[i+1], d[i]), c.qden) v == st(i) IN
          BLeq(0, e) /\ BNear(BSqrt(BDot(v, v)), e, BMul(c.tol, 2 * c.qden))
FileInv == (IsCase /\ c.kind = "file") => BCloseSeq(c.got, c.ex, c.tol, 1000)
\* the irreducible points stand for the whole mesh
MeshInv == (IsCase /\ c.kind = "mesh") =>
   /\ SumSeq(c.weights) = c.total
   /\ \A k \in 1..Len(c.full) :
        BClose(BDot(c.weights, c.part[k]), BSum(c.full[k]), BAdd(BDiv(BMul(BMaxAbs(c.full[k]), c.total), 1000000), 10), 1000)
=============================================================================
