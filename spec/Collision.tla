------------------------------ MODULE Collision ------------------------------
(***************************************************************************)
(* The collision matrix and the direct solution of the linearized phonon   *)
(* Boltzmann equation.                                                     *)
(*                                                                         *)
(* Row     a piece of the matrix from strengths, weights and frequencies   *)
(*         of all triplets of a grid point (Data.cbases), no symmetry used *)
(* Pair    exchange of two modes                                           *)
(* Irr     symmetry-compressed piece from the full one                     *)
(* Asm     the matrix which is solved, put together from the pieces, and   *)
(*         eigenvalues, solution and conductivity from it                  *)
(* Pieces 25 decimals, frequencies, velocities, temperatures 12.           *)
(***************************************************************************)
EXTENDS Kappa
CB == Data.cbases
E15 == "1000000000000000"
E25 == "10000000000000000000000000"
\* 1 / sinh(h f / 2 k T), of scale S; zero at or below the cutoff frequency
InvSinh(f, T, cut) == IF T = "0" \/ BLeq(f, cut) THEN "0" ELSE
  LET x == BDiv(BMul(BMul(f, HK), "1000000000000000"), BMul(T, 2)) IN
  IF BLeq(BMul(S, 60), x) THEN "0" ELSE LET e == BExp(x, S) IN BDiv(BMul(BMul(2, S), e), BSub(BDiv(BMul(e, e), S), S))
\* ------------------------------------------------------------------- rows
\* <<j, t, k>>: first band, triplet, second band
RowTab(b, s, T) == LET h == TLCEval([t \in 1..Len(b.q1) |-> TLCEval([l \in 1..b.n |-> InvSinh(b.f2[t][l], T, b.cut)])]) IN
  TLCEval([j \in 1..b.n |-> TLCEval([t \in 1..Len(b.q1) |-> TLCEval([k \in 1..b.n |->
    LET o == Fl(b, j, k, 1) p == TLCEval([l \in 1..b.n |-> BMul(b.v[t][o + l - 1], b.g[s][t][o + l - 1])]) IN
    BDiv(BMul(BDiv(BDot(p, h[t]), S), Data.unit), Data.unitden)])])])
MaxOf(r) == BMaxAbs([j \in 1..Len(r) |-> BMaxAbs([t \in 1..Len(r[j]) |-> BMaxAbs(r[j][t])])])
\* sum over bands degenerate with (j, k)
DSum(r, dj, dk, g) == BSum([x \in 1..(Len(dj) * Len(dk)) |-> r[dj[((x-1) \div Len(dk)) + 1]][g][dk[((x-1) % Len(dk)) + 1]]])
Class(d, j) == Sorted({i \in 1..Len(d) : d[i] = d[j]})
RowInv == Of({"row"}) => LET b == CB[c.cb] e == RowTab(b, c.s, c.T) m == MaxOf(e) IN
  \A t \in 1..Len(b.q1) : LET g == b.q1[t] IN
    IF c.own THEN \A i \in 1..Len(c.bands) : BCloseSeq(c.got[i][g], e[c.bands[i]][t], BAdd(BDiv(m, 1000000000), 1000), 1000)
    ELSE \A j, k \in 1..b.n : LET dj == Class(b.deg, j) dk == Class(b.degs[t], k) IN
         BNear(DSum(c.got, dj, dk, g), DSum(e, dj, dk, t), BAdd(BDiv(m, 10000000), 1000))
\* rows at two grid points (indices g and h): one element from each
PairInv == Of({"pair"}) => LET m == BMaxAbs(<<MaxOf(c.rg), MaxOf(c.rh)>>) IN
  \A j, k \in 1..Len(c.dg) : LET dj == Class(c.dg, j) dk == Class(c.dh, k) IN
    BNear(DSum(c.rg, dj, dk, c.h), DSum(c.rh, dk, dj, c.g), BAdd(BDiv(m, 10000000), 1000))
\* -------------------------------------------------------------- symmetry
Mod(cc, v) == ModV(v, <<cc.qd, cc.qd, cc.qd>>)
PtIndex(cc) == TLCEval([v \in {Mod(cc, cc.pts[i]) : i \in 1..Len(cc.pts)} |-> CHOOSE i \in 1..Len(cc.pts) : Mod(cc, cc.pts[i]) = v])
\* cartesian matrix of an operation on wave vectors, 25 decimals
Cart(cc, r) == LET B == cc.rec Bi == cc.recinv
   x == TLCEval([i \in I3 |-> TLCEval([j \in I3 |-> BSum([k \in I3 |-> BMul(B[i][k], r[k][j])])])])
   y == TLCEval([i \in I3 |-> TLCEval([j \in I3 |-> BDot(x[i], <<Bi[1][j], Bi[2][j], Bi[3][j]>>)])])
   IN TLCEval([i \in I3 |-> TLCEval([j \in I3 |-> BMul(y[i][j], 10)])])
Ops(cc) == TLCEval(SetToSeq(RecOps(cc)))
Carts(cc, ops) == TLCEval([o \in 1..Len(ops) |-> Cart(cc, ops[o])])
IrrInv == Of({"irr"}) => LET ops == Ops(c) R == Carts(c, ops) at == PtIndex(c) m == MaxOf(c.red) IN
  \A i \in 1..Len(c.irq) : LET g == TLCEval([o \in 1..Len(ops) |-> at[Mod(c, MVec(ops[o], c.irq[i]))]]) IN
   \A j \in 1..Len(c.red) : \A k \in 1..c.n : \A a, b \in I3 :
     BNear(c.irr[j][a][i][k][b], BDiv(BSum([o \in 1..Len(ops) |-> BMul(R[o][a][b], c.red[j][g[o]][k])]), E25),
           BAdd(BDiv(BMul(m, Len(ops)), 1000000000), 1000))
\* -------------------------------------------------------------- assembling
\* (i, j, a) at 3 n (i-1) + 3 (j-1) + a;  (g, j) at n (g-1) + j
Ii(cc, x) == ((x - 1) \div (3 * cc.n)) + 1
Jj(cc, x) == (((x - 1) \div 3) % cc.n) + 1
Aa(x) == ((x - 1) % 3) + 1
Main(cc, i, j) == BAdd(cc.gamma[i][j], BAdd(IF cc.isotope THEN cc.iso[i][j] ELSE "0",
    IF cc.length = "0" THEN "0" ELSE
      BDiv(BMul(BSqrt(BMul(BDot(cc.v[i][j], cc.v[i][j]), E24)), "1000000000000000000000000000000000000000"), BMul(FourPi, cc.length))))
Star(cc, ops, q) == Cardinality({Mod(cc, MVec(ops[o], q)) : o \in 1..Len(ops)})
Mean(M, X, Y) == BDiv(BSum([x \in 1..(Len(X) * Len(Y)) |-> M[X[((x-1) \div Len(Y)) + 1]][Y[((x-1) % Len(Y)) + 1]]]), Len(X) * Len(Y))
Averages(M, cls) == TLCEval([x \in 1..Len(M) |-> TLCEval([y \in 1..Len(M) |-> IF Len(cls[x]) = 1 /\ Len(cls[y]) = 1 THEN M[x][y] ELSE Mean(M, cls[x], cls[y])])])
Halves(M) == TLCEval([x \in 1..Len(M) |-> TLCEval([y \in 1..Len(M) |-> BDiv(BAdd(M[x][y], M[y][x]), 2)])])
Weight(cc, ops, i) == BSqrt(BDiv(BMul(Star(cc, ops, cc.irq[i]), BMul(E25, E25)), Len(ops)))  \* 25
Wts(cc, ops) == TLCEval([i \in 1..Len(cc.irq) |-> Weight(cc, ops, i)])
IrMatrix(cc, ops, R, w) == LET
    ni == Len(cc.irq)
    stab == TLCEval([i \in 1..ni |-> {o \in 1..Len(ops) : Mod(cc, MVec(ops[o], cc.irq[i])) = Mod(cc, cc.irq[i])}])
    own == TLCEval([i \in 1..ni |-> LET s == SetToSeq(stab[i]) IN
             TLCEval([a \in I3 |-> TLCEval([b \in I3 |-> BSum([o \in 1..Len(s) |-> R[s[o]][a][b]])])])])
    raw == TLCEval([x \in 1..(3*cc.n*ni) |-> TLCEval([y \in 1..(3*cc.n*ni) |->
      LET i == Ii(cc, x) j == Jj(cc, x) a == Aa(x) k == Ii(cc, y) l == Jj(cc, y) b == Aa(y)
          z == cc.raw[i][j][a][k][l][b]
          d == IF i = k /\ j = l THEN BAdd(z, BDiv(BMul(Main(cc, i, j), own[i][a][b]), E25)) ELSE z
      IN BDiv(BMul(BDiv(BMul(d, w[i]), E25), w[k]), E25)])])
    cls == TLCEval([x \in 1..(3*cc.n*ni) |-> LET i == Ii(cc, x) d == Class(cc.deg[i], Jj(cc, x)) IN
             [m \in 1..Len(d) |-> 3*cc.n*(i-1) + 3*(d[m]-1) + Aa(x)]])
  IN Halves(Averages(raw, cls))
RedMatrix(cc, ops) == LET
    N == Len(cc.pts) at == PtIndex(cc)
    to == TLCEval([o \in 1..Len(ops) |-> TLCEval([g \in 1..N |-> at[Mod(cc, MVec(ops[o], cc.pts[g]))]])])
    ir == TLCEval([i \in 1..Len(cc.irq) |-> at[Mod(cc, cc.irq[i])]])
    \* <<ir point, operations to g>>
    src == TLCEval([g \in 1..N |-> CHOOSE p \in {<<i, {o \in 1..Len(ops) : to[o][ir[i]] = g}>> : i \in 1..Len(ir)} : p[2] # {}])
    raw == TLCEval([x \in 1..(cc.n*N) |-> LET g == ((x-1) \div cc.n) + 1 j == ((x-1) % cc.n) + 1
                                            i == src[g][1] os == SetToSeq(src[g][2]) IN
      TLCEval([y \in 1..(cc.n*N) |-> LET h == ((y-1) \div cc.n) + 1 l == ((y-1) % cc.n) + 1 IN
        BDiv(BSum([o \in 1..Len(os) |-> cc.raw[i][j][CHOOSE h1 \in 1..N : to[os[o]][h1] = h][l]]), Len(os))])])
    cls == TLCEval([x \in 1..(cc.n*N) |-> LET g == ((x-1) \div cc.n) + 1 d == Class(cc.deg[g], ((x-1) % cc.n) + 1) IN
             [m \in 1..Len(d) |-> cc.n*(g-1) + d[m]]])
    av == Averages(raw, cls)
    dg == TLCEval([x \in 1..(cc.n*N) |-> TLCEval([y \in 1..(cc.n*N) |-> IF x = y
            THEN BAdd(av[x][y], Main(cc, ((x-1) \div cc.n) + 1, ((x-1) % cc.n) + 1)) ELSE av[x][y]])])
  IN Halves(dg)
\* right-hand side, 25 decimals (per mode three numbers)
Xs(cc, w) == TLCEval([i \in 1..Len(cc.f) |-> TLCEval([j \in 1..cc.n |-> LET
    h == InvSinh(cc.f[i][j], cc.T, cc.cut)                               \* 30
    s == BDiv(BMul(BMul(BMul(cc.f[i][j], HK), h), "10000000"), BMul(BMul(cc.T, cc.T), 4))  \* 12+15+30+7-24=40
    IN TLCEval([a \in I3 |-> BDiv(BMul(BDiv(BMul(cc.v[i][j][a], s), "1000000000000000000000000000"), w[i]), E25)])])])  \* 12+40-27=25
Tr(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> M[j][i]]]
MatVec(M, v) == TLCEval([i \in 1..Len(M) |-> BDot(M[i], v)])
\* U diagonalizes M: M U z = U w z for the trial vectors z
Solves(cc, M, U) == \A t \in 1..Len(cc.z) : LET z == cc.z[t]
    a == MatVec(M, MatVec(U, z)) b == MatVec(U, [i \in 1..Len(z) |-> BMul(cc.w[i], z[i])]) IN
    BCloseSeq(a, b, BAdd(BDiv(BMul(BMaxAbs(cc.w), "100000000000000000000"), 10000000), 1000), 1)
Unit(cc, U) == \A t \in 1..Len(cc.z) : BCloseSeq(MatVec(Tr(U), MatVec(U, cc.z[t])), [i \in 1..Len(cc.z[t]) |-> BMul(cc.z[t][i], "10000000000000000000000000000000000000000")],
    "10000000000000000000000000000000", 1)
Drop(cc, x) == BLeq(IF cc.method = 0 THEN BAbs(x) ELSE x, cc.pinv)
Solve(cc, U, X) == LET p == MatVec(Tr(U), X)    \* 45
    e == TLCEval([i \in 1..Len(p) |-> IF Drop(cc, cc.w[i]) THEN "0" ELSE BDiv(BMul(p[i], E25), cc.w[i])])
    r == MatVec(U, e)                             \* 65
  IN TLCEval([i \in 1..Len(r) |-> BDiv(r[i], "10000000000000000000000000000000000000000")])
\* sum over the group of the symmetrized products, 50 decimals
GroupXY(cc, x, y) == LET
    u == TLCEval([i \in I3 |-> BDiv(BDot(cc.inv[i], x), E12)])
    v == TLCEval([i \in I3 |-> BDiv(BDot(cc.inv[i], y), E12)])
    o == TLCEval(SetToSeq(DirOps(cc)))
    p == TLCEval([k \in 1..Len(o) |-> <<[i \in I3 |-> BDot(o[k][i], u)], [i \in I3 |-> BDot(o[k][i], v)]>>])
    s == TLCEval([i \in I3 |-> TLCEval([j \in I3 |-> BSum([k \in 1..Len(p) |-> BAdd(BMul(p[k][1][i], p[k][2][j]), BMul(p[k][2][i], p[k][1][j]))])])])
    t == BTensor(cc.lat, s)
  IN [k \in 1..6 |-> BDiv(Six(t)[k], E24)]
\* mode contribution, 12 decimals; the three lowest modes at Gamma are left out
ModeXY(cc, i, j, x, y, den) == IF cc.gamma0 = i /\ j <= 3 THEN Zero6 ELSE LET s == GroupXY(cc, x, y) IN
  [k \in 1..6 |-> BRound(BMul(BMul(BMul(s[k], Data.conv), Kb), BMul(cc.T, cc.T)),
     BMul(BMul(cc.vol, den), "100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"))]
     \* 50+12+60+24 -12 -50 -72 = 12
Y3(cc, i, j, Y) == IF cc.form = "irr" THEN [a \in I3 |-> Y[3*cc.n*(i-1) + 3*(j-1) + a]] ELSE [a \in I3 |-> Y[a][cc.n*(i-1) + j]]
AsmOK(cc, U, M, X, w, den) ==
  LET flat == [x \in 1..(3*cc.n*Len(cc.f)) |-> X[Ii(cc, x)][Jj(cc, x)][Aa(x)]]
      Y == IF cc.form = "irr" THEN Solve(cc, U, flat)
           ELSE TLCEval([a \in I3 |-> Solve(cc, U, [x \in 1..(cc.n*Len(cc.f)) |-> X[((x-1) \div cc.n) + 1][((x-1) % cc.n) + 1][a]])])
      mode == TLCEval([i \in 1..Len(cc.f) |-> TLCEval([j \in 1..cc.n |-> ModeXY(cc, i, j, X[i][j], Y3(cc, i, j, Y), den)])])
      my == BMaxAbs([i \in 1..Len(cc.f) |-> BMaxAbs([j \in 1..cc.n |-> BMaxAbs(Y3(cc, i, j, Y))])])
      mm == BMaxAbs([i \in 1..Len(cc.f) |-> BMaxAbs([j \in 1..cc.n |-> BMaxAbs(mode[i][j])])])
  IN /\ \A i \in 1..Len(cc.f) : \A j \in 1..cc.n : \A a \in I3 :
          BNear(BDiv(BMul(BMul(cc.fv[i][j][a], 2), w[i]), E25), Y3(cc, i, j, Y)[a], BAdd(BDiv(my, 10000000), 100000000))
     /\ \A i \in 1..Len(cc.f) : \A j \in 1..cc.n : BCloseSeq(cc.mode[i][j], mode[i][j], BAdd(BDiv(mm, 10000000), 1000), 1)
     /\ BCloseSeq(cc.kappa, [k \in 1..6 |-> BRound(SumModes(mode, k), cc.N)], BAdd(BDiv(mm, 10000000), 1000), 1)
\* relaxation time approximation with the rates mt
RtaOK(cc, X, mt, den) == LET
     mode == TLCEval([i \in 1..Len(cc.f) |-> TLCEval([j \in 1..cc.n |-> IF Below(cc, cc.f[i][j]) \/ mt[i][j] = "0" THEN Zero6
               ELSE ModeXY(cc, i, j, X[i][j], [a \in I3 |-> BDiv(BMul(X[i][j][a], E25), mt[i][j])], den)])])
     small == \E i \in 1..Len(cc.f) : \E j \in 1..cc.n : ~Below(cc, cc.f[i][j]) /\ BLeq(BAbs(mt[i][j]), "1000000000000000")
     mm == BMaxAbs([i \in 1..Len(cc.f) |-> BMaxAbs([j \in 1..cc.n |-> BMaxAbs(mode[i][j])])])
   IN small \/ (/\ \A i \in 1..Len(cc.f) : \A j \in 1..cc.n : BCloseSeq(cc.rmode[i][j], mode[i][j], BAdd(BDiv(mm, 10000000), 1000), 1)
                /\ BCloseSeq(cc.rkappa, [k \in 1..6 |-> BRound(SumModes(mode, k), cc.N)], BAdd(BDiv(mm, 10000000), 1000), 1))
AsmInv == Of({"asm"}) => LET
    ops == Ops(c)
    w == IF c.form = "irr" THEN Wts(c, ops) ELSE [i \in 1..Len(c.f) |-> E25]
    M == IF c.form = "irr" THEN IrMatrix(c, ops, Carts(c, ops), w) ELSE RedMatrix(c, ops)
    X == Xs(c, w)
    den == IF c.form = "irr" THEN 1 ELSE Len(ops)
    mt == TLCEval([i \in 1..Len(c.f) |-> TLCEval([j \in 1..c.n |-> IF c.form = "irr" THEN Main(c, i, j) ELSE M[c.n*(i-1)+j][c.n*(i-1)+j]])])
  IN /\ RtaOK(c, X, mt, den)
     /\ BCloseSeq(<<BSum([i \in 1..Len(M) |-> M[i][i]])>>, <<BSum(c.w)>>, BAdd(BDiv(BMaxAbs(c.w), 100000000), 1000), 1)
     /\ \E U \in {c.U, Tr(c.U)} : /\ Unit(c, U)
                                  /\ Solves(c, M, U)
                                  /\ AsmOK(c, U, M, X, w, den)
\* quantities of the full mesh are those of the irreducible points
ExpandInv == Of({"expand"}) => LET ops == Ops(c) R == Carts(c, ops) at == PtIndex(c) IN
  \A i \in 1..Len(c.irq) : LET hit == TLCEval([o \in 1..Len(ops) |-> at[Mod(c, MVec(ops[o], c.irq[i]))]]) IN
   \A o \in 1..Len(ops) : LET g == hit[o] same == Sorted({x \in 1..Len(ops) : hit[x] = g}) IN
     /\ \A k \in 1..Len(c.ir) : BCloseSeq(c.full[k][g], c.ir[k][i], BAdd(BDiv(BMaxAbs(c.ir[k][i]), 100000000), 1000), 1000)
     /\ \A j \in 1..c.n : \A a \in I3 :
          BNear(c.vfull[g][j][a], BDiv(BSum([x \in 1..Len(same) |-> BDot(R[same[x]][a], c.v[i][j])]), BMul(E25, Len(same))), "100000")
=============================================================================
