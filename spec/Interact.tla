------------------------------ MODULE Interact ------------------------------
(***************************************************************************)
(* Three-phonon interaction strength.                                      *)
(*                                                                         *)
(* Exact part of a world: the supercell (metric, integer positions), which *)
(* atoms are primitive, the integer matrix from supercell to primitive     *)
(* components, and D, Q of the grid.  From these the spec finds the        *)
(* shortest vectors and the phases.  Real numbers (force constants, mass   *)
(* factors, eigenvectors, frequencies, the table of cosines) are big       *)
(* integers with twelve decimals; the table is validated by TableInv.      *)
(***************************************************************************)
EXTENDS Cases, Lattice, BigNum
c == Case
Worlds == Data.worlds
E12 == "1000000000000"
E24 == "1000000000000000000000000"
E30 == "1000000000000000000000000000000"
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* ------------------------------------------------------- geometry of a world
Cand(w, i, j) == {VAdd(VSub(w.pos[j], w.pos[i]), VScale(w.den, n)) : n \in Box(2)}
Shortest(w, i, j) == LET C == Cand(w, i, j)
                         m == MinOf({Quad(w.G, r) : r \in C})
                     IN {r \in C : Quad(w.G, r) = m}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
\* components along the primitive vectors, over w.den
ToPrim(w, r) == <<Dot(r, Col(w.Mp, 1)), Dot(r, Col(w.Mp, 2)), Dot(r, Col(w.Mp, 3))>>
NP(w) == Len(w.p2s)
NS(w) == Len(w.pos)
NB(w) == 3 * NP(w)
Geo == TLCEval([x \in 1..Len(Worlds) |-> LET w == Worlds[x] IN
  [sv |-> TLCEval([i \in 1..NP(w) |-> TLCEval([j \in 1..NS(w) |->
              LET s == SetSeq(Shortest(w, w.p2s[i] + 1, j)) IN [n \in 1..Len(s) |-> ToPrim(w, s[n])]])]),
   at |-> TLCEval([p \in 1..NP(w) |-> SetSeq({j \in 1..NS(w) : w.s2p[j] = w.p2s[p]})]),
   o  |-> [i \in 1..NP(w) |-> ToPrim(w, VSub(w.pos[w.p2s[i] + 1], w.pos[w.p2s[1] + 1]))]]])
\* real-space force constants of primitive atoms i and copies of j and k
FVec == TLCEval([x \in 1..Len(Worlds) |-> LET w == Worlds[x] g == Geo[x] IN
  TLCEval([i \in 1..NP(w) |-> TLCEval([j \in 1..NP(w) |-> TLCEval([k \in 1..NP(w) |-> TLCEval([m \in 1..27 |->
    LET nk == Len(g.at[k]) IN TLCEval([y \in 1..(Len(g.at[j]) * nk) |->
       w.fc3[i][g.at[j][((y-1) \div nk) + 1]][g.at[k][((y-1) % nk) + 1]][m]])])])])])])
\* ------------------------------------------------------------------- phases
Tab(x) == Data.tables[Worlds[x].tab]
TableInv == (IsCase /\ c.kind = "table") => LET t == Data.tables[c.tab] T == t.T IN
  /\ Len(t.cos) = T /\ Len(t.sin) = T /\ t.cos[1] = E12 /\ t.sin[1] = "0"
  /\ \A k \in 1..T : LET n == (k % T) + 1 IN
       /\ BNear(BAdd(BMul(t.cos[k], t.cos[k]), BMul(t.sin[k], t.sin[k])), E24, BMul(E12, 10))
       /\ BNear(BMul(E12, t.cos[n]), BSub(BMul(t.cos[k], t.cos[2]), BMul(t.sin[k], t.sin[2])), BMul(E12, 10))
       /\ BNear(BMul(E12, t.sin[n]), BAdd(BMul(t.sin[k], t.cos[2]), BMul(t.cos[k], t.sin[2])), BMul(E12, 10))
       /\ (1 < k /\ 2 * (k - 1) < T) => BLeq(1, t.sin[k])
QN(w, adr) == QNum(w.Q, w.D, VScale(2, adr))
\* a complex number is <<re, im>> with twelve decimals
CMul(a, b) == << BRound(BSub(BMul(a[1], b[1]), BMul(a[2], b[2])), E12),
                 BRound(BAdd(BMul(a[1], b[2]), BMul(a[2], b[1])), E12) >>
Ph(x, q, r) == LET t == Tab(x) k == (Dot(q, r) % t.T) + 1 IN <<t.cos[k], t.sin[k]>>
MeanPh(x, q, S) == LET p == TLCEval([n \in 1..Len(S) |-> Ph(x, q, S[n])])
                   IN << BRound(BSum([n \in 1..Len(S) |-> p[n][1]]), Len(S)),
                         BRound(BSum([n \in 1..Len(S) |-> p[n][2]]), Len(S)) >>
Phase(x, q) == TLCEval([i \in 1..NP(Worlds[x]) |-> TLCEval([j \in 1..NS(Worlds[x]) |-> MeanPh(x, q, Geo[x].sv[i][j])])])
Pre(x, qs, i) == Ph(x, VAdd(qs[1], VAdd(qs[2], qs[3])), Geo[x].o[i])
\* Fourier sum with the first index as origin; the other legs carry qb and qc
Leg(x, pb, pc, i, j, k, pre) == LET g == Geo[x] nj == Len(g.at[j]) nk == Len(g.at[k])
     ph == TLCEval([y \in 1..(nj * nk) |-> CMul(pb[i][g.at[j][((y-1) \div nk) + 1]], pc[i][g.at[k][((y-1) % nk) + 1]])])
     re == TLCEval([y \in 1..(nj * nk) |-> ph[y][1]])
     im == TLCEval([y \in 1..(nj * nk) |-> ph[y][2]])
     f  == FVec[x][i][j][k]
  IN TLCEval([m \in 1..27 |-> CMul(<<BRound(BDot(f[m], re), E12), BRound(BDot(f[m], im), E12)>>, pre)])
M3(a, b, d) == 9*(a-1) + 3*(b-1) + d
\* reciprocal-space force constants [i][j][k][abc]
Rec(x, qs, r0) == LET w == Worlds[x] n == NP(w)
     p1 == Phase(x, qs[1])  p2 == Phase(x, qs[2])  p3 == Phase(x, qs[3])
     pre == TLCEval([i \in 1..n |-> Pre(x, qs, i)])
     L1 == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> TLCEval([k \in 1..n |-> Leg(x, p2, p3, i, j, k, pre[i])])])])
     L2 == IF r0 THEN TLCEval([j \in 1..n |-> TLCEval([i \in 1..n |-> TLCEval([k \in 1..n |-> Leg(x, p1, p3, j, i, k, pre[j])])])]) ELSE <<>>
     L3 == IF r0 THEN TLCEval([k \in 1..n |-> TLCEval([j \in 1..n |-> TLCEval([i \in 1..n |-> Leg(x, p2, p1, k, j, i, pre[k])])])]) ELSE <<>>
  IN IF ~r0 THEN L1
     ELSE TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> TLCEval([k \in 1..n |-> TLCEval([m \in 1..27 |->
          LET a == ((m-1) \div 9) + 1  b == (((m-1) \div 3) % 3) + 1  d == ((m-1) % 3) + 1
              u == L1[i][j][k][m]  v == L2[j][i][k][M3(b, a, d)]  z == L3[k][j][i][M3(d, b, a)]
          IN << BRound(BAdd(u[1], BAdd(v[1], z[1])), 3), BRound(BAdd(u[2], BAdd(v[2], z[2])), 3) >>])])])])
\* ------------------------------------------------------ to normal coordinates
\* mass-weighted eigenvectors: [band] -> [re: sequence, im: sequence]
Wt(x, e) == LET w == Worlds[x] n == NB(w) IN TLCEval([b \in 1..n |->
   [re |-> TLCEval([s \in 1..n |-> BRound(BMul(e.re[s][b], w.ism[((s-1) \div 3) + 1]), E12)]),
    im |-> TLCEval([s \in 1..n |-> BRound(BMul(e.im[s][b], w.ism[((s-1) \div 3) + 1]), E12)])]])
CDot(v, u) == << BRound(BSub(BDot(v.re, u.re), BDot(v.im, u.im)), E12), BRound(BAdd(BDot(v.re, u.im), BDot(v.im, u.re)), E12) >>
\* squared absolute value of the interaction matrix elements [b0][b1][b2], 24 decimals
Square(x, R, e0, e1, e2) == LET n == NB(Worlds[x])
     el(a, b, d) == R[((a-1) \div 3) + 1][((b-1) \div 3) + 1][((d-1) \div 3) + 1][9*((a-1) % 3) + 3*((b-1) % 3) + ((d-1) % 3) + 1]
     A == TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |-> LET
            v == [re |-> TLCEval([d \in 1..n |-> el(a, b, d)[1]]), im |-> TLCEval([d \in 1..n |-> el(a, b, d)[2]])]
            IN TLCEval([b2 \in 1..n |-> CDot(v, e2[b2])])])])
     B == TLCEval([a \in 1..n |-> TLCEval([b2 \in 1..n |-> LET
            v == [re |-> TLCEval([b \in 1..n |-> A[a][b][b2][1]]), im |-> TLCEval([b \in 1..n |-> A[a][b][b2][2]])]
            IN TLCEval([b1 \in 1..n |-> CDot(v, e1[b1])])])])
  IN TLCEval([b0 \in 1..n |-> TLCEval([b1 \in 1..n |-> TLCEval([b2 \in 1..n |-> LET
            v == [re |-> TLCEval([a \in 1..n |-> B[a][b2][b1][1]]), im |-> TLCEval([a \in 1..n |-> B[a][b2][b1][2]])]
            z == CDot(v, e0[b0])
            IN BAdd(BMul(z[1], z[1]), BMul(z[2], z[2]))])])])
Above(f, cut) == ~BLeq(f, cut)
\* the strength divided by the unit conversion, 18 decimals
Strength(sq, f0, f1, f2, cut) ==
  IF Above(f0, cut) /\ Above(f1, cut) /\ Above(f2, cut)
  THEN BRound(BMul(sq, E30), BMul(f0, BMul(f1, f2))) ELSE "0"
Formula == (IsCase /\ c.kind = "formula") => LET
     x == c.w
     qs == [i \in I3 |-> QN(Worlds[x], c.adr[i])]
     e == [i \in I3 |-> Wt(x, c.eig[i])]
     sq == Square(x, Rec(x, qs, c.r0), e[1], e[2], e[3])
     n == NB(Worlds[x])
     ex == TLCEval([y \in 1..(n*n*n) |-> LET b0 == ((y-1) \div (n*n)) + 1  b1 == (((y-1) \div n) % n) + 1  b2 == ((y-1) % n) + 1
              IN Strength(sq[b0][b1][b2], c.freq[1][b0], c.freq[2][b1], c.freq[3][b2], c.cut)])
  IN BCloseSeq(c.got, ex, BAdd(BDiv(BMaxAbs(ex), 1000000000), 2), 1000)
\* -------------------------------------- one strength, many ways to compute it
(* c.base[t]: strength of triplet t, all bands, no cutoff, no mask; c.perm[t]: *)
(* the six of them for the permuted triplets (only where c.sym).               *)
Var == IsCase /\ c.kind = "variant"
Ex6 == << <<1,2,3>>, <<3,1,2>>, <<2,3,1>>, <<3,2,1>>, <<1,3,2>>, <<2,1,3>> >>
Fl(n, b0, b1, b2) == (b0-1)*n*n + (b1-1)*n + b2
Plain(t, b) == IF ~c.sym THEN c.base[t][Fl(c.n, b[1], b[2], b[3])]
  ELSE BRound(BSum([p \in 1..6 |-> c.perm[t][p][Fl(c.n, b[Ex6[p][1]], b[Ex6[p][2]], b[Ex6[p][3]])]]), 6)
VariantInv == Var => \A t \in 1..Len(c.freq) : LET nb0 == Len(c.bands)
     ex == TLCEval([y \in 1..(nb0 * c.n * c.n) |-> LET
        i0 == ((y-1) \div (c.n * c.n)) + 1  b == <<c.bands[i0] + 1, (((y-1) \div c.n) % c.n) + 1, ((y-1) % c.n) + 1>>
        IN IF c.average # "" THEN c.average
           ELSE IF ~(\A i \in I3 : Above(c.freq[t][i][b[i]], c.cut)) THEN "0"
           ELSE IF c.mask # <<>> /\ ~c.sym /\ c.mask[t][y] = 1 THEN "0"
           ELSE BRound(BMul(Plain(t, b), c.mulnum), c.mulden)])
  IN BCloseSeq(c.got[t], ex, BAdd(BDiv(BMul(BMaxAbs(c.base[t]), c.mulnum), BMul(c.mulden, 100000000)), 2), 1000)
NonNegative == (Var \/ (IsCase /\ c.kind = "formula")) =>
  IF c.kind = "formula" THEN \A y \in 1..Len(c.got) : BLeq(0, c.got[y])
  ELSE \A t \in 1..Len(c.got) : \A y \in 1..Len(c.got[t]) : BLeq(0, c.got[t][y])
\* exchange of modes: the strength of the permuted triplet with permuted bands
ExchangeInv == (IsCase /\ c.kind = "exchange") => LET n == c.n
     ex == TLCEval([y \in 1..(n*n*n) |-> LET b == <<((y-1) \div (n*n)) + 1, (((y-1) \div n) % n) + 1, ((y-1) % n) + 1>>
              IN c.base[Fl(n, b[c.to[1]], b[c.to[2]], b[c.to[3]])]])
  IN BCloseSeq(c.got, ex, BAdd(BDiv(BMaxAbs(ex), 100000000), 2), 1000)
\* symmetry: equal sums over degenerate sets at equivalent triplets
Group(n, d, b) == {x \in 1..n : d[x] = d[b]}
SumSets(v, n, d0, d1, d2, b) == LET ix == SetSeq({Fl(n, x, y, z) : x \in Group(n, d0, b[1]), y \in Group(n, d1, b[2]), z \in Group(n, d2, b[3])})
  IN BSum([i \in 1..Len(ix) |-> v[ix[i]]])
StarInv == (IsCase /\ c.kind = "star") => LET n == c.n IN
  \A b0, b1, b2 \in 1..n :
     BClose(SumSets(c.a, n, c.deg[1], c.deg[2], c.deg[3], <<b0, b1, b2>>),
            SumSets(c.b, n, c.deg[1], c.deg[2], c.deg[3], <<b0, b1, b2>>), BAdd(BDiv(BMaxAbs(c.a), 10000000), 5), 10000)
\* hbar^3 / (36 * 8 * (2 pi THz)^3) * eV^2 / (Angstrom^6 amu^3) / grid points, in eV^2
UnitInv == (IsCase /\ c.kind = "unit") => BClose(BMul(c.got, c.N), Data.unit, 10, 1000)
\* average of the strength over all mode pairs at the first mode
AverageInv == (IsCase /\ c.kind = "average") => \A b \in 1..Len(c.got) :
  BClose(c.got[b], BRound(BSum([t \in 1..Len(c.weights) |-> BMul(c.weights[t],
      BSum([y \in 1..(c.n * c.n) |-> c.v[t][(b-1) * c.n * c.n + y]]))]), c.n * c.n), 10, 1000)
=============================================================================
