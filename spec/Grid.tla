-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* The reciprocal-space sampling grid.  A grid is (D, Q, PS): grid point i *)
(* has an integer address a (residue class mod D) and stands for the       *)
(* q-point Q D^-1 (a + PS/2).  What users rely on:                         *)
(*   - addresses and indices are in bijection, every residue class occurs; *)
(*   - the BZ grid lists, for every residue class, exactly the shortest    *)
(*     translationally equivalent addresses (metric M), and its maps to    *)
(*     and from the plain grid are mutually inverse;                       *)
(*   - a generalized regular grid samples all q with A q integer;          *)
(*   - rotations act on grid points as they act on q-points, and the       *)
(*     irreducible points with their weights are the orbits of the group.  *)
(***************************************************************************)
EXTENDS Cases, Lattice

g == Case
Adr(gp) == g.addresses[gp + 1]
DAdr(gp) == VAdd(VScale(2, Adr(gp)), g.PS)
NBZ == Len(g.addresses)
N == NGrid(g.D)
InGrid == IsCase /\ g.kind = "grid"

\* ------------------------------------------------------------ index maps
BZofGR(i) == {gp \in 0..(NBZ-1) : g.bzg2grg[gp+1] = i}
IndexInv == InGrid =>
  /\ Len(g.bzg2grg) = NBZ /\ Len(g.grg2bzg) = N
  /\ \A gp \in 0..(NBZ-1) : g.bzg2grg[gp+1] = GIdx(Adr(gp), g.D)
  /\ \A i \in 0..(N-1) : /\ g.grg2bzg[i+1] \in 0..(NBZ-1)
                         /\ g.bzg2grg[g.grg2bzg[i+1] + 1] = i
  /\ g.bzg2grg[g.gamma + 1] = 0
  /\ g.PS = <<0,0,0>> => Adr(g.gamma) = <<0,0,0>>
  /\ Cardinality(Range(g.addresses)) = NBZ
  /\ \A i \in 1..N : /\ g.gr_addresses[i] = GAdr(i-1, g.D)
                     /\ g.idx_of_shifted[i] = i - 1
                     /\ g.idx_py[i] = i - 1
\* address -> BZ grid point look-up by arbitrary equivalent addresses
LookupInv == InGrid => \A k \in 1..Len(g.lookup_in) :
   g.lookup_out[k] = g.grg2bzg[GIdx(g.lookup_in[k], g.D) + 1]
\* gp_map in the layout that was asked for
MapInv == InGrid =>
  IF g.dense THEN
     /\ g.gp_map[1] = 0 /\ g.gp_map[N+1] = NBZ
     /\ \A i \in 0..(N-1) : BZofGR(i) = g.gp_map[i+1]..(g.gp_map[i+2]-1)
  ELSE
     \A i \in 0..(N-1) : BZofGR(i) = {i} \cup ((N + g.gp_map[8*N + i + 1])..(N + g.gp_map[8*N + i + 2] - 1))

\* ---------------------------------------------- Brillouin-zone addresses
QN(dadr) == QNum(g.Q, g.D, dadr)
Len2(dadr) == Quad(g.M, QN(dadr))
QI == UInv(g.Q)
\* address displacement of reciprocal lattice vector G (coordinates w.r.t. basis)
GShift(G) == LET h == MVec(QI, G) IN <<h[1]*g.D[1], h[2]*g.D[2], h[3]*g.D[3]>>
NearG == Box(g.box)
BZInv == InGrid =>
  \A i \in 0..(N-1) :
    LET S == {Adr(gp) : gp \in BZofGR(i)}
        a0 == Adr(g.grg2bzg[i+1])
        l0 == Len2(VAdd(VScale(2, a0), g.PS))
        u0 == QN(VAdd(VScale(2, a0), g.PS))
        L == QDen(g.D)
        l(G) == Quad(g.M, VAdd(u0, VScale(L, G)))
    IN /\ \A G \in NearG : l(G) >= l0
       /\ S = {VAdd(a0, GShift(G)) : G \in {H \in NearG : l(H) = l0}}

\* ------------------------------------------------- generalized regular grid
GRGInv == (InGrid /\ g.has_A) =>
  /\ MMul(MMul(g.P, g.A), g.Q) = Diag(g.D)
  /\ AbsI(Det(g.P)) = 1 /\ AbsI(Det(g.Q)) = 1
  /\ \A k \in I3 : g.D[k] > 0
  /\ N = AbsI(Det(g.A))
QUniInv == InGrid => AbsI(Det(g.Q)) = 1 /\ AbsI(Det(g.P)) = 1
\* a grid is refused exactly when it is not invariant under the point group
\* R Q D^-1 = Q D^-1 R~ must have an integer solution R~
RelOK(R, Q, D) == \* R~ = D Q^-1 R Q D^-1 integer
  LET T == MMul(MMul(UInv(Q), R), Q) IN
  \A i \in I3, j \in I3 : (D[i] * T[i][j]) % D[j] = 0
RefuseInv == (IsCase /\ g.kind = "refused") =>
  \E k \in 1..Len(g.rec_ops) :
     LET T == MMul(g.A, MMul(g.rec_ops[k], Adj(g.A))) \* A R A^-1 * det
     IN \E i \in I3, j \in I3 : T[i][j] % AbsI(Det(g.A)) # 0

\* ------------------------------------------- grids chosen from a length l
\* The Born-von Karman cell of grid matrix A has the rows of A as its basis
\* (in units of the primitive cell).  For a length it is n1 x n2 x n3 times a
\* conventional cell C holding the centring number of primitive cells, and
\* n_j is the integer nearest to l times the length of the j-th reciprocal
\* basis vector of C (at least 1).
InLen == IsCase /\ g.kind = "length"
Divides(n, v) == \A k \in I3 : v[k] % n = 0
Conv(n) == [j \in I3 |-> <<g.A[j][1] \div n[j], g.A[j][2] \div n[j], g.A[j][3] \div n[j]>>]
RoundOK(n, C, j) == LET b == Quad(g.M, Col(Adj(C), j)) * g.len10 * g.len10  \* (10 l |b_j| det)^2
                        d == 10 * AbsI(Det(C)) IN
  /\ 4 * b <= (2*n + 1) * (2*n + 1) * d * d
  /\ n = 1 \/ 4 * b >= (2*n - 1) * (2*n - 1) * d * d
LenInv == InLen =>
  /\ g.refused = ""
  /\ MMul(MMul(g.P, g.A), g.Q) = Diag(g.D)
  /\ \A k \in I3 : g.D[k] > 0
  \* invariant under the point group: A W^T A^-1 is an integer matrix
  /\ \A w \in 1..Len(g.rots) :
        LET T == MMul(g.A, MMul(Transp(g.rots[w]), Adj(g.A))) IN
        \A i \in I3, j \in I3 : T[i][j] % AbsI(Det(g.A)) = 0
  /\ g.coord = "reciprocal" =>
        \E n \in {x \in (1..g.nmax) \X (1..g.nmax) \X (1..g.nmax) :
                    /\ \A j \in I3 : Divides(x[j], g.A[j])
                    /\ AbsI(Det(g.A)) = g.cent * x[1] * x[2] * x[3]} :
           \A j \in I3 : RoundOK(n[j], Conv(n), j)

\* ------------------------------------------------------------- symmetry
RecOps == Range(g.rec_ops)
DirOps == Range(g.dir_rots)
\* reciprocal operations: transposed inverses of the direct ones, with -1
ToRec(W) == Transp(UInv(W))
OpsInv == InGrid =>
  /\ RecOps = {ToRec(W) : W \in DirOps} \cup (IF g.tr THEN {MNeg(ToRec(W)) : W \in DirOps} ELSE {})
  /\ Cardinality(RecOps) = Len(g.rec_ops)
  /\ Len(g.rotations) = Len(g.rec_ops)
  /\ \A k \in 1..Len(g.rotations) :
       /\ RelOK(g.rec_ops[k], g.Q, g.D)
       /\ LET L == Lcm(g.D[1], Lcm(g.D[2], g.D[3]))
              QD == MMul(g.Q, Diag(<<L \div g.D[1], L \div g.D[2], L \div g.D[3]>>))
          IN MMul(g.rec_ops[k], QD) = MMul(QD, g.rotations[k])
       /\ MMul(Transp(g.rec_ops[k]), MMul(g.M, g.rec_ops[k])) = g.M
RotD(k, dadr) == MVec(g.rotations[k], dadr)
HalfAdr(d) == LET e == VSub(d, g.PS) IN <<e[1] \div 2, e[2] \div 2, e[3] \div 2>>
Image(k, dadr) == GIdx(HalfAdr(RotD(k, dadr)), g.D)
RotInv == InGrid => \A t \in 1..Len(g.rot_gps) :
  LET gp == g.rot_gps[t] IN
  \A k \in 1..Len(g.rotations) :
     /\ g.rot_out[t][k] = g.grg2bzg[Image(k, DAdr(gp)) + 1]
     /\ LET s == g.rot_surf[t][k] IN
          /\ s \in 0..(NBZ-1)
          /\ (\E x \in BZofGR(Image(k, DAdr(gp))) : DAdr(x) = RotD(k, DAdr(gp))) =>
                DAdr(s) = RotD(k, DAdr(gp))
\* the group maps the BZ onto itself, so the rotated address is always listed
RotClosed == InGrid => \A t \in 1..Len(g.rot_gps) : \A k \in 1..Len(g.rotations) :
     DAdr(g.rot_surf[t][k]) = RotD(k, DAdr(g.rot_gps[t]))
GRDAdr(i) == VAdd(VScale(2, GAdr(i, g.D)), g.PS)
Orbit(i) == {Image(k, GRDAdr(i)) : k \in 1..Len(g.rotations)}
IrInv == InGrid =>
  /\ \A i \in 0..(N-1) : LET o == Orbit(i) IN
       /\ g.ir_map[i+1] \in o
       /\ \A j \in o : g.ir_map[j+1] = g.ir_map[i+1]
       /\ g.ir_map[g.ir_map[i+1] + 1] = g.ir_map[i+1]
  /\ \A i, j \in 0..(N-1) : (i < j /\ g.ir_map[i+1] = g.ir_map[j+1]) => j \in Orbit(i)
  /\ Range(g.ir_points) = Range(g.ir_map)
  /\ Cardinality(Range(g.ir_points)) = Len(g.ir_points)
  /\ Len(g.ir_weights) = Len(g.ir_points)
  /\ \A k \in 1..Len(g.ir_points) : g.ir_weights[k] = Cardinality(Orbit(g.ir_points[k]))
  /\ SumSeq(g.ir_weights) = N
=============================================================================
