------------------------------ MODULE Triplets ------------------------------
(***************************************************************************)
(* Triplets (q0, q1, q2), q0 + q1 + q2 = G, at a fixed grid point q0.      *)
(* A pair is given by q1, an element of the group Z_D; q2 = -q0 - q1.      *)
(* The little group of q0 and, if allowed, exchange of q1 and q2 act on    *)
(* Z_D; the triplet list holds one member of every orbit.                  *)
(***************************************************************************)
EXTENDS Cases, Lattice

g == Case
D == g.D
N == NGrid(D)
NBZ == Len(g.addresses)
Adr(gp) == g.addresses[gp + 1]
Zero3 == <<0, 0, 0>>
All == 0..(N-1)
Equiv(i) == {gp \in 0..(NBZ-1) : g.bzg2grg[gp+1] = i}
A0 == Adr(g.gp)
I0 == GIdx(A0, D)

\* the little group of q0, on addresses
Ops == Range(g.rotations) \cup (IF g.tr THEN {MNeg(R) : R \in Range(g.rotations)} ELSE {})
Little == {R \in Ops : GIdx(MVec(R, A0), D) = I0}
Act(R, i) == GIdx(MVec(R, GAdr(i, D)), D)
Third(i) == GIdx(VNeg(VAdd(A0, GAdr(i, D))), D)
Orb(i) == {Act(R, i) : R \in Little}
\* with symmetry switched off every q1 stands for itself
QClass(i) == IF g.sym THEN Orb(i) ELSE {i}
TClass(i) == IF g.sym THEN Orb(i) \cup (IF g.swap THEN Orb(Third(i)) ELSE {}) ELSE {i}

\* a map that picks one representative per class
Picks(map, Cls(_)) ==
  /\ Len(map) = N
  /\ \A i \in All : /\ map[i+1] \in Cls(i)
                    /\ \A j \in Cls(i) : map[j+1] = map[i+1]
MapQInv == IsCase => Picks(g.map_q, QClass)
MapTInv == IsCase => Picks(g.map_triplets, TClass)

NT == Len(g.triplets)
Sum(t) == VAdd(Adr(t[1]), VAdd(Adr(t[2]), Adr(t[3])))
IsRep(i) == g.map_triplets[i+1] = i
ListInv == IsCase =>
  /\ \A k \in 1..NT : \A m \in 1..3 : g.triplets[k][m] \in 0..(NBZ-1)
  /\ \A k \in 1..NT : LET t == g.triplets[k] IN
        /\ g.bzg2grg[t[1]+1] = I0
        /\ IsRep(g.bzg2grg[t[2]+1])
        /\ g.bzg2grg[t[3]+1] = Third(g.bzg2grg[t[2]+1])
        /\ GIdx(Sum(t), D) = 0
  /\ {g.bzg2grg[g.triplets[k][2]+1] : k \in 1..NT} = {i \in All : IsRep(i)}
  /\ NT = Cardinality({i \in All : IsRep(i)})
\* triplets are in the order of their representatives, as the weights are
OrderInv == IsCase => \A k \in 1..(NT-1) :
  g.bzg2grg[g.triplets[k][2]+1] < g.bzg2grg[g.triplets[k+1][2]+1]
WeightInv == IsCase =>
  /\ Len(g.weights) = NT
  /\ \A k \in 1..NT : g.weights[k] = Cardinality(TClass(g.bzg2grg[g.triplets[k][2]+1]))
  /\ SumSeq(g.weights) = N

Combos(t) == {<<a, b, c>> : a \in Equiv(g.bzg2grg[t[1]+1]), b \in Equiv(g.bzg2grg[t[2]+1]), c \in Equiv(g.bzg2grg[t[3]+1])}
\* a triplet is listed as Umklapp only if no equivalent choice is normal
NormalInv == IsCase => \A k \in 1..NT :
  (\E s \in Combos(g.triplets[k]) : Sum(s) = Zero3) => Sum(g.triplets[k]) = Zero3
\* the reciprocal lattice vector of the sum is the shortest possible
GLen2(s) == LET a == Sum(s) IN
  Quad(g.M, MVec(g.Q, <<a[1] \div D[1], a[2] \div D[2], a[3] \div D[3]>>))
SmallestG == IsCase => \A k \in 1..NT :
  \A s \in Combos(g.triplets[k]) : GLen2(s) >= GLen2(g.triplets[k])

\* triplets of all q1
AllInv == IsCase =>
  /\ Len(g.all_triplets) = N
  /\ \A i \in All : LET t == g.all_triplets[i+1] IN
       /\ g.bzg2grg[t[1]+1] = I0
       /\ g.bzg2grg[t[2]+1] = i
       /\ g.bzg2grg[t[3]+1] = Third(i)
       /\ (\E s \in Combos(t) : Sum(s) = Zero3) => Sum(t) = Zero3
=============================================================================
