------------------------------- MODULE Kappa -------------------------------
(***************************************************************************)
(* Lattice thermal conductivity in the relaxation time approximation.      *)
(*                                                                         *)
(* A "kappa" case is one finished calculation: what the code holds per     *)
(* grid point (frequencies f 12, group velocities v 12, rates 60 decimals) *)
(* and what it returned.  The module assembles heat capacity, star         *)
(* average, total rate and tensor itself.                                  *)
(* gs: grid points, each [q numerators, f[band], v[band][3], w (weight)].  *)
(* lin: lattice as columns (12 decimals) and inverse; ops: point group in  *)
(* crystal coordinates (direct); linewidth itself: SelfEnergy, kind "ise". *)
(***************************************************************************)
EXTENDS SelfEnergy
E6 == "1000000"
E18 == "1000000000000000000"
E24 == "1000000000000000000000000"
\* ---------------------------------------------------------------- symmetry
\* operations on wave vectors: transposes of the direct ones, time reversal
RecOps(cc) == LET r == {Transp(cc.ops[i]) : i \in 1..Len(cc.ops)} IN
   IF ~cc.star THEN {Id3} ELSE IF cc.tr THEN r \cup {MNeg(m) : m \in r} ELSE r
Multi(cc, g) == Cardinality({r \in RecOps(cc) : ModV(MVec(r, g.q), <<cc.qd, cc.qd, cc.qd>>) = ModV(g.q, <<cc.qd, cc.qd, cc.qd>>)})
Order(cc, g) == Cardinality(RecOps(cc)) \div Multi(cc, g)
NSample(cc) == SumSeq([i \in 1..Len(cc.gs) |-> Order(cc, cc.gs[i])])
\* vector (cartesian, 12) to crystal coordinates (12 + 12) and back
BMV(m, v) == [i \in I3 |-> BDot(m[i], v)]
BTensor(A, T) == \* A T A^t
   LET x == TLCEval([i \in I3 |-> TLCEval([j \in I3 |-> BDot(A[i], <<T[1][j], T[2][j], T[3][j]>>)])])
   IN TLCEval([i \in I3 |-> TLCEval([j \in I3 |-> BDot(x[i], A[j])])])
Six(T) == <<T[1][1], T[2][2], T[3][3], T[2][3], T[1][3], T[1][2]>>
DirOps(cc) == IF ~cc.star THEN {Id3} ELSE {Transp(r) : r \in RecOps(cc)}
\* sum over the group of the outer products of v, over the order of the group
\* of the point, as six numbers of 24 decimals
StarVV(cc, g, v) == LET
     u == TLCEval([i \in I3 |-> BRound(BDot(cc.inv[i], v), E6)])         \* 18 decimals
     m == Multi(cc, g)
     sum == LET o == SetToSeq({<<r, MVec(r, <<1, 0, 0>>)>> : r \in DirOps(cc)}) IN
            LET w == TLCEval([k \in 1..Len(o) |-> TLCEval([i \in I3 |-> BDot(o[k][1][i], u)])]) IN
            TLCEval([i \in I3 |-> TLCEval([j \in I3 |-> BSum([k \in 1..Len(w) |-> BMul(w[k][i], w[k][j])])])])  \* 36
     c24 == TLCEval([i \in I3 |-> TLCEval([j \in I3 |-> BRound(BMul(sum[i][j], E12), BMul(E18, m))])])           \* 30
     t == BTensor(cc.lat, c24)                                            \* 54
   IN [k \in 1..6 |-> BRound(Six(t)[k], BMul(E24, E6))]
\* ----------------------------------------------------------- heat capacity
\* of one mode in eV/K, 60 decimals
Kb == "86173382568083159000000000000000000000000000000000000000"
Cv(f, T, cut) == IF T = "0" \/ BLeq(f, cut) THEN "0" ELSE
   LET x == BDiv(BMul(BMul(f, HK), "1000000000000000"), T) IN
   IF BLeq(BMul(S, 100), x) THEN "0"
   ELSE LET e == BExp(x, S) d == BSub(e, S) IN
        BRound(BMul(Kb, BMul(BMul(x, x), e)), BMul(S, BMul(d, d)))
\* ------------------------------------------------------------------ rates
\* boundary rate of velocity v and length L (micrometre, 12), 60 decimals
FourPi == "12566370614359172953850573533118"   \* 30
Boundary(v, L) == IF L = "0" THEN "0" ELSE
   LET n == BSqrt(BMul(BDot(v, v), E24)) IN  \* 24 decimals
   BDiv(BMul(n, "100000000000000000000000000000000000000000000000000000000000000000000000000"), BMul(FourPi, L))
Rate(cc, j, k, i, b) == BAdd(cc.gamma[j][k][i][b], BAdd(IF cc.isotope THEN cc.iso[j][i][b] ELSE "0", Boundary(cc.gs[i].v[b], cc.length)))
\* ------------------------------------------------------------------ tensor
\* conversion: Data.conv over volume (12); result 12 decimals
Mode(cc, vv, cv, rate) == [x \in 1..6 |-> IF rate = "0" THEN "0" ELSE
   \* vv 24, cv 60, rate 60, conv 12, vol 12
   BRound(BMul(BMul(vv[x], cv), Data.conv), BMul(BMul(rate, 2), BMul(cc.vol, E12)))]
Below(cc, f) == BLeq(f, cc.cut)
Tab(cc) == TLCEval([i \in 1..Len(cc.gs) |-> TLCEval([b \in 1..Len(cc.gs[i].f) |-> StarVV(cc, cc.gs[i], cc.gs[i].v[b])])])
CvTab(cc) == TLCEval([k \in 1..Len(cc.T) |-> TLCEval([i \in 1..Len(cc.gs) |-> TLCEval([b \in 1..Len(cc.gs[i].f) |-> Cv(cc.gs[i].f[b], cc.T[k], cc.cut)])])])
Clo(a, b, abs) == BCloseSeq(a, b, BAdd(abs, BDiv(BMaxAbs(b), 100000000)), 1000)
Zero6 == <<"0", "0", "0", "0", "0", "0">>
\* error of v v, 24 decimals
Noise6 == [x \in 1..6 |-> "1000000000000000"]
ModeOK(cc, j, k, i, b, tab, cv) == LET g == cc.mode[j][k][i][b] IN
  IF Below(cc, cc.gs[i].f[b]) THEN g = Zero6
  ELSE LET r == Rate(cc, j, k, i, b) IN
       \/ BLeq(BAbs(r), S)   \* rates below 10^-30 THz are rounding errors
       \/ BCloseSeq(g, Mode(cc, tab[i][b], cv[k][i][b], r), BAdd("1000", BAdd(BAbs(Mode(cc, Noise6, cv[k][i][b], r)[1]), BDiv(BMaxAbs(g), 100000000))), 1000)
SumModes(m, x) == BSum([i \in 1..Len(m) |-> BSum([b \in 1..Len(m[i]) |-> m[i][b][x]])])
KappaInv == Of({"kappa"}) => LET tab == Tab(c) cv == CvTab(c) N == NSample(c) IN
  /\ \A i \in 1..Len(c.gs) : \A b \in 1..Len(c.gs[i].f) : Clo(c.vv[i][b], tab[i][b], "1000000000000000")
  /\ \A k \in 1..Len(c.T) : \A i \in 1..Len(c.gs) : Clo(c.cv[k][i], cv[k][i], BMul(E18, E24))
  /\ \A j \in 1..Len(c.gamma) : \A k \in 1..Len(c.T) :
       /\ \A i \in 1..Len(c.gs) : \A b \in 1..Len(c.gs[i].f) : ModeOK(c, j, k, i, b, tab, cv)
       /\ c.kappa # <<>> => Clo(c.kappa[j][k], [x \in 1..6 |-> BRound(SumModes(c.mode[j][k], x), N)], "1000")
\* weights are the numbers of equivalent grid points; all points are covered
WeightInv == Of({"kappa"}) =>
  /\ (c.full /\ c.sym) => /\ NSample(c) = c.N
                          /\ \A i \in 1..Len(c.gs) : c.gs[i].w = Order(c, c.gs[i])
  /\ c.full => SumSeq([i \in 1..Len(c.gs) |-> c.gs[i].w]) = c.N
  /\ \A j \in 1..Len(c.gamma) : \A k \in 1..Len(c.T) : c.kappa # <<>> =>
        c.ignored[j][k] = SumSeq([i \in 1..Len(c.gs) |-> Cardinality({b \in 1..Len(c.gs[i].f) : Below(c, c.gs[i].f[b])})])
\* the tensor obeys the symmetry of the crystal
Full6(s) == <<<<s[1], s[6], s[5]>>, <<s[6], s[2], s[4]>>, <<s[5], s[4], s[3]>>>>
TensorInv == Of({"tensor"}) => \A n \in 1..Len(c.tensors) :
  LET K == Full6(c.tensors[n])                                         \* 12
      C == TLCEval(BTensor(c.inv, K))                                  \* 36, crystal coordinates
      mx == BMaxAbs([x \in 1..9 |-> C[((x-1) \div 3) + 1][((x-1) % 3) + 1]])
  IN \A o \in 1..Len(c.ops) : \A i, j \in I3 :
       BNear(BTensor(c.ops[o], C)[i][j], C[i][j], BAdd(BDiv(mx, 1000000), "1000000000000000000000000000"))
\* two routes to the same numbers
CloseInv == Of({"close"}) => /\ Len(c.a) = Len(c.z)
                             /\ BCloseSeq(c.a, c.z, BAdd(c.abs, BDiv(BMaxAbs(c.z), c.rel)), 1)
\* strength averaged over the bands and summed over the triplets, 40 decimals
AveInv == Of({"ave"}) => LET b == Bases[c.b] IN
  /\ Len(c.got) = b.n
  /\ \A i \in 1..b.n : BClose(c.got[i],
      BRound(BSum([t \in 1..Len(b.w) |-> BMul(b.w[t], BSum(SubSeq(b.v[t], Fl(b, i, 1, 1), Fl(b, i, b.n, b.n))))]), b.n * b.n), "1000000000000000000", 1000)
=============================================================================
