------------------------------ MODULE Weights ------------------------------
(***************************************************************************)
(* Integration weights of delta functions over the Brillouin zone.         *)
(*                                                                         *)
(* A function that is linear inside a tetrahedron with corner values e1..e4*)
(* has the density  d/dx volume{e < x},  the share of corner i of which is *)
(* a quarter of the B-spline with the knots e1..e4 and e_i once more (this *)
(* is the definition used here: Cox - de Boor recursion in exact rational  *)
(* arithmetic, which knows about coinciding knots; the implementation uses *)
(* the explicit expressions of MacDonald et al. per interval).             *)
(* A grid point is a corner of 24 tetrahedra, each a sixth of a cell.      *)
(*                                                                         *)
(* Values and sampling points are integers in units of 1/U; weights are in *)
(* units of 1/S.                                                           *)
(***************************************************************************)
EXTENDS Cases, Lattice, BigNum, TLCExt, SequencesExt
g == Case
S == "1000000000000000000000000000000"  \* 10^30
U == 8
Tol == "100000000000000000"             \* 1e-13
Of(kinds) == IsCase /\ g.kind \in kinds

\* ---------------------------------------------------- the 24 tetrahedra
Signs == << <<1,1,1>>, <<-1,1,1>>, <<1,-1,1>>, <<1,1,-1>> >>
Perms == {p \in [I3 -> I3] : \A i, j \in I3 : i # j => p[i] # p[j]}
Unit(i, s) == [k \in I3 |-> IF k = i THEN s ELSE 0]
\* a walk along the axes from one end of the main diagonal to the other
Chain(sg, p) == LET a == Unit(p[1], sg[p[1]]) b == Unit(p[2], sg[p[2]]) c == Unit(p[3], sg[p[3]]) IN
  << <<0,0,0>>, a, VAdd(a, b), VAdd(VAdd(a, b), c) >>
\* tetrahedra with a corner at the origin, as sets of the three other corners
Around(sg) == {{VSub(Chain(sg, p)[k], Chain(sg, p)[j]) : k \in 1..4} \ {<<0,0,0>>} : p \in Perms, j \in 1..4}
\* M: the metric
Len2(M, v) == Quad(M, v)
Shortest(M) == {d \in 1..4 : \A e \in 1..4 : Len2(M, Signs[d]) <= Len2(M, Signs[e])}
TableOK(t, M) ==
  /\ Len(t) = 24
  /\ \A i \in 1..24 : Len(t[i]) = 4 /\ t[i][1] = <<0,0,0>>
  /\ \E d \in Shortest(M) : {{t[i][k] : k \in 2..4} : i \in 1..24} = Around(Signs[d])
\* metric of the lattice of the small cells, times a common factor
Micro == LET L == Lcm(g.D[1], Lcm(g.D[2], g.D[3])) IN
  LET B == MMul(MMul(g.Q, Diag(<<L \div g.D[1], L \div g.D[2], L \div g.D[3]>>)), g.P) IN MMul(Transp(B), MMul(g.M, B))
TableInv == IsCase /\ g.kind \in {"table", "iw", "trip", "unique"} => TableOK(g.table, IF g.kind = "table" THEN g.M ELSE Micro)

\* ------------------------------------------------------------- B-splines
\* from the splines of degree d-1 on the knots t those of degree d
Step(t, b, d, x) == [j \in 1..(Len(b) - 1) |->
  LET p == t[j+d] - t[j] q == t[j+d+1] - t[j+1] IN
  BAdd(IF p = 0 THEN 0 ELSE BDiv(BMul(b[j], x - t[j]), p),
       IF q = 0 THEN 0 ELSE BDiv(BMul(b[j+1], t[j+d+1] - x), q))]
Box0(t, x) == [j \in 1..(Len(t) - 1) |-> IF t[j] <= x /\ x < t[j+1] THEN S ELSE 0]
B3(t, x) == TLCEval(Step(t, TLCEval(Step(t, TLCEval(Step(t, Box0(t, x), 1, x)), 2, x)), 3, x))
B4(t, x) == TLCEval(Step(t, B3(t, x), 4, x))
Knots(e) == SortSeq(Append(e, e[1]), LAMBDA a, b : a < b)  \* the first corner counts twice
\* density of the first corner of a tetrahedron, times 24, per unit 1/U
IShare(e, x) == LET t == TLCEval(Knots(e)) IN
  IF x < t[1] \/ x >= t[5] THEN 0 ELSE BDiv(BMul(4, B3(t, x)[1]), t[5] - t[1])
\* its integral up to x
JShare(e, x) == LET t == TLCEval(Knots(e)) IN
  IF x < t[1] THEN 0 ELSE IF x >= t[5] THEN S
  ELSE LET tt == TLCEval(t \o <<t[5]+U, t[5]+U, t[5]+U, t[5]+U>>) IN BSum(B4(tt, x))
Share(fn, e, x) == IF fn = "I" THEN IShare(e, x) ELSE JShare(e, x)
\* es: the corner values of the 24 tetrahedra.  Weight per unit of the
\* sampling points for "I" (hence the factor U), a pure number for "J".
AtCorner(es, x) == \E i \in 1..24 : \E k \in 1..4 : es[i][k] = x
\* the sampling point meets a corner: the true value, and the value that
\* leaves out the tetrahedra concerned
True(fn, es, x) == BDiv(BMul(IF fn = "I" THEN U ELSE 1, BSum([i \in 1..24 |-> Share(fn, es[i], x)])), 24)
Cut(fn, es, x) == BDiv(BMul(IF fn = "I" THEN U ELSE 1,
   BSum([i \in 1..24 |-> IF \E k \in 1..4 : es[i][k] = x THEN 0 ELSE Share(fn, es[i], x)])), 24)
Same(got, fn, es, x) == \/ BNear(got, True(fn, es, x), Tol)
                        \/ AtCorner(es, x) /\ BNear(got, Cut(fn, es, x), Tol)
\* where a tetrahedron has three or more equal corners at x the density jumps
Jump(e, x) == \E T \in SUBSET (1..4) : Cardinality(T) >= 3 /\ \A k \in T : e[k] = x
Strictly(got, fn, es, x) == (fn = "I" /\ \E i \in 1..24 : Jump(es[i], x)) \/ BNear(got, True(fn, es, x), Tol)

\* --------------------------------------------------- weights at grid points
Rel(sgn, i, k) == VScale(sgn, MVec(g.P, g.table[i][k]))
Corner(gp, sgn, i, k) == GIdx(VAdd(g.addresses[gp+1], Rel(sgn, i, k)), g.D)
ValuesAt(gp, b) == [i \in 1..24 |-> [k \in 1..4 |-> g.values[Corner(gp, 1, i, k) + 1][b]]]
IwPred(P(_, _, _, _)) == \A n \in 1..Len(g.probes) : LET p == g.probes[n] IN
   LET es == TLCEval(ValuesAt(p.gp, p.b)) IN P(p.got, g.fn, es, p.x)
IwInv == Of({"iw"}) => IwPred(Same)
IwCorner == Of({"iw"}) => IwPred(Strictly)

\* ----------------------------------------------------- weights of triplets
\* p.t: triplet, p.b1, p.b2 bands, p.x sampling point, p.got the components
Clip(v) == IF v < 0 THEN 0 ELSE v
F1(p) == [i \in 1..24 |-> [k \in 1..4 |-> Clip(g.values[Corner(p.t[2], 1, i, k) + 1][p.b1])]]
F2(p) == [i \in 1..24 |-> [k \in 1..4 |-> Clip(g.values[Corner(p.t[3], -1, i, k) + 1][p.b2])]]
Comb(a, f1, b, f2) == [i \in 1..24 |-> [k \in 1..4 |-> a * f1[i][k] + b * f2[i][k]]]
Ks(es, P(_, _)) == \E i \in 1..24 : \E k \in 1..4 : P(es[i][k], 0)
Beyond(es, x) == (\A i \in 1..24 : \A k \in 1..4 : es[i][k] > x) \/ (\A i \in 1..24 : \A k \in 1..4 : es[i][k] < x)
\* delta(x - f1 - f2), delta(x + f1 - f2), delta(x - f1 + f2)
TripVals(p) == LET f1 == TLCEval(F1(p)) f2 == TLCEval(F2(p)) IN
  << Comb(1, f1, 1, f2), Comb(-1, f1, 1, f2), Comb(1, f1, -1, f2) >>
\* which of the three true or reduced values; the three may meet corners at once
TripOne(p, V(_, _, _)) == LET es == TLCEval(TripVals(p)) IN
  LET w == TLCEval([m \in 1..3 |-> V("I", es[m], p.x)]) IN
  /\ BNear(p.got[1], w[1], Tol)
  /\ BNear(p.got[2], BSub(w[2], w[3]), Tol)
  /\ Len(p.got) = 3 => BNear(p.got[3], BSum(w), Tol)
Pr(n) == g.probes[n]
TripInv == Of({"trip"}) => \A n \in 1..Len(g.probes) : TripOne(Pr(n), True) \/ TripOne(Pr(n), Cut)
TripCorner == Of({"trip"}) => \A n \in 1..Len(g.probes) : LET es == TLCEval(TripVals(Pr(n))) IN
   (\E m \in 1..3, i \in 1..24 : Jump(es[m][i], Pr(n).x)) \/ TripOne(Pr(n), True)
\* declared zero exactly where x is beyond all corners of all three functions
ZeroInv == Of({"trip"}) => \A n \in 1..Len(g.probes) : Pr(n).zero \in {0, 1} =>
  LET es == TLCEval(TripVals(Pr(n))) IN (Pr(n).zero = 1) = (\A m \in 1..3 : Beyond(es[m], Pr(n).x))

\* ------------------------------------------------------------- smearing
Sqrt2Pi == "2506628274631000502415765284811"
\* p.sig, p.cut in 1/U (cut = 0: none); d in 1/U
Gauss(d, sig) == BDiv(BMul(U, BMulS(BExp(BDiv(BMul(BMul(-(d * d), S), 1), 2 * sig * sig), S), BDivS(S, Sqrt2Pi, S), S)), sig)
SmearVals(p) == LET f1 == g.values[g.bzg2grg[p.t[2]+1] + 1][p.b1] f2 == g.values[g.bzg2grg[p.t[3]+1] + 1][p.b2] IN
  << p.x - f1 - f2, p.x + f1 - f2, p.x - f1 + f2 >>
\* no weight if all three are beyond the cutoff, all in full otherwise
Far(p, d) == g.cut # 0 /\ \A m \in 1..3 : AbsI(d[m]) > g.cut
SmearInv == Of({"smear"}) => \A n \in 1..Len(g.probes) :
  LET p == Pr(n) d == SmearVals(p) w == TLCEval([m \in 1..3 |-> IF Far(p, d) THEN "0" ELSE Gauss(d[m], g.sig)]) IN
  /\ BClose(p.got[1], w[1], Tol, 1) /\ BClose(p.got[2], BSub(w[2], w[3]), Tol, 1)
  /\ Len(p.got) = 3 => BClose(p.got[3], BSum(w), Tol, 1)
  /\ p.zero \in {0, 1} => (p.zero = 1) = Far(p, d)

\* ----------------------------------------- points needed by grid points
Needed == UNION {{Corner(gp, 1, i, k) : i \in 1..24, k \in 1..4} : gp \in Range(g.gps)}
UniqueInv == Of({"unique"}) => /\ {g.bzg2grg[u+1] : u \in Range(g.unique)} = Needed
                               /\ Cardinality(Range(g.unique)) = Len(g.unique)
                               /\ \A k \in 1..(Len(g.unique)-1) : g.unique[k] < g.unique[k+1]

\* ------------------------------------------- all points count their states
\* sums over all grid points of the integrated weights, in units of 1/S
TotalInv == Of({"total"}) => \A n \in 1..Len(g.sums) :
   BNear(g.sums[n].got, BMul(S, IF g.sums[n].above THEN g.N ELSE 0), BMul(Tol, g.N))
=============================================================================
