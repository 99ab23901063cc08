------------------------------- MODULE Kaccum -------------------------------
(***************************************************************************)
(* Cumulative quantities: every mode is counted once.                      *)
(*                                                                         *)
(* The rows of a case are the grid points whose modes are given; map says  *)
(* which row stands for a grid point.  The quantity of a row is that of    *)
(* all grid points it stands for ("sum": already summed over them).  The   *)
(* value (frequency or mean free path) is linear inside tetrahedra, as in  *)
(* Weights; here values, sampling points and quantities are real numbers   *)
(* (values 18 decimals, quantities 30).                                    *)
(***************************************************************************)
EXTENDS Weights
E9  == "1000000000"
E18 == "1000000000000000000"
E12d == "1000000000000"
Pi4 == "12566370614359172953850573533118"  \* 4 pi, 30 decimals
Lt(a, b) == ~BLeq(b, a)
Bs(n) == Len(g.v[1])
\* ---------------------------------------------------------- real B-splines
RStep(t, b, d, x) == [j \in 1..(Len(b) - 1) |->
  LET p == BSub(t[j+d], t[j]) q == BSub(t[j+d+1], t[j+1]) IN
  BAdd(IF b[j] = "0" \/ BEq(p, 0) THEN "0" ELSE BDiv(BMul(b[j], BSub(x, t[j])), p),
       IF b[j+1] = "0" \/ BEq(q, 0) THEN "0" ELSE BDiv(BMul(b[j+1], BSub(t[j+d+1], x)), q))]
RBox(t, x) == [j \in 1..(Len(t) - 1) |-> IF BLeq(t[j], x) /\ Lt(x, t[j+1]) THEN S ELSE "0"]
R3(t, x) == TLCEval(RStep(t, TLCEval(RStep(t, TLCEval(RStep(t, RBox(t, x), 1, x)), 2, x)), 3, x))
RKnots(e) == SortSeq(Append(e, e[1]), Lt)
RI(e, x) == LET t == TLCEval(RKnots(e)) IN
  IF Lt(x, t[1]) \/ BLeq(t[5], x) THEN "0" ELSE BDiv(BMul(BMul(4, R3(t, x)[1]), E18), BSub(t[5], t[1]))
RJ(e, x) == LET t == TLCEval(RKnots(e)) IN
  IF Lt(x, t[1]) THEN "0" ELSE IF BLeq(t[5], x) THEN S
  ELSE LET m == [k \in 1..4 |-> BAdd(t[5], BMul(k, E18))] tt == TLCEval(t \o m) IN BSum(RStep(tt, R3(tt, x), 4, x))
RShare(fn, e, x) == IF fn = "I" THEN RI(e, x) ELSE RJ(e, x)
\* ------------------------------------------------------------- grid points
N == g.D[1] * g.D[2] * g.D[3]
Row(gp, i, k) == g.map[Corner(gp, 1, i, k) + 1]
Count(r) == Cardinality({m \in 1..Len(g.map) : g.map[m] = r})
\* rows of the corners, for every row
Rows == [r \in 1..Len(g.gps) |-> [i \in 1..24 |-> [k \in 1..4 |-> Row(g.gps[r], i, k)]]]
\* rotations bring a grid point to the one its row is about
MapOK == \A m \in 1..Len(g.map) : LET q == g.q[m] u == g.q[g.bzg2grg[g.gps[g.map[m]] + 1] + 1] IN
  \E o \in Range(g.ops) : \E s \in {1, -1} : \A a \in I3 : (s * MVec(Transp(o), u)[a] - q[a]) % g.qd = 0
Hit(x) == \E r \in 1..Len(g.v) : \E b \in 1..Len(g.v[r]) : g.v[r][b] = x
\* weights of all modes at x: the true ones, and those without the
\* tetrahedra that have a corner at x (known finding of C09)
Wt(fn, x, rows, part) == TLCEval([r \in 1..Len(g.v) |-> TLCEval([b \in 1..Len(g.v[r]) |->
   LET es == TLCEval([i \in 1..24 |-> [k \in 1..4 |-> g.v[rows[r][i][k]][b]]]) IN
   BSum([i \in 1..24 |-> IF part /\ \E k \in 1..4 : es[i][k] = x THEN "0" ELSE RShare(fn, es[i], x)])])])
\* --------------------------------------------------------------- quantities
Abs2(v) == BAdd(BMul(v[1], v[1]), BAdd(BMul(v[2], v[2]), BMul(v[3], v[3])))
E84 == BMul(BMul(S, S), "1000000000000000000000000")
Tau(x) == IF Lt("0", x) THEN BDiv(BMul(BMul(S, S), S), BMul(Pi4, x)) ELSE "0"
\* o: an output; element e of the quantity of mode r, b.  o.raw 30 decimals
Times(r, x, o) == IF o.sum THEN x ELSE BMul(x, Count(r))
Prop(o, r, b, e) == LET x == o.raw[r][b] IN
  CASE o.what = "one" -> S
    [] o.what = "as" -> x[1]
    [] o.what = "square" -> BDiv(BMul(x[1], x[1]), S)
    [] o.what = "tau" -> Tau(x[1])
    [] o.what = "norm" -> BSqrt(Abs2(x))
    [] o.what = "tensor" -> x[e]
    [] o.what = "volume" -> BDiv(BMul(x[e], E12d), g.vol)
    [] o.what = "trace" -> BSum(SubSeq(x, 1, 3))
    [] o.what = "average" -> BDiv(BSum(SubSeq(x, 1, 3)), 3)
    [] o.what = "vtrace" -> BDiv(BMul(BSum(SubSeq(x, 1, 3)), E12d), g.vol)
    [] o.what = "vaverage" -> BDiv(BDiv(BMul(BSum(SubSeq(x, 1, 3)), E12d), g.vol), 3)
NElem(o) == IF o.what \in {"tensor", "volume"} THEN 6 ELSE 1
\* over all modes of weight * quantity, 60 decimals (times 24 N if J)
Over(o, w, e) == BSum([r \in 1..Len(g.v) |-> Times(r, BSum([b \in 1..Len(g.v[r]) |->
                    IF w[r][b] = "0" THEN "0" ELSE BMul(w[r][b], Prop(o, r, b, e))]), o)])
Scaled(z) == BDiv(z, BMul(24 * N, S))
Whole(o, e) == BDiv(BSum([r \in 1..Len(g.v) |-> Times(r, BSum([b \in 1..Len(g.v[r]) |-> BAbs(Prop(o, r, b, e))]), o)]), N)
Total(o, e) == BDiv(BSum([r \in 1..Len(g.v) |-> Times(r, BSum([b \in 1..Len(g.v[r]) |-> Prop(o, r, b, e)]), o)]), N)
\* an output holds o.x[n] sampling points, o.J[n][e], o.I[n][e] (30 decimals)
\* and the precision o.eps of what was printed; o.at which points to look at
Tl(a, o) == BAdd(BDiv(BAbs(a), IF o.rel = 0 THEN 100000000 ELSE o.rel), o.eps)
\* ------------------------------------------------------------- invariants
Vals == UNION {Range(g.v[r]) : r \in 1..Len(g.v)}
Least(s) == CHOOSE x \in s : \A y \in s : BLeq(x, y)
Most(s) == CHOOSE x \in s : \A y \in s : BLeq(y, x)
\* points are spread evenly from the least to just above the greatest value
SampleInv == Of({"dos", "smearing"}) => \A z \in 1..Len(g.outs) : LET o == g.outs[z] IN o.even => LET n == Len(o.x) a == Least(Vals) b == Most(Vals) IN
   /\ n = o.n
   /\ n > 1 => \A k \in 1..n : BNear(o.x[k], BAdd(a, BDiv(BMul(BSub(b, a), k - 1), n - 1)), BAdd(BAdd(BDiv(b, E12d), "10000000001"), o.xeps))
   /\ o.exact => (n > 1 => ~BLeq(o.x[n], b)) /\ (n > 0 => BEq(o.x[1], a))
MapInv == Of({"dos"}) => MapOK
DosInv == Of({"dos"}) => LET rows == TLCEval(Rows) IN \A y \in 1..Len(g.xs) : LET x == g.xs[y].x
     h == Hit(x)
     wj == Wt("J", x, rows, FALSE) wi == Wt("I", x, rows, FALSE)
     pj == TLCEval(IF h THEN Wt("J", x, rows, TRUE) ELSE wj) pi == TLCEval(IF h THEN Wt("I", x, rows, TRUE) ELSE wi) IN
   \A z \in 1..Len(g.outs) : LET o == g.outs[z] k == g.xs[y].k IN o.here =>
     \A e \in 1..NElem(o) : LET a == Whole(o, e) IN
       /\ \E w \in {wj, pj} : BNear(o.J[k][e], Scaled(Over(o, w, e)), Tl(a, o))
       /\ \E w \in {wi, pi} : LET s == Scaled(Over(o, w, e)) IN BNear(o.I[k][e], s, BAdd(Tl(BMul(a, g.dens), o), BDiv(BAbs(s), 1000000)))
\* of quantities that are not negative the integral never goes down (but where
\* tetrahedra are left out, see C09); the last
\* point has everything
TotalInv2 == Of({"dos"}) => \A z \in 1..Len(g.outs) : LET o == g.outs[z] n == Len(o.J) IN
   \A e \in 1..NElem(o) : LET a == Whole(o, e) t == Total(o, e) plus == BEq(a, t) IN
     /\ (o.above /\ n > 1) => BNear(o.J[n][e], t, Tl(a, o))
     /\ o.has => BNear(o.match[e], t, Tl(a, o))
     /\ plus => /\ \A k \in 1..n : BLeq(BAbs(BSub("0", o.I[k][e])), BAdd(o.I[k][e], Tl(a, o)))
               /\ \A k \in 1..(n-1) : Hit(o.x[k+1]) \/ BLeq(o.J[k][e], BAdd(o.J[k+1][e], Tl(a, o)))
\* smearing: normal distributions of width sig (18)
SmearDos == Of({"smearing"}) => \A z \in 1..Len(g.outs) : LET o == g.outs[z] IN \A y \in 1..Len(g.xs) : LET x == g.xs[y].x k == g.xs[y].k
     sg == IF o.given THEN o.sig ELSE BDiv(BAdd(BSub(Most(Vals), Least(Vals)), "10000000000"), 100)
     w == TLCEval([r \in 1..Len(g.v) |-> TLCEval([b \in 1..Len(g.v[r]) |-> LET d == BSub(x, g.v[r][b]) IN
            BDiv(BMul(E18, BMulS(BExp(BDiv(BMul(BMul(BMul(d, d), -1), S), BMul(2, BMul(sg, sg))), S), BDivS(S, Sqrt2Pi, S), S)), sg)])]) IN
   o.here => LET s == Scaled(BMul(24, Over(o, w, 1))) IN BNear(o.I[k][1], s, BAdd(BAdd(BDiv(BAbs(s), o.smooth), BDiv(Whole(o, 1), E12d)), o.eps))
\* mean free path: |v| / (4 pi gamma), 0 without scattering
MfpInv == Of({"mfp"}) => \A r \in 1..Len(g.v) : \A b \in 1..Len(g.v[r]) :
   LET e == BDiv(BMul(BSqrt(Abs2(g.gv[r][b])), Tau(g.gamma[r][b])), BMul(E12d, E18)) IN
   BNear(g.v[r][b], e, BAdd(BDiv(e, "10000000000"), 1000000))
\* points for a density of lifetimes: every mode with a lifetime as many times
\* as its weight (x: frequency, y: lifetime, in the order of the modes)
KdeInv == Of({"kde"}) =>
   LET use(r, b) == /\ Lt("0", g.gamma[r][b])
                    /\ g.cut # "0" => Lt(Tau(g.gamma[r][b]), g.cut)
                    /\ g.fmax # "" => Lt(g.v[r][b], g.fmax)
       ms == {m \in (1..Len(g.v)) \X (1..Len(g.v[1])) : use(m[1], m[2])}
       num(f, t) == Cardinality({k \in 1..Len(g.x) : g.x[k] = f /\ BNear(g.y[k], t, BAdd(BDiv(t, E12d), 1))})
       all(f, t) == FoldSet(LAMBDA m, acc : acc + g.w[m[1]], 0,
           {m \in ms : g.v[m[1]][m[2]] = f /\ BNear(Tau(g.gamma[m[1]][m[2]]), t, BAdd(BDiv(t, E12d), 1))})
   IN /\ Len(g.x) = Len(g.y)
      /\ Len(g.x) = FoldSet(LAMBDA m, acc : acc + g.w[m[1]], 0, ms)
      /\ \A m \in ms : LET f == g.v[m[1]][m[2]] t == Tau(g.gamma[m[1]][m[2]]) IN num(f, t) = all(f, t)
=============================================================================
