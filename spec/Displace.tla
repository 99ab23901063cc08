------------------------------ MODULE Displace ------------------------------
(***************************************************************************)
(* Displacements generated for force constants.  The crystal is exact:     *)
(* integer metric G of the supercell vectors, atom positions pos/den.  Its *)
(* symmetry is not taken from the code but found here: every metric        *)
(* preserving matrix (hol) that maps the atoms on themselves.              *)
(*                                                                         *)
(* A dataset determines the force constants when                           *)
(*  - for every orbit of atoms, displaced directions rotated by the site   *)
(*    symmetry of the displaced atom span space;                           *)
(*  - for every first displacement, with H the site symmetry that keeps    *)
(*    it, every H-orbit of atoms has a displaced second atom whose         *)
(*    directions rotated by the part of H that fixes it span space.        *)
(* Besides: opposite directions, ids, distances, cutoff, duplicates and    *)
(* the displaced supercells themselves.                                    *)
(***************************************************************************)
EXTENDS Cases, Lattice, BigNum
c == Case
NA == Len(c.pos)
Atoms == 0..(NA-1)
Pos(a) == c.pos[a+1]
Sp(a) == c.sp[a+1]
Den3 == <<c.den, c.den, c.den>>
PosOf(s) == {Pos(a) : a \in {b \in Atoms : Sp(b) = s}}
Hol == Range(c.hol)
Img(W, a, b, x) == ModV(VAdd(Pos(b), MVec(W, VSub(Pos(x), Pos(a)))), Den3)
Aut(W, a, b) == Sp(a) = Sp(b) /\ \A x \in Atoms : Img(W, a, b, x) \in PosOf(Sp(x))
HolOK == \A W \in Hol : MMul(Transp(W), MMul(c.G, W)) = c.G
Site(a) == {W \in Hol : Aut(W, a, a)}
Orbit(a) == {b \in Atoms : \E W \in Hol : Aut(W, a, b)}
Cross(a, b) == <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>>
Rank3(S) == \E u \in S : \E v \in S : Cross(u, v) # <<0,0,0>> /\ \E w \in S : Dot(Cross(u, v), w) # 0
Expand(H, S) == {MVec(W, d) : W \in H, d \in S}
Axis(d) == Cardinality({k \in I3 : d[k] # 0}) = 1 /\ \A k \in I3 : d[k] \in {-1, 0, 1}

Sys == IsCase /\ c.kind \in {"fc3", "fc2"}
F == c.first
FAtoms == {F[i].num : i \in 1..Len(F)}
FDirs(a) == {F[i].dir : i \in {j \in 1..Len(F) : F[j].num = a}}

\* --------------------------------------------------- first displacements
FirstInv == Sys =>
  /\ HolOK
  /\ \A a \in Atoms : \E b \in Orbit(a) \cap FAtoms : Rank3(Expand(Site(b), FDirs(b)))
  /\ \A i, j \in 1..Len(F) : (i # j) => <<F[i].num, F[i].dir>> # <<F[j].num, F[j].dir>>
  /\ c.axis1 => \A i \in 1..Len(F) : Axis(F[i].dir)
PlusMinusInv == Sys => \A i \in 1..Len(F) :
  LET a == F[i].num
      d == F[i].dir
      listed == VNeg(d) \in FDirs(a)
      equiv == \E W \in Site(a) : MVec(W, d) = VNeg(d)
  IN CASE c.pm = "true" -> listed
       [] c.pm = "false" -> ~listed
       [] OTHER -> listed <=> ~equiv

\* -------------------------------------------------- second displacements
H(i) == {W \in Site(F[i].num) : MVec(W, F[i].dir) = F[i].dir}
Fix(Hs, a, b) == {W \in Hs : Img(W, a, a, b) = Pos(b)}
S(i) == F[i].second
SDirs(i, b) == {S(i)[k].dir : k \in {j \in 1..Len(S(i)) : S(i)[j].num = b}}
SAtoms(i) == {S(i)[k].num : k \in 1..Len(S(i))}
Atom(p) == CHOOSE b \in Atoms : Pos(b) = p
SecondInv == (Sys /\ c.kind = "fc3") => \A i \in 1..Len(F) :
  LET a == F[i].num
      h == H(i)
      sa == SAtoms(i)
  IN /\ \A b \in Atoms : \E W \in h : Atom(Img(W, a, a, b)) \in sa
     /\ \A b \in sa : Rank3(Expand(Fix(h, a, b), SDirs(i, b)))
     /\ \A b \in sa : \A d \in SDirs(i, b) :
          (VNeg(d) \in SDirs(i, b)) <=> ~\E W \in Fix(h, a, b) : MVec(W, d) = VNeg(d)
     /\ ~c.diag => \A k \in 1..Len(S(i)) : Axis(S(i)[k].dir)

\* ------------------------------------------------------- ids and cutoff
RECURSIVE Off(_)
Off(i) == IF i = 0 THEN Len(F) ELSE Off(i-1) + Len(S(i))
IdInv == (Sys /\ c.kind = "fc3") =>
  /\ c.natom = NA
  /\ \A i \in 1..Len(F) : /\ F[i].id = i
                          /\ \A k \in 1..Len(S(i)) : S(i)[k].id = Off(i-1) + k
Dist2(a, b) == LET d == ModV(VSub(Pos(b), Pos(a)), Den3)
                   L == {Quad(c.G, VAdd(d, VScale(c.den, n))) : n \in Box(c.box)}
               IN CHOOSE x \in L : \A y \in L : x <= y
CutInv == (Sys /\ c.kind = "fc3") => \A i \in 1..Len(F) : \A b \in SAtoms(i) :
  LET d2 == Dist2(F[i].num, b) IN
  \A k \in {j \in 1..Len(S(i)) : S(i)[j].num = b} :
     LET s == S(i)[k] IN
     /\ BNear(s.pd2, BMul(d2, 1000000), 1000)
     /\ c.cut < 0 => s.included
     /\ c.cut >= 0 => (s.included <=> d2 <= c.cut)

\* ---------------------------------------- lengths, supercells, duplicates
DZero == <<"0", "0", "0">>
DAdd(u, v) == <<BAdd(u[1], v[1]), BAdd(u[2], v[2]), BAdd(u[3], v[3])>>
DNear(u, v, t) == \A k \in I3 : BNear(u[k], v[k], t)
BQuad(u) == BSum(<<BMul(BMul(u[1], u[1]), c.G[1][1]), BMul(BMul(u[2], u[2]), c.G[2][2]),
                   BMul(BMul(u[3], u[3]), c.G[3][3]), BMul(BMul(u[1], u[2]), 2*c.G[1][2]),
                   BMul(BMul(u[2], u[3]), 2*c.G[2][3]), BMul(BMul(u[1], u[3]), 2*c.G[1][3])>>)
BCrossZero(u, d) == \A p \in {<<1,2>>, <<2,3>>, <<3,1>>} :
   BNear(BMul(u[p[1]], d[p[2]]), BMul(u[p[2]], d[p[1]]), 100)
Along(u, d) == BCrossZero(u, d) /\ ~BLeq(BDot(u, d), 0)
LengthInv == Sys => \A i \in 1..Len(F) :
  /\ Along(F[i].disp, F[i].dir) /\ BClose(BQuad(F[i].disp), c.dist2, 0, 1000)
  /\ c.kind = "fc3" => \A k \in 1..Len(S(i)) :
      /\ Along(S(i)[k].disp, S(i)[k].dir) /\ BClose(BQuad(S(i)[k].disp), c.dist2, 0, 1000)
\* total displacement of atom x by displacement list ds
Tot(ds, x) == LET RECURSIVE T(_) T(k) == IF k > Len(ds) THEN DZero
                    ELSE IF ds[k].num = x THEN DAdd(ds[k].disp, T(k+1)) ELSE T(k+1) IN T(1)
MovedAs(cell, ds) == \A x \in Atoms :
   LET m == {k \in 1..Len(cell) : cell[k].num = x}
       t == Tot(ds, x)
   IN IF m = {} THEN DNear(t, DZero, 1000) ELSE \A k \in m : DNear(cell[k].disp, t, 1000)
CellInv == Sys =>
  /\ Len(c.cells) = IF c.kind = "fc3" THEN Off(Len(F)) ELSE Len(F)
  /\ \A i \in 1..Len(F) : c.cells[i].present /\ MovedAs(c.cells[i].moved, <<F[i]>>)
  /\ c.kind = "fc3" => \A i \in 1..Len(F) : \A k \in 1..Len(S(i)) :
       LET x == c.cells[Off(i-1) + k] IN
       /\ x.present = S(i)[k].included
       /\ x.present => MovedAs(x.moved, <<F[i], S(i)[k]>>)

FirstOf(id) == CHOOSE i \in 1..Len(F) : Off(i-1) < id /\ id <= Off(i)
Pair(id) == LET i == FirstOf(id) IN <<F[i], S(i)[id - Off(i-1)]>>
SameCell(p, q) == \A x \in Atoms : DNear(Tot(p, x), Tot(q, x), 1000)
NoMove(p) == \A x \in Atoms : DNear(Tot(p, x), DZero, 1000)
\* every listed pair is a pair of identical supercells, 0 the perfect one
DupPairs == (Sys /\ c.kind = "fc3") =>
  /\ \A e \in Range(c.dup) : e[1] \in (Len(F)+1)..Off(Len(F)) /\ e[2] < e[1]
  /\ \A e \in Range(c.dup) : e[2] # 0 => SameCell(Pair(e[1]), Pair(e[2]))
  \* the same two displacements of two atoms in either order are listed
  /\ \A i, j \in 1..Len(F) : (F[i].num < F[j].num) =>
       \A k \in 1..Len(S(i)) : \A l \in 1..Len(S(j)) :
          (/\ S(i)[k].num = F[j].num /\ S(i)[k].dir = F[j].dir
           /\ S(j)[l].num = F[i].num /\ S(j)[l].dir = F[i].dir)
          => \E e \in Range(c.dup) : {e[1], e[2]} = {S(i)[k].id, S(j)[l].id}
  \* opposite displacements of one atom give the perfect supercell
  /\ \A i \in 1..Len(F) : \A k \in 1..Len(S(i)) :
        (S(i)[k].num = F[i].num /\ S(i)[k].dir = VNeg(F[i].dir)) =>
           <<S(i)[k].id, 0>> \in Range(c.dup)
  /\ \A e \in Range(c.dup) : e[2] = 0 => Pair(e[1])[1].num = Pair(e[1])[2].num
DupZero == (Sys /\ c.kind = "fc3") => \A e \in Range(c.dup) : e[2] = 0 => NoMove(Pair(e[1]))
\* the only way the code is known to break DupZero: the pair's mirror image is there
DupZeroElse == (Sys /\ c.kind = "fc3") => \A e \in Range(c.dup) :
   (e[2] = 0 /\ ~NoMove(Pair(e[1]))) =>
     LET p == Pair(e[1]) IN
     \E i \in 1..Len(F) : \E k \in 1..Len(S(i)) :
        /\ F[i].num = p[1].num /\ S(i)[k].num = p[1].num
        /\ F[i].dir = VNeg(p[2].dir) /\ S(i)[k].dir = VNeg(p[1].dir)

\* ----------------------------------------------------- random snapshots
R == IsCase /\ c.kind = "random"
RandomInv == R =>
  /\ Len(c.disps) = IF c.pm = "true" THEN 2 * c.n ELSE c.n
  /\ \A s \in 1..Len(c.disps) : /\ Len(c.disps[s]) = c.natom
        /\ \A a \in 1..c.natom :
             LET l2 == BDot(c.disps[s][a], c.disps[s][a]) IN
             IF c.varied THEN ~BLeq(BMul(l2, 1000001), BMul(c.dist2, 1000000)) /\ BLeq(BMul(l2, 999999), BMul(c.max2, 1000000))
             ELSE BClose(l2, c.dist2, 0, 100)
  /\ c.pm = "true" => \A s \in 1..c.n : \A a \in 1..c.natom : \A k \in I3 :
        BEq(c.disps[s][a][k], BSub(0, c.disps[s + c.n][a][k]))
  /\ \A s, t \in 1..c.n : s # t => c.disps[s] # c.disps[t]
  /\ c.seed >= 0 => c.again = c.disps /\ c.stored_seed = c.seed
  /\ c.other # c.disps
  /\ Len(c.cells) = Len(c.disps)
  /\ \A s \in 1..Len(c.disps) : \A a \in 1..c.natom : \A k \in I3 :
        BNear(c.cells[s][a][k], c.disps[s][a][k], 1000)
AutoInv == (IsCase /\ c.kind = "auto") => c.shape = c.expected
=============================================================================
