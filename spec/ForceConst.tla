----------------------------- MODULE ForceConst -----------------------------
(***************************************************************************)
(* Force constants.  Tensors are held in components along the supercell    *)
(* vectors, where the force field used as input is integer; values got     *)
(* from the code are recorded times 1000.  A tensor is a sequence (first   *)
(* atom), of sequences (other atoms), of the components.                   *)
(*   full layout:    one row per supercell atom                            *)
(*   compact layout: one row per primitive atom, p2s its supercell index;  *)
(*                   the other rows follow by lattice translations         *)
(***************************************************************************)
EXTENDS Cases, Lattice
c == Case
U == 1000
NA == c.n
A == 1..NA
Near(x, y, t) == x - y <= t /\ y - x <= t
Rows(layout) == IF layout = "full" THEN A ELSE 1..Len(c.p2s)
AtomOf(layout, r) == IF layout = "full" THEN r ELSE c.p2s[r] + 1
C3 == 1..27
Ix(m) == <<(m-1) \div 9, ((m-1) \div 3) % 3, (m-1) % 3>>
Mx(a, b, d) == 9*a + 3*b + d + 1
C2 == 1..9

\* ------------------------------------------------ recovery of a force field
FF == IsCase /\ c.kind = "field"
Has3 == c.f3 # <<>>
\* the input really is a force field: permutations and the sum rule
FieldInv == FF =>
  /\ \A i, j \in A : \A m \in C2 : c.f2[i][j][m] = c.f2[j][i][3*((m-1) % 3) + ((m-1) \div 3) + 1]
  /\ \A i \in A : \A m \in C2 : SumSeq([j \in A |-> c.f2[i][j][m]]) = 0
  /\ Has3 => /\ \A i, j, k \in A : \A m \in C3 : LET x == Ix(m) IN
                  /\ c.f3[i][j][k][m] = c.f3[j][i][k][Mx(x[2], x[1], x[3])]
                  /\ c.f3[i][j][k][m] = c.f3[i][k][j][Mx(x[1], x[3], x[2])]
             /\ \A i, j \in A : \A m \in C3 : SumSeq([k \in A |-> c.f3[i][j][k][m]]) = 0
Recover2 == (FF /\ c.has2) =>
  /\ Len(c.got2) = Cardinality(Rows(c.layout2))
  /\ \A r \in Rows(c.layout2) : \A j \in A : \A m \in C2 :
        Near(c.got2[r][j][m], U * c.f2[AtomOf(c.layout2, r)][j][m], c.tol)
Within(i, j) == c.cut < 0 \/ c.d2[i][j] <= c.cut
Kept(i, j, k) == Within(i, j) \/ Within(j, k) \/ Within(k, i)
Recover3 == (FF /\ Has3) =>
  /\ Len(c.got3) = Cardinality(Rows(c.layout))
  /\ \A r \in Rows(c.layout) : \A j, k \in A : LET i == AtomOf(c.layout, r) IN
       \A m \in C3 : Near(c.got3[r][j][k][m], IF Kept(i, j, k) THEN U * c.f3[i][j][k][m] ELSE 0, c.tol)

\* -------------------------------- symmetrization as operations on full tensors
Op == IsCase /\ c.kind = "op"
RowOf(i) == IF c.layout = "full" THEN i ELSE CHOOSE r \in 1..Len(c.p2s) : c.p2s[r] + 1 = c.tr[i][i] + 1
\* c.tr[i]: the lattice translation that takes atom i to its primitive atom
Sent(i, j) == IF c.layout = "full" THEN j ELSE c.tr[i][j] + 1
Full3(T) == TLCEval([i \in A |-> TLCEval([j \in A |-> TLCEval([k \in A |-> T[RowOf(i)][Sent(i, j)][Sent(i, k)]])])])
Perm3(T) == TLCEval([i \in A |-> TLCEval([j \in A |-> TLCEval([k \in A |-> TLCEval([m \in C3 |->
   LET x == Ix(m) a == x[1] b == x[2] d == x[3] IN
   (T[i][j][k][Mx(a,b,d)] + T[k][i][j][Mx(d,a,b)] + T[j][k][i][Mx(b,d,a)]
    + T[i][k][j][Mx(a,d,b)] + T[j][i][k][Mx(b,a,d)] + T[k][j][i][Mx(d,b,a)]) \div 6])])])])
Sum1(T, j, k, m) == SumSeq([i \in A |-> T[i][j][k][m]])
Mean1(T) == TLCEval([j \in A |-> TLCEval([k \in A |-> TLCEval([m \in C3 |-> SumSeq([i \in A |-> T[i][j][k][m]]) \div NA])])])
Mean2(T) == TLCEval([i \in A |-> TLCEval([k \in A |-> TLCEval([m \in C3 |-> SumSeq([j \in A |-> T[i][j][k][m]]) \div NA])])])
Mean3(T) == TLCEval([i \in A |-> TLCEval([j \in A |-> TLCEval([m \in C3 |-> SumSeq([k \in A |-> T[i][j][k][m]]) \div NA])])])
Drop(T, M(_, _, _, _)) == TLCEval([i \in A |-> TLCEval([j \in A |-> TLCEval([k \in A |-> TLCEval([m \in C3 |-> T[i][j][k][m] - M(i, j, k, m)])])])])
Trans3(T) == LET m1 == Mean1(T)
                 T1 == Drop(T, LAMBDA i, j, k, m : m1[j][k][m])
                 m2 == Mean2(T1)
                 T2 == Drop(T1, LAMBDA i, j, k, m : m2[i][k][m])
                 m3 == Mean3(T2)
             IN Drop(T2, LAMBDA i, j, k, m : m3[i][j][m])
Zero3(T) == TLCEval([i \in A |-> TLCEval([j \in A |-> TLCEval([k \in A |-> TLCEval([m \in C3 |->
   IF c.d2[i][j] <= c.cut /\ c.d2[j][k] <= c.cut /\ c.d2[k][i] <= c.cut THEN T[i][j][k][m] ELSE 0])])])])
\* The transposition of compact force constants as the code is known to do it
\* (known finding): a pair that a translation of order two maps on its own
\* exchange is left as it is.
Self(i, j) == i # j /\ c.tr[i][i] = c.tr[j][j] /\ \E x \in A : Sent(x, i) = Sent(i, j) /\ Sent(x, j) = Sent(i, i) /\ RowOf(x) = RowOf(i)
Turned(T) == TLCEval([i \in A |-> TLCEval([j \in A |-> LET s == Self(i, j) IN TLCEval([k \in A |-> TLCEval([m \in C3 |->
   IF s THEN T[i][j][k][m] ELSE LET x == Ix(m) IN T[j][i][k][Mx(x[2], x[1], x[3])]])])])])
KnownTrans3(T) ==
  LET T0 == Turned(T)
      m1 == Mean2(T0)
      T1 == Turned(Drop(T0, LAMBDA i, j, k, m : m1[i][k][m]))
      m2 == Mean2(T1)
      T2 == Drop(T1, LAMBDA i, j, k, m : m2[i][k][m])
      m3 == Mean3(T2)
  IN Drop(T2, LAMBDA i, j, k, m : m3[i][j][m])
RECURSIVE Apply(_, _)
Apply(T, ops) == IF ops = <<>> THEN T
  ELSE Apply(CASE ops[1] = "perm" -> Perm3(T) [] ops[1] = "trans" -> Trans3(T) [] ops[1] = "zero" -> Zero3(T), Tail(ops))
Same3(E) == \A r \in Rows(c.layout) : \A j, k \in A : \A m \in C3 : Near(c.got[r][j][k][m], E[AtomOf(c.layout, r)][j][k][m], 0)
Exact3 == Same3(Apply(Full3(c.inp), c.ops))
Compact == c.layout = "compact" /\ c.ops # <<>> /\ c.ops[1] = "trans"
OpInv == Op => Exact3 \/ (Compact /\ Same3(Apply(KnownTrans3(Full3(c.inp)), Tail(c.ops))))
OpExact == (Op /\ Compact) => Exact3

\* elements left by a cutoff distance: all three pairs within it
CutInv == (IsCase /\ c.kind = "cut") => \A r \in Rows(c.layout) : \A j, k \in A : LET i == AtomOf(c.layout, r) IN
  c.left[r][j][k] = IF c.d2[i][j] <= c.cut /\ c.d2[j][k] <= c.cut /\ c.d2[k][i] <= c.cut THEN 1 ELSE 0

Op2 == IsCase /\ c.kind = "op2"
Full2(T) == TLCEval([i \in A |-> TLCEval([j \in A |-> T[RowOf(i)][Sent(i, j)]])])
Tm(m) == 3*((m-1) % 3) + ((m-1) \div 3) + 1
Perm2(T) == TLCEval([i \in A |-> TLCEval([j \in A |-> TLCEval([m \in C2 |-> (T[i][j][m] + T[j][i][Tm(m)]) \div 2])])])
Trans2(T) == LET m1 == TLCEval([j \in A |-> [m \in C2 |-> SumSeq([i \in A |-> T[i][j][m]]) \div NA]])
                 T1 == TLCEval([i \in A |-> TLCEval([j \in A |-> TLCEval([m \in C2 |-> T[i][j][m] - m1[j][m]])])])
                 m2 == TLCEval([i \in A |-> [m \in C2 |-> SumSeq([j \in A |-> T1[i][j][m]]) \div NA]])
             IN TLCEval([i \in A |-> TLCEval([j \in A |-> TLCEval([m \in C2 |-> T1[i][j][m] - m2[i][m]])])])
RECURSIVE Apply2(_, _)
Apply2(T, ops) == IF ops = <<>> THEN T ELSE Apply2(IF ops[1] = "perm" THEN Perm2(T) ELSE Trans2(T), Tail(ops))
Op2Inv == Op2 => LET E == Apply2(Full2(c.inp), c.ops) IN
  \A r \in Rows(c.layout) : \A j \in A : \A m \in C2 : Near(c.got[r][j][m], E[AtomOf(c.layout, r)][j][m], 0)

\* ---------------------------------------- symmetrization of noisy force constants
Noisy == IsCase /\ c.kind = "noisy"
NoisyInv == Noisy =>
  \* both layouts say the same
  /\ Len(c.compact) = Len(c.p2s)
  /\ ~(c.sym /\ c.two) => \A r \in 1..Len(c.p2s) : \A j, k \in A : \A m \in C3 :
        Near(c.compact[r][j][k][m], c.full[c.p2s[r]+1][j][k][m], 2)
  /\ c.sym => \A i, j, k \in A : \A m \in C3 : LET x == Ix(m) IN
       /\ Near(c.full[i][j][k][m], c.full[j][i][k][Mx(x[2], x[1], x[3])], 2)
       /\ Near(c.full[i][j][k][m], c.full[i][k][j][Mx(x[1], x[3], x[2])], 2)
  /\ c.sym => \A i, j \in A : \A m \in C3 : Near(SumSeq([k \in A |-> c.full[i][j][k][m]]), 0, NA + 2)
  /\ ~c.sym => ~c.changed
=============================================================================
