------------------------------- MODULE Lattice -------------------------------
(* Integer lattice algebra shared by the grid, triplet and displacement specs. *)
(* Vectors are 3-tuples, matrices 3-tuples of rows; q-points are held as       *)
(* integer numerators over a common denominator, so everything is exact.       *)
EXTENDS Integers, Sequences, FiniteSets
I3 == 1..3
VAdd(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
VSub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
VScale(k, a) == <<k*a[1], k*a[2], k*a[3]>>
VNeg(a) == VScale(-1, a)
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
MVec(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
MMul(a, b) == [i \in I3 |-> [j \in I3 |-> Dot(a[i], Col(b, j))]]
Transp(m) == [i \in I3 |-> [j \in I3 |-> m[j][i]]]
MNeg(m) == [i \in I3 |-> [j \in I3 |-> -m[i][j]]]
Diag(d) == [i \in I3 |-> [j \in I3 |-> IF i = j THEN d[i] ELSE 0]]
Id3 == Diag(<<1,1,1>>)
Det(m) == m[1][1]*(m[2][2]*m[3][3] - m[2][3]*m[3][2])
        - m[1][2]*(m[2][1]*m[3][3] - m[2][3]*m[3][1])
        + m[1][3]*(m[2][1]*m[3][2] - m[2][2]*m[3][1])
\* adjugate: MMul(m, Adj(m)) = Det(m) * Id3
Adj(m) == << <<m[2][2]*m[3][3]-m[2][3]*m[3][2], m[1][3]*m[3][2]-m[1][2]*m[3][3], m[1][2]*m[2][3]-m[1][3]*m[2][2]>>,
             <<m[2][3]*m[3][1]-m[2][1]*m[3][3], m[1][1]*m[3][3]-m[1][3]*m[3][1], m[1][3]*m[2][1]-m[1][1]*m[2][3]>>,
             <<m[2][1]*m[3][2]-m[2][2]*m[3][1], m[1][2]*m[3][1]-m[1][1]*m[3][2], m[1][1]*m[2][2]-m[1][2]*m[2][1]>> >>
\* inverse of a unimodular matrix
UInv(m) == [i \in I3 |-> [j \in I3 |-> Adj(m)[i][j] * Det(m)]]
Quad(M, v) == Dot(v, MVec(M, v))
RECURSIVE GcdR(_, _)
GcdR(a, b) == IF b = 0 THEN a ELSE GcdR(b, a % b)
AbsI(a) == IF a < 0 THEN -a ELSE a
Gcd(a, b) == GcdR(AbsI(a), AbsI(b))
Lcm(a, b) == (a * b) \div Gcd(a, b)
Range(f) == {f[x] : x \in DOMAIN f}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
ModV(a, D) == <<a[1] % D[1], a[2] % D[2], a[3] % D[3]>>
\* index of a grid address, first coordinate fastest (0-based, as users see it)
GIdx(a, D) == (a[1] % D[1]) + D[1] * ((a[2] % D[2]) + D[2] * (a[3] % D[3]))
GAdr(i, D) == <<i % D[1], (i \div D[1]) % D[2], i \div (D[1]*D[2])>>
NGrid(D) == D[1]*D[2]*D[3]
\* numerator of the q-point of doubled address dadr over QDen(D)
QDen(D) == 2 * Lcm(D[1], Lcm(D[2], D[3]))
QNum(Q, D, dadr) == LET L == QDen(D) IN
   MVec(Q, <<dadr[1] * (L \div (2*D[1])), dadr[2] * (L \div (2*D[2])), dadr[3] * (L \div (2*D[3]))>>)
Box(r) == {<<x, y, z>> : x \in -r..r, y \in -r..r, z \in -r..r}
=============================================================================
