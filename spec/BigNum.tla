------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Unbounded integers for TLC.  TLC's own integers are 32 bits wide, which *)
(* is too narrow for fixed-point images of double-precision results.  A    *)
(* big integer is written as a decimal string ("-120"), which is what the  *)
(* recorded data carries.  The operators below are declared here and       *)
(* evaluated by the Java module override spec/java/BigNum.java (plain      *)
(* java.math.BigInteger); a small TLC integer is accepted wherever a big   *)
(* one is.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL Undef == CHOOSE x : x \notin STRING
BAdd(a, b) == Undef
BSub(a, b) == Undef
BMul(a, b) == Undef
\* floor division
BDiv(a, b) == Undef
\* round to nearest division
BRound(a, b) == Undef
BLeq(a, b) == Undef
BEq(a, b) == Undef
BAbs(a) == Undef
\* sum / maximum absolute value of a sequence
BSum(s) == Undef
BMaxAbs(s) == Undef
\* sum of products of two sequences
BDot(s, t) == Undef
\* s * exp(a / s), s * ln(a / s), floor of the square root
BExp(a, s) == Undef
BLog(a, s) == Undef
BSqrt(a) == Undef
\* product of two numbers of scale s, quotient of two numbers of scale s
BMulS(a, b, s) == Undef
BDivS(a, b, s) == Undef
\* |a - b| <= tol
BNear(a, b, tol) == Undef
\* |a - b| <= abs + (rel * max(|a|,|b|)) / 10^9
BClose(a, b, abs, rel) == Undef
\* element-wise BClose of two sequences of equal length
BCloseSeq(s, t, abs, rel) == Undef
=============================================================================
