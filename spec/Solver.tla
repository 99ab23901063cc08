------------------------------- MODULE Solver -------------------------------
(***************************************************************************)
(* The store of phonons on the grid.  Points: 1 is Gamma, 2 and 3 two      *)
(* other points, 4 stands for all the rest.  A value says where the        *)
(* phonons of a point come from: <<"p", v>> the dynamical matrix of        *)
(* version v, <<"d", v, k>> the same with the non-analytical term in       *)
(* direction k (Gamma only), <<"x">> phonons given by the user, <<"u">>    *)
(* none.                                                                   *)
(*                                                                         *)
(* Every history of Depth requests is printed with what must be seen after *)
(* each of them; the real objects replay them.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
W == JsonDeserialize(IOEnv.VDATA)
Depth == W.depth
P == 1..4
Gamma == 1
U == <<"u">>
X == <<"x">>
VARIABLES ver,   \* version of the dynamical matrix
          dir,   \* direction asked for, 0 if none
          val,   \* what is stored of each point; U if not solved
          gam,   \* what is to be restored at Gamma
          flag,  \* Gamma was the point under study
          gp,    \* point under study, 0 if none
          hist
vars == <<ver, dir, val, gam, flag, gp, hist>>
Plain == <<"p", ver>>
\* what solving gives now
Solve(g) == IF g = Gamma /\ dir # 0 THEN <<"d", ver, dir>> ELSE Plain
Ask(S) == [g \in P |-> IF g \in S /\ val[g] = U THEN Solve(g) ELSE val[g]]

Init == /\ ver = 1 /\ dir = 0 /\ val = [g \in P |-> U] /\ gam = <<"p", 1>>
        /\ flag = FALSE /\ gp = 0 /\ hist = <<>>
Do(op, k, refused) == hist' = Append(hist, [op |-> op, k |-> k, refused |-> refused, val |-> val'])
Sets == << {1}, {2}, {2, 3}, {1, 3} >>
Some == \E k \in 1..4 : val' = Ask(Sets[k]) /\ UNCHANGED <<ver, dir, gam, flag, gp>> /\ Do("some", k, FALSE)
Every == val' = Ask(P) /\ UNCHANGED <<ver, dir, gam, flag, gp>> /\ Do("all", 0, FALSE)
\* irreducible points are solved and rotated to all points
Rotate == val' = [g \in P |-> Solve(g)] /\ UNCHANGED <<ver, dir, gam, flag, gp>> /\ Do("rotate", 0, FALSE)
Dir == \E k \in 0..2 : W.dirs /\ k # dir /\ dir' = k /\ UNCHANGED <<ver, val, gam, flag, gp>> /\ Do("dir", k, FALSE)
\* Gamma becomes the point under study: it is solved anew, with the direction
AtGamma == /\ val' = [val EXCEPT ![Gamma] = Solve(Gamma)] /\ flag' = TRUE /\ gp' = Gamma
           /\ UNCHANGED <<ver, dir, gam>> /\ Do("at", Gamma, FALSE)
\* another point: phonons at Gamma are those without direction again
Directional(v) == v[1] = "d"
AtOther == /\ ~(flag /\ dir # 0)
           /\ \E g \in {2, 3} :
              /\ gp' = g
              /\ val' = IF dir = 0 /\ (flag \/ Directional(val[Gamma])) /\ val[Gamma] # U THEN [val EXCEPT ![Gamma] = gam] ELSE val
              /\ flag' = IF dir = 0 THEN FALSE ELSE flag
              /\ UNCHANGED <<ver, dir, gam>> /\ Do("at", g, FALSE)
AtOtherBad == /\ flag /\ dir # 0 /\ val[Gamma] # X
              /\ UNCHANGED <<ver, dir, val, gam, flag, gp>> /\ Do("at", 2, TRUE)
Give == val' = [g \in P |-> X] /\ gam' = X /\ UNCHANGED <<ver, dir, flag, gp>> /\ Do("give", 0, FALSE)
GiveBad == \E k \in {1, 2} : UNCHANGED <<ver, dir, val, gam, flag, gp>> /\ Do("givebad", k, TRUE)
Matrix == /\ W.init /\ ver' = 3 - ver /\ val' = [g \in P |-> U] /\ gam' = <<"p", 3 - ver>>
          /\ flag' = FALSE /\ UNCHANGED <<dir, gp>> /\ Do("matrix", 3 - ver, FALSE)
Run == gp # 0 /\ val' = Ask(P) /\ UNCHANGED <<ver, dir, gam, flag, gp>> /\ Do("run", 0, FALSE)
Next == Len(hist) < Depth /\ (Some \/ Every \/ Rotate \/ Dir \/ AtGamma \/ AtOther \/ AtOtherBad \/ Give \/ GiveBad \/ Matrix \/ Run)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
\* only Gamma is ever directional, nothing is left of an old dynamical matrix
OfNow == \A g \in P : val[g] \in {U, X, Plain} \/ (g = Gamma /\ val[g][1] = "d" /\ val[g][2] = ver)
\* a solved point keeps its phonons, unless Gamma is (or was) under study, or
\* all is solved anew, or given, or the dynamical matrix is another
Last == hist'[Len(hist')]
Kept == [][\A g \in P : val[g] = U \/ val'[g] = val[g] \/ Last.op \in {"rotate", "give", "matrix"}
            \/ (g = Gamma /\ Last.op = "at")]_vars
\* away from Gamma and without direction nothing directional is used
PlainElsewhere == [][(Last.op = "at" /\ Last.k # Gamma /\ dir = 0) => ~Directional(val'[Gamma])]_vars
RefusedKeeps == [][Last.refused => UNCHANGED <<ver, dir, val, gam, flag, gp>>]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
