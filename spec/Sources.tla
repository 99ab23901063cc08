------------------------------- MODULE Sources -------------------------------
(***************************************************************************)
(* Where load() takes each input from: the yaml file, files named by       *)
(* arguments, and files of default names in the current directory.         *)
(* The situation is chosen field by field; the last step is the load.      *)
(*   yds, ypds: 0 not in yaml, 1 displacements, 2 with forces              *)
(*   file contents: 0 no file, 1 forces only (for displacements in yaml),  *)
(*                  2 displacements and forces                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
W == JsonDeserialize(IOEnv.VDATA)
Depth == W.depth
Fields == <<"way", "pscm", "calc", "kind", "yds", "pkind", "ypds", "ynac",
            "ff3", "af3", "ff2", "af2", "fc3", "afc3", "fc2", "afc2",
            "born", "aborn", "anac", "isnac", "produce", "sym", "compact">>
Values(k) ==
  CASE k = "way" -> {"yaml", "cell"}
    [] k \in {"kind", "pkind"} -> {1, 2}
    [] k \in {"yds", "ypds", "ff3", "af3", "ff2", "af2"} -> {0, 1, 2}
    [] k = "calc" -> {0, W.calc}
    [] OTHER -> {0, 1}
VARIABLES s, hist
vars == <<s, hist>>
Init == s = <<>> /\ hist = <<>>
K == Len(s) + 1
Get(k) == s[CHOOSE i \in 1..Len(Fields) : Fields[i] = k]
\* without yaml there is nothing of yaml; phonon data only with the other supercell
Allowed(k, v) ==
  /\ k \in {"yds", "ypds", "ynac"} /\ Get("way") = "cell" => v = 0
  /\ k \in {"ypds", "ff2", "af2"} /\ Get("pscm") = 0 => v \in (IF k = "ff2" THEN {0, 2} ELSE {0})
  \* a file of forces only needs displacements of the kind it was made for
  /\ k \in {"ff3", "af3"} /\ v = 1 => Get("yds") # 0 /\ Get("kind") = 1
  /\ k \in {"ff2", "af2"} /\ v = 1 => Get("ypds") # 0 /\ Get("pkind") = 1
  \* symmetric force constants from random sets need another calculator
Choose == Len(s) < Len(Fields) /\ \E v \in Values(Fields[K]) : Allowed(Fields[K], v) /\ s' = Append(s, v) /\ UNCHANGED hist
\* ---- the rules
Forces(y, a, f) == IF y = 2 THEN "yaml" ELSE IF a # 0 THEN "arg" ELSE IF f # 0 THEN "cwd" ELSE IF y = 1 THEN "disp" ELSE "none"
Data3 == Forces(Get("yds"), Get("af3"), Get("ff3"))
Data2 == IF Get("pscm") = 0 THEN "none" ELSE Forces(Get("ypds"), Get("af2"), Get("ff2"))
With(o) == o \in {"yaml", "arg", "cwd"}
\* type of the dataset: forces-only files keep the displacements of yaml
Type(o, y, k, a, f) == IF o = "none" THEN 0 ELSE IF (o = "arg" /\ a = 2) \/ (o = "cwd" /\ f = 2) THEN 2 ELSE k
Type3 == Type(Data3, Get("yds"), Get("kind"), Get("af3"), Get("ff3"))
Type2 == Type(Data2, Get("ypds"), Get("pkind"), Get("af2"), Get("ff2"))
Fc3 == IF Get("afc3") = 1 THEN "arg" ELSE IF Get("fc3") = 1 THEN "cwd"
       ELSE IF Get("produce") = 1 /\ With(Data3) THEN "made" ELSE "none"
Fc2 == IF Get("afc2") = 1 THEN "arg" ELSE IF Get("fc2") = 1 THEN "cwd"
       ELSE IF Get("produce") = 0 THEN "none"
       ELSE IF Get("pscm") = 1 THEN (IF With(Data2) THEN "made2" ELSE "none")
       ELSE IF With(Data3) THEN "made" ELSE "none"
Nac == IF Get("aborn") = 1 THEN "aborn" ELSE IF Get("anac") = 1 THEN "arg"
       ELSE IF Get("isnac") = 0 THEN "none"
       ELSE IF Get("ynac") = 1 THEN "yaml" ELSE IF Get("born") = 1 THEN "born" ELSE "none"
Origin == [data3 |-> Data3, type3 |-> Type3, data2 |-> Data2, type2 |-> Type2, fc3 |-> Fc3, fc2 |-> Fc2, nac |-> Nac]
Load == Len(s) = Len(Fields) /\ hist = <<>> /\ UNCHANGED s
  /\ hist' = [sit |-> [k \in {Fields[i] : i \in 1..Len(Fields)} |-> Get(k)], from |-> Origin]
Next == Choose \/ Load
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Done == hist # <<>>
\* arguments win over what lies in the directory; nothing is taken from what is absent
ArgsWin == Done => /\ (Get("afc3") = 1 => hist.from.fc3 = "arg") /\ (Get("afc2") = 1 => hist.from.fc2 = "arg")
                   /\ (Get("aborn") = 1 => hist.from.nac = "aborn")
                   /\ (Get("af3") # 0 => hist.from.data3 # "cwd") /\ (Get("af2") # 0 => hist.from.data2 # "cwd")
Exists == Done => /\ (hist.from.data3 = "yaml" => Get("yds") = 2) /\ (hist.from.data2 = "yaml" => Get("ypds") = 2)
                  /\ (hist.from.nac = "yaml" => Get("ynac") = 1) /\ (hist.from.data2 # "none" => Get("pscm") = 1)
\* without yaml, nothing of yaml
NoYaml == (Done /\ Get("way") = "cell") => hist.from.data3 \notin {"yaml", "disp"} /\ hist.from.nac # "yaml"
Emit == Done => PrintT(ToJson(hist))
=============================================================================
