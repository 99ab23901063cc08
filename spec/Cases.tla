-------------------------------- MODULE Cases --------------------------------
(* One state per recorded case; the extending module states what every case  *)
(* must satisfy.  NChunks heads let TLC's workers share the cases.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT NChunks
Data == JsonDeserialize(IOEnv.VDATA)
NCases == Len(Data.cases)
VARIABLE pos
Init == pos \in {-k : k \in 1..NChunks}
Next == /\ pos < 0
        /\ pos' \in {c \in 1..NCases : (c % NChunks) + 1 = -pos}
Case == Data.cases[pos]
IsCase == pos > 0
=============================================================================
