------------------------------ MODULE CheckMacro -----------------------------
(* Schemas made by the macros (OBS) against what was written.               *)
EXTENDS OpgMacro, Json, IOUtils
Obs == JsonDeserialize(IOEnv.OBS)
VARIABLES i, done
Init == i \in 1..Len(Obs) /\ done = FALSE
ReasonsFor(x) == IF "roots" \in DOMAIN x.c THEN Differences(x.c, x.o, AllMembers) ELSE MacroReasons(x.c, x.o)
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET rs == ReasonsFor(Obs[i]) IN IF rs = {} THEN TRUE ELSE PrintT("FAIL " \o Obs[i].id \o " " \o ToString(rs))
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
