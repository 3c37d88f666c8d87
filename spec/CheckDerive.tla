----------------------------- MODULE CheckDerive -----------------------------
(* Every recorded observation (OBS) against a property (PROP).              *)
EXTENDS OpgProps, Json, IOUtils

Obs == JsonDeserialize(IOEnv.OBS)
Prop == IOEnv.PROP

VARIABLES i, done
Init == i \in 1..Len(Obs) /\ done = FALSE
Judge(k) ==
  /\ LET rs == Reasons(Prop, Obs[k].c, Obs[k].o) IN
     IF rs = {} THEN TRUE ELSE PrintT("FAIL " \o Obs[k].id \o " " \o ToString(rs))
  /\ LET rs == SpecReasonsOf(Prop, Obs[k].c) IN
     IF rs = {} THEN TRUE ELSE PrintT("SPEC " \o Obs[k].id \o " " \o ToString(rs))
  /\ IF ~Obs[k].wire \/ WireSpec(Obs[k].c, Obs[k].o) THEN TRUE ELSE PrintT("WIRE " \o Obs[k].id)
Next == ~done /\ Judge(i) /\ done' = TRUE /\ i' = i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
