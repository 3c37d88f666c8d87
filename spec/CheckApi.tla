------------------------------- MODULE CheckApi ------------------------------
(* Every recorded document (OBS) against a property (PROP).                 *)
EXTENDS OpgApiProps, Json, IOUtils

Obs == JsonDeserialize(IOEnv.OBS)
Prop == IOEnv.PROP

VARIABLES i, done
Init == i \in 1..Len(Obs) /\ done = FALSE
Judge(k) ==
  /\ LET rs == ApiReasons(Prop, Obs[k].c, Obs[k].o) IN
     IF rs = {} THEN TRUE ELSE PrintT("FAIL " \o Obs[k].id \o " " \o ToString(rs))
  /\ LET rs == ApiSpecReasons(Prop, Obs[k].c) IN
     IF rs = {} THEN TRUE ELSE PrintT("SPEC " \o Obs[k].id \o " " \o ToString(rs))
Next == ~done /\ Judge(i) /\ done' = TRUE /\ i' = i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
