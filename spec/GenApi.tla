-------------------------------- MODULE GenApi -------------------------------
(* The systematic API descriptions, written as a JSON array to OUT.         *)
EXTENDS OpgApiCases, Json, IOUtils
Good(p) == LET d == Describe(p) IN Corresponds(d) /\ RequiresKnown(d) /\ Resolved(d)
ASSUME JsonSerialize(IOEnv.OUT, ApiProgs)
ASSUME PrintT(<<Len(PathProgs), Len(ParamProgs), Len(OpPairProgs), Len(RespProgs), Len(SecProgs), Len(CallbackProgs), Len(SectionProgs)>>)
ASSUME \A i \in 1..Len(ApiProgs) : Good(ApiProgs[i]) \/ ~PrintT(<<"BAD", i>>)
=============================================================================
