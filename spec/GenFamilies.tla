----------------------------- MODULE GenFamilies -----------------------------
(* Writes one systematic family (FAMILY) as a JSON array of cases to OUT.   *)
EXTENDS OpgPairs, Json, IOUtils

Cases == SetToSeq({Prune(c) : c \in CASE IOEnv.FAMILY = "pairs" -> FamPairs(0) [] IOEnv.FAMILY = "triples" -> FamTriples(0) [] OTHER -> Family(IOEnv.FAMILY)})
ASSUME JsonSerialize(IOEnv.OUT, Cases)
ASSUME PrintT(<<IOEnv.FAMILY, Len(Cases)>>)
=============================================================================
