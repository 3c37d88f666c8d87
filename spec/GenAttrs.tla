------------------------------- MODULE GenAttrs ------------------------------
(* Declarations to be accepted or rejected.                                  *)
EXTENDS OpgAttrs, OpgClauses, Json, IOUtils
\* one attribute with all items, or one each
Written(p, is, g) == [k |-> "attrs", place |-> p, items |-> is, split |-> g]
One == {<<x>> : x \in Items}
GoodPairs == {<<x, y>> : x \in GoodItems, y \in GoodItems}
BadPairs == {<<x, y>> : x \in BadItems, y \in {Good("\"A description\"", "description"), Good("inline", "inline"), Good("string", "type")}}
GoodTriples == {<<x, y, z>> : x \in {Good("inline", "inline"), Good("\"A description\"", "description"), Good("integer", "type")}, y \in GoodItems, z \in GoodItems}
AttrCases ==
       {Written(p, is, FALSE) : p \in Places, is \in {<<>>} \cup One \cup GoodPairs \cup BadPairs \cup GoodTriples}
  \cup {Written(p, is, TRUE) : p \in Places, is \in GoodPairs \cup {Reverse(x) : x \in BadPairs}}
Bare == {[k |-> "bare", place |-> p, text |-> t] : p \in Places, t \in BareForms}
ASSUME JsonSerialize(IOEnv.OUT, [attrs |-> SetToSeq(AttrCases), bare |-> SetToSeq(Bare),
                                 clauses |-> SetToSeq(ClauseCases),
                                 shapes |-> SetToSeq(Shapes), generics |-> SetToSeq(Generics)])
ASSUME PrintT(<<Cardinality(AttrCases), Cardinality(Shapes), Cardinality(Generics)>>)
=============================================================================
