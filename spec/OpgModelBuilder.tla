--------------------------- MODULE OpgModelBuilder ---------------------------
(***************************************************************************)
(* Schema objects of any shape, built from the leaves up: the stack holds  *)
(* what was built so far.  A behaviour ends when enough schema objects are *)
(* there to register, override, merge and write them; the scripts doing    *)
(* that are printed for the implementation (KIND selects which).           *)
(***************************************************************************)
EXTENDS OpgScripts, Json, IOUtils, Randomization

VARIABLES stack, ready, steps, done
vars == <<stack, ready, steps, done>>

Few(S) == RandomSubset(IF Cardinality(S) < 3 THEN Cardinality(S) ELSE 3, S)
Kind == IOEnv.KIND
Wanted == CASE Kind = "merge" -> 4 [] Kind = "apply" -> 1 [] OTHER -> 3

Word == {None, Some("text"), Some(""), Some("quo\"te \\ / {x}"), Some("null")}
EnumLists == {None, Some(<<>>), Some(<<"x">>), Some(<<"b", "a", "b">>)}
\* the names of registered schemas and of some that are not
LinkNames == {"N1", "N2", "N3", "Nowhere", "a b"}
PropNames == {"a", "b", "c", "type", "$ref", "description"}

Leaves == {Link(n) : n \in LinkNames} \cup {AnyRef}
          \cup {Inline(Model(d, Single(n, TString(v, f, e)))) : d \in Word, n \in BOOLEAN, v \in EnumLists, f \in Word, e \in Word}
          \cup {Inline(Model(d, Single(n, TSimple(k, f, e)))) : d \in Word, n \in BOOLEAN, k \in {"number", "integer"}, f \in Word, e \in Word}
          \cup {Inline(Model(d, Single(n, TBool))) : d \in Word, n \in BOOLEAN}
          \cup {Inline(Model(d, Single(n, TObject(EmptyFn, None, <<>>)))) : d \in Word, n \in BOOLEAN}
          \cup {Inline(Model(d, [k |-> k, refs |-> <<>>])) : d \in Word, k \in {"oneOf", "allOf", "anyOf"}}

Init == stack = <<>> /\ ready = <<>> /\ steps = 0 /\ done = FALSE

Leaf == /\ Len(stack) < 4
        /\ \E r \in Few(Leaves) : stack' = Append(stack, r)
        /\ UNCHANGED ready
\* the last k of the stack become one
Top(k) == SubSeq(stack, Len(stack) - k + 1, Len(stack))
Rest(k) == SubSeq(stack, 1, Len(stack) - k)
Objects(k, addl) ==
  LET n == IF addl THEN k - 1 ELSE k IN
  {TObject([x \in {names[i] : i \in 1..n} |-> Top(k)[CHOOSE i \in 1..n : names[i] = x]], IF addl THEN Some(Top(k)[k]) ELSE None, req) :
     names \in {f \in [1..n -> PropNames] : \A i, j \in 1..n : i # j => f[i] # f[j]},
     req \in {<<>>, <<"a">>, <<"b", "a">>}}
Wraps(k) ==
  UNION {{Model(d, [k |-> kk, refs |-> Top(k)]) : kk \in {"oneOf", "allOf", "anyOf"}}
         \cup {Model(d, Single(n, td)) : n \in BOOLEAN,
                 td \in (IF k = 1 THEN {TArray(Top(1)[1])} ELSE {}) \cup Few(Objects(k, FALSE)) \cup Few(Objects(k, TRUE))} : d \in Word}
\* how deep schemas are nested, bounded: readers of JSON give up somewhere
RECURSIVE Height(_)
HeightAll(S) == LET hs == {Height(r) : r \in S} IN IF hs = {} THEN 0 ELSE CHOOSE h \in hs : \A x \in hs : x <= h
Height(r) == IF r.k # "inline" THEN 0
             ELSE 1 + HeightAll(IF r.m.data.k # "single" THEN SeqRange(r.m.data.refs)
                                ELSE LET td == r.m.data.td IN
                                     CASE td.k = "array" -> {td.items}
                                       [] td.k = "object" -> {td.props[n] : n \in DOMAIN td.props} \cup SeqRange(td.addl)
                                       [] OTHER -> {})
Wrap == /\ \A i \in 1..Len(stack) : Height(stack[i]) < 8
        /\ \E k \in 1..(IF Len(stack) < 3 THEN Len(stack) ELSE 3) : \E m \in Few(Wraps(k)) : stack' = Append(Rest(k), Inline(m))
        /\ UNCHANGED ready
\* merging is about objects: half of what is kept for it are objects
Keep == /\ Len(stack) > 0 /\ stack[Len(stack)].k = "inline" /\ Len(ready) < Wanted
        /\ Kind = "merge" /\ Len(ready) # 2 => IsObject(stack[Len(stack)].m)
        /\ ready' = Append(ready, stack[Len(stack)].m)
        /\ stack' = Rest(1)

Script(m, ops) == [decls |-> <<>>, graph |-> <<>>, model |-> m, ops |-> ops]
Rand(S) == RandomElement(S)
Scripts ==
  CASE Kind = "apply" -> {Script(ready[1], [i \in 1..3 |-> [op |-> "apply", p |-> [d |-> Rand(Word), nullable |-> Rand({None, Some(TRUE), Some(FALSE)}), variants |-> Rand(EnumLists),
                                                                                 format |-> Rand(Word), example |-> Rand(Word)]]])}
    [] Kind = "nullable" -> {Script(Stub, [i \in 1..3 |-> [op |-> "nullable", ref |-> Inline(ready[i])]])}
    [] Kind = "merge" -> {Script(ready[1], <<[op |-> "merge", m |-> ready[2]], [op |-> "addprop", name |-> Rand(PropNames), ref |-> Inline(ready[3]), req |-> Rand(BOOLEAN)],
                                             [op |-> "objmerge", td |-> ready[4].data.td], [op |-> "merge", m |-> ready[3]],
                                             [op |-> "addprop", name |-> Rand(PropNames), ref |-> AnyRef, req |-> Rand(BOOLEAN)]>>)}
    [] Kind = "verify" -> {Script(Stub, <<[op |-> "add", name |-> "N1", m |-> ready[1]], [op |-> "verify"], [op |-> "add", name |-> "N2", m |-> ready[2]], [op |-> "verify"],
                                          [op |-> "add", name |-> Rand(LinkNames), m |-> ready[3]], [op |-> "verify"]>>)}
    [] Kind = "doc" -> {[doc |-> [EmptyDoc EXCEPT !.schemas = ("N1" :> ready[1]) @@ ("a b" :> ready[2]),
                          !.paths = <<[path |-> <<[k |-> "path", v |-> "p"]>>, item |-> [EmptyItem EXCEPT
                              !.params = "q" :> [d |-> Rand(Word), loc |-> "query", required |-> Rand(BOOLEAN), deprecated |-> Rand(BOOLEAN), schema |-> Some(Inline(ready[3]))],
                              !.ops = "get" :> [EmptyOp EXCEPT !.body = Some([d |-> Rand(Word), required |-> Rand(BOOLEAN), schema |-> Inline(ready[1])]),
                                                               !.responses = "200" :> [d |-> "", schema |-> Some(Inline(ready[2]))]]]]>>]]}

End == /\ Len(ready) = Wanted /\ ~done /\ done' = TRUE
       /\ \A s \in Scripts : PrintT("CASE " \o ToJson(s))
       /\ UNCHANGED <<stack, ready, steps>>
Next == \/ /\ ~done /\ Len(ready) < Wanted /\ (Leaf \/ Wrap \/ Keep) /\ steps' = steps + 1 /\ UNCHANGED done
        \/ End
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the operations promise, on everything built                        *)
(***************************************************************************)
R(i) == ready[i]
SomeParams == {NoParams, [NoParams EXCEPT !.d = Some("over")], [d |-> Some("over"), nullable |-> Some(TRUE), variants |-> Some(<<"o">>), format |-> Some("of"), example |-> Some("oe")],
               [NoParams EXCEPT !.nullable = Some(FALSE), !.format = Some("of")]}
ApplyGood == done => \A i \in 1..Len(ready) : \A p \in SomeParams :
  /\ ApplyParams(R(i), NoParams) = R(i)
  /\ ApplyParams(ApplyParams(R(i), p), p) = ApplyParams(R(i), p)
  /\ ModelLinks(ApplyParams(R(i), p)) = ModelLinks(R(i))
  /\ IsSome(p.d) => ApplyParams(R(i), p).d = p.d
MergeGood == done => \A i, k \in 1..Len(ready) :
  LET x == TryMerge(R(i), R(k)) IN
  IF x.ok THEN /\ DOMAIN x.m.data.td.props = (DOMAIN R(i).data.td.props) \cup (DOMAIN R(k).data.td.props)
               /\ \A n \in DOMAIN x.m.data.td.props :
                    x.m.data.td.props[n] = IF n \in DOMAIN R(i).data.td.props THEN R(i).data.td.props[n] ELSE R(k).data.td.props[n]
               /\ x.m.d = R(i).d
  ELSE x.m = R(i)
NullableGood == done => \A i \in 1..Len(ready) :
  LET m == IntoNullable(Inline(R(i))) IN
  ModelLinks(m) = ModelLinks(R(i)) /\ (m.data.k = "single" => m.data.nullable) /\ IntoNullable(Inline(m)).data.k = m.data.k
\* what is written says which links there are
WrittenGood == done => \A i \in 1..Len(ready) : AllRefs(RenderModel(R(i))) = ModelLinks(R(i))
=============================================================================
