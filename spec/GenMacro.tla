------------------------------- MODULE GenMacro ------------------------------
(* Systematic forms, and programs over types described by impl_opg_model.   *)
EXTENDS OpgMacro, OpgCases, Json, IOUtils, SequencesExt
\* strings arrive as they were written
TextForms == {[k |-> "string", d |-> Some(t), format |-> Some(t), example |-> Some(t), variants |-> Some(<<t, "x", t>>)] : t \in Texts}
             \cup {[k |-> "object", d |-> Some(t), props |-> <<[n |-> "alpha", req |-> TRUE, v |-> [k |-> "link", n |-> t, lit |-> l]],
                                                               [n |-> "beta", req |-> FALSE, v |-> [k |-> "array", d |-> Some(t), items |-> [k |-> "integer", d |-> Some(t), format |-> Some(t), example |-> Some(t)]]]>>] :
                     t \in Texts, l \in BOOLEAN}
             \cup {[k |-> "array", d |-> Some(t), items |-> [k |-> "raw_type", d |-> Some(t), data |-> m.data]] : t \in Texts, m \in RawModels}
\* large ones
RECURSIVE Deep(_)
Deep(n) == IF n = 0 THEN [k |-> "boolean", d |-> Some("bottom")]
           ELSE IF n % 2 = 0 THEN [k |-> "array", d |-> Some("level " \o ToString(n)), items |-> Deep(n - 1)]
           ELSE [k |-> "object", d |-> None, props |-> <<[n |-> "p" \o ToString(n), req |-> n % 3 = 0, v |-> Deep(n - 1)], [n |-> "z", req |-> TRUE, v |-> [k |-> "link", n |-> "Pet", lit |-> TRUE]]>>]
LargeForms == {Deep(n) : n \in {5, 8, 12}}
              \cup {[k |-> "object", d |-> Some("wide"), props |-> [i \in 1..n |-> [n |-> "p" \o ToString((i * 7) % 41), req |-> i % 3 # 0, v |-> [k |-> "string", d |-> None, format |-> None, example |-> Some(ToString(i)), variants |-> None]]]] : n \in {10, 20, 40}}
              \cup {[k |-> "string", d |-> None, format |-> None, example |-> None, variants |-> Some([i \in 1..n |-> "v" \o ToString((i * 7) % 41)])] : n \in {10, 40}}
All == Forms \cup TextForms \cup LargeForms
ASSUME \A f \in All : FormFaithful(f) \/ ~PrintT(f)

\* The builtin constructors stand for the user's own ones of the same kind
Own1(x) == {x, BoxOf(x), OptOf(x), VecOf(x), MapOf(x)}
Leaves == {I32, Str, Boolean, Prim("f64"), Prim("unit"), Decl("Obj"), Decl("Inl")}
          \cup {Decl(n) : n \in {"RegText", "RegReal", "RegInt", "RegFlag"}}
OwnDecls == <<Struct("Obj", <<Fld("a", I32), Fld("b", OptOf(BoxOf(Decl("Obj")))), Fld("c", VecOf(Str))>>),
              [Struct("Inl", <<Fld("q", MapOf(OptOf(I32)))>>) EXCEPT !.c.inline = TRUE],
              Newtype("RegText", Pos(Str)), Newtype("RegReal", [Pos(Prim("f64")) EXCEPT !.format = Some("own format")]),
              Newtype("RegInt", [Pos(I32) EXCEPT !.format = Some("int9")]), Newtype("RegFlag", Pos(Boolean))>>
P0 == {NoParams, [NoParams EXCEPT !.d = Some("call"), !.nullable = Some(TRUE), !.format = Some("cf")]}
OwnCases == {Prune(Case("own", OwnDecls, <<[ty |-> t, inline |-> i, p |-> p]>>)) :
               t \in UNION {UNION {Own1(y) : y \in Own1(x)} : x \in Leaves}, i \in BOOLEAN, p \in P0}
ASSUME JsonSerialize(IOEnv.OUT, [forms |-> SetToSeq(All), own |-> SetToSeq(OwnCases)])
ASSUME PrintT(<<Cardinality(All), Cardinality(OwnCases)>>)
=============================================================================
