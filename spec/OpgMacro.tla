------------------------------- MODULE OpgMacro ------------------------------
(***************************************************************************)
(* Schemas spelled out with the describe_type macro.                       *)
(*                                                                         *)
(*   Form == [k: "string", d, format, example: Opt, variants: Opt(Seq)]    *)
(*         | [k: "number"/"integer", d, format, example: Opt]              *)
(*         | [k: "boolean", d] | [k: "array", d, items: Value]             *)
(*         | [k: "object", d, props: Seq([n, req: BOOLEAN, v: Value])]     *)
(*         | [k: "raw_model", m: Model] | [k: "raw_type", d, data: Data]   *)
(*   Value == Form | [k: "link", n, lit: BOOLEAN]                          *)
(***************************************************************************)
EXTENDS OpgScripts

RECURSIVE FormModel(_), FormRef(_), FormLinks(_)
FormRef(v) == IF v.k = "link" THEN Link(v.n) ELSE Inline(FormModel(v))
FormModel(f) ==
  CASE f.k = "string" -> Model(f.d, Single(FALSE, TString(f.variants, f.format, f.example)))
    [] f.k \in {"number", "integer"} -> Model(f.d, Single(FALSE, TSimple(f.k, f.format, f.example)))
    [] f.k = "boolean" -> Model(f.d, Single(FALSE, TBool))
    [] f.k = "array" -> Model(f.d, Single(FALSE, TArray(FormRef(f.items))))
    [] f.k = "object" ->
         LET req == SelectSeq(f.props, LAMBDA p : p.req) IN
         Model(f.d, Single(FALSE, TObject([n \in {f.props[i].n : i \in 1..Len(f.props)} |->
                                             FormRef(f.props[CHOOSE i \in 1..Len(f.props) : f.props[i].n = n].v)],
                                          None, [i \in 1..Len(req) |-> req[i].n])))
    [] f.k = "raw_model" -> f.m
    [] f.k = "raw_type" -> Model(f.d, f.data)

\* links are what is written, wherever it is written
FormLinks(v) ==
  CASE v.k = "link" -> {v.n}
    [] v.k = "array" -> FormLinks(v.items)
    [] v.k = "object" -> UNION {FormLinks(v.props[i].v) : i \in 1..Len(v.props)}
    [] v.k = "raw_model" -> ModelLinks(v.m)
    [] v.k = "raw_type" -> ModelLinks(Model(None, v.data))
    [] OTHER -> {}
FormFaithful(f) ==
  /\ ModelLinks(FormModel(f)) = FormLinks(f)
  /\ f.k \notin {"raw_model"} => FormModel(f).d = f.d
  /\ f.k = "object" => FormModel(f).data.td.required = [i \in 1..Len(SelectSeq(f.props, LAMBDA p : p.req)) |-> SelectSeq(f.props, LAMBDA p : p.req)[i].n]

(***************************************************************************)
(* Pieces                                                                  *)
(***************************************************************************)
Opts(x) == {None, Some(x)}
LeafForms ==
  {[k |-> "string", d |-> d, format |-> f, example |-> e, variants |-> v] : d \in Opts("a text"), f \in Opts("fmt"), e \in Opts("ex"), v \in {None, Some(<<>>), Some(<<"one">>), Some(<<"b", "a">>)}}
  \cup {[k |-> k, d |-> d, format |-> f, example |-> e] : k \in {"number", "integer"}, d \in Opts("a number"), f \in Opts("int7"), e \in {None, Some("42"), Some("ex")}}
  \cup {[k |-> "boolean", d |-> d] : d \in Opts("yes or no")}
RawModels == {Model(d, Single(n, TString(None, None, None))) : d \in Opts("raw"), n \in BOOLEAN}
             \cup {Model(None, OneOf(<<Link("Some"), AnyRef>>)), Model(Some("obj"), Single(TRUE, TObject("x" :> Link("Far"), Some(AnyRef), <<"x">>)))}
RawForms == {[k |-> "raw_model", m |-> m] : m \in RawModels} \cup {[k |-> "raw_type", d |-> d, data |-> m.data] : d \in Opts("described here"), m \in RawModels}
LinkValues == {[k |-> "link", n |-> n, lit |-> l] : n \in {"Pet", "other thing"}, l \in BOOLEAN}
PropNames == <<"alpha", "beta_two", "gammaThree", "type">>
ArrayForms(vs) == {[k |-> "array", d |-> d, items |-> v] : d \in Opts("a list"), v \in vs}
ObjectForms(vs, ws) ==
  {[k |-> "object", d |-> d, props |-> <<>>] : d \in Opts("nothing in it")}
  \cup {[k |-> "object", d |-> d, props |-> <<[n |-> "alpha", req |-> r, v |-> v]>>] : d \in Opts("an object"), r \in BOOLEAN, v \in vs}
  \cup {[k |-> "object", d |-> None, props |-> <<[n |-> "zeta", req |-> r, v |-> v], [n |-> "beta_two", req |-> s, v |-> w], [n |-> "type", req |-> r # s, v |-> v]>>] :
          r \in BOOLEAN, s \in BOOLEAN, v \in ws, w \in ws}
FewLeaves == {[k |-> "boolean", d |-> None], [k |-> "string", d |-> Some("s"), format |-> None, example |-> None, variants |-> None],
              [k |-> "integer", d |-> None, format |-> Some("f"), example |-> Some("1")]}
Level1 == ArrayForms(FewLeaves \cup LinkValues \cup RawForms) \cup ObjectForms(FewLeaves \cup LinkValues \cup RawForms, FewLeaves \cup LinkValues)
Forms == LeafForms \cup RawForms \cup Level1
         \cup ArrayForms({f \in Level1 : f.k = "array" \/ (f.k = "object" /\ Len(f.props) = 1)})
         \cup ObjectForms({f \in Level1 : f.k = "array" \/ (f.k = "object" /\ Len(f.props) = 1)}, {})

\* observed: the schema made, and a type whose implementation it is, mentioned in a list and inlined
MacroReasons(f, o) ==
  LET m == RenderModel(FormModel(f))
      same(a, b) == Norm(a, AllMembers) = Norm(b, AllMembers)
      bad == [schema |-> ~same(o.model, m), inlined |-> ~same(o.inlined, m), linked |-> o.linked # RenderModel(Sgl(TArray(Link("Hand")))),
              registered |-> ~(IsObj(o.schemas) /\ Keys(o.schemas) = {"Hand"} /\ same(Get(o.schemas, "Hand"), m))]
  IN {k \in DOMAIN bad : bad[k]}
=============================================================================
