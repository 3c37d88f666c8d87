------------------------------ MODULE OpgSchema ------------------------------
(***************************************************************************)
(* The in-memory schema objects, the operations on them, and how they are  *)
(* written out as OpenAPI.                                                 *)
(*                                                                         *)
(*   Model == [d: Opt(string), data: Data]                                 *)
(*   Data  == [k: "single", nullable: BOOLEAN, td: TypeDesc]               *)
(*          | [k: "oneOf" / "allOf" / "anyOf", refs: Seq(Ref)]             *)
(*   TypeDesc == [k: "string", variants: Opt(Seq(string)), format, example]*)
(*          | [k: "number" / "integer", format, example] | [k: "boolean"]  *)
(*          | [k: "array", items: Ref]                                     *)
(*          | [k: "object", props: string -> Ref, addl: Opt(Ref),          *)
(*             required: Seq(string)]                                      *)
(*   Ref   == [k: "link", n: string] | [k: "inline", m: Model] | [k: "any"]*)
(***************************************************************************)
EXTENDS OpgJson

Link(n) == [k |-> "link", n |-> n]
Inline(m) == [k |-> "inline", m |-> m]
AnyRef == [k |-> "any"]

Model(d, data) == [d |-> d, data |-> data]
Single(nullable, td) == [k |-> "single", nullable |-> nullable, td |-> td]
OneOf(refs) == [k |-> "oneOf", refs |-> refs]

TString(variants, format, example) ==
  [k |-> "string", variants |-> variants, format |-> format, example |-> example]
TSimple(kind, format, example) == [k |-> kind, format |-> format, example |-> example]
TBool == [k |-> "boolean"]
TArray(items) == [k |-> "array", items |-> items]
TObject(props, addl, required) == [k |-> "object", props |-> props, addl |-> addl, required |-> required]

(***************************************************************************)
(* Context parameters: in-place overrides.                                 *)
(***************************************************************************)
NoParams == [d |-> None, nullable |-> None, variants |-> None, format |-> None, example |-> None]

ApplyTD(td, p) ==
  CASE td.k = "string" -> TString(OrElse(p.variants, td.variants), OrElse(p.format, td.format), OrElse(p.example, td.example))
    [] td.k \in {"number", "integer"} -> TSimple(td.k, OrElse(p.format, td.format), OrElse(p.example, td.example))
    [] OTHER -> td

\* Overrides reach single typed schemas only; lists of alternatives keep everything but the description.
ApplyParams(m, p) ==
  [d |-> OrElse(p.d, m.d),
   data |-> IF m.data.k = "single"
            THEN Single(IF IsSome(p.nullable) THEN The(p.nullable) ELSE m.data.nullable, ApplyTD(m.data.td, p))
            ELSE m.data]

(***************************************************************************)
(* Merging of objects: all or nothing.                                     *)
(***************************************************************************)
IsObject(m) == m.data.k = "single" /\ m.data.td.k = "object"

ObjConflict(a, b) == (DOMAIN a.props) \cap (DOMAIN b.props) # {}
ObjMerge(a, b) == TObject(a.props @@ b.props, a.addl, a.required \o b.required)

\* Result: [ok, m]; on failure m is the unchanged receiver
TryMerge(m, other) ==
  IF IsObject(m) /\ IsObject(other) /\ ~ObjConflict(m.data.td, other.data.td)
  THEN [ok |-> TRUE, m |-> [m EXCEPT !.data.td = ObjMerge(m.data.td, other.data.td)]]
  ELSE [ok |-> FALSE, m |-> m]

ObjAddProperty(o, name, ref, isRequired) ==
  IF name \in DOMAIN o.props THEN [ok |-> FALSE, o |-> o]
  ELSE [ok |-> TRUE, o |-> TObject(o.props @@ (name :> ref), o.addl,
                                   IF isRequired THEN Append(o.required, name) ELSE o.required)]

(***************************************************************************)
(* Links of a model at any depth.                                          *)
(***************************************************************************)
RECURSIVE RefLinks(_)
RefLinks(r) ==
  CASE r.k = "link" -> {r.n}
    [] r.k = "any" -> {}
    [] r.k = "inline" ->
         LET d == r.m.data IN
         IF d.k # "single" THEN UNION {RefLinks(d.refs[i]) : i \in 1..Len(d.refs)}
         ELSE CASE d.td.k = "array" -> RefLinks(d.td.items)
                [] d.td.k = "object" -> UNION {RefLinks(d.td.props[x]) : x \in DOMAIN d.td.props}
                                        \cup UNION {RefLinks(d.td.addl[i]) : i \in 1..Len(d.td.addl)}
                [] OTHER -> {}
ModelLinks(m) == RefLinks(Inline(m))

\* verify_schemas: Ok iff nothing dangles; otherwise one of the dangling names
Dangling(schemas) == UNION {ModelLinks(schemas[n]) : n \in DOMAIN schemas} \ DOMAIN schemas

(***************************************************************************)
(* Rendering                                                               *)
(***************************************************************************)
RECURSIVE RenderRef(_), RenderModel(_)
RenderRef(r) ==
  CASE r.k = "link" -> RefTo(r.n)
    [] r.k = "any" -> JO(EmptyFn)
    [] r.k = "inline" -> RenderModel(r.m)

RenderTD(td) ==
  CASE td.k = "string" ->
         ("type" :> JS("string"))
         @@ (IF IsSome(td.variants) THEN "enum" :> StrArr(The(td.variants)) ELSE EmptyFn)
         @@ (IF IsSome(td.format) THEN "format" :> JS(The(td.format)) ELSE EmptyFn)
         @@ (IF IsSome(td.example) THEN "example" :> JS(The(td.example)) ELSE EmptyFn)
    [] td.k \in {"number", "integer"} ->
         ("type" :> JS(td.k))
         @@ (IF IsSome(td.format) THEN "format" :> JS(The(td.format)) ELSE EmptyFn)
         @@ (IF IsSome(td.example) THEN "example" :> JS(The(td.example)) ELSE EmptyFn)
    [] td.k = "boolean" -> "type" :> JS("boolean")
    [] td.k = "array" -> ("type" :> JS("array")) @@ ("items" :> RenderRef(td.items))
    [] td.k = "object" ->
         ("type" :> JS("object"))
         @@ (IF DOMAIN td.props # {} THEN "properties" :> JO([x \in DOMAIN td.props |-> RenderRef(td.props[x])]) ELSE EmptyFn)
         @@ (IF IsSome(td.addl) THEN "additionalProperties" :> RenderRef(The(td.addl)) ELSE EmptyFn)
         @@ (IF Len(td.required) > 0 THEN "required" :> StrArr(td.required) ELSE EmptyFn)

RenderModel(m) ==
  JO((IF IsSome(m.d) THEN "description" :> JS(The(m.d)) ELSE EmptyFn)
     @@ (IF m.data.k = "single"
         THEN (IF m.data.nullable THEN "nullable" :> JB(TRUE) ELSE EmptyFn) @@ RenderTD(m.data.td)
         ELSE m.data.k :> JA([i \in 1..Len(m.data.refs) |-> RenderRef(m.data.refs[i])])))

RenderSchemas(cx) == [n \in DOMAIN cx |-> RenderModel(cx[n])]

=============================================================================
