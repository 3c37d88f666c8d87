------------------------------- MODULE OpgTypes ------------------------------
(***************************************************************************)
(* Rust types as opg sees them, and the schema that each of them gets.     *)
(*                                                                         *)
(* Type == [t: constructor, n: name, a: Seq(Type)]                         *)
(*   t = "decl"  a declared type n with arguments a                        *)
(*   t = "param" the type parameter n of the enclosing declaration         *)
(*   otherwise a builtin constructor (n = "", except "Array": its length)  *)
(*                                                                         *)
(* Decl == [name, params: Seq(string), kind: "struct" / "tuple" /          *)
(*          "newtype" / "enum", c: container attributes,                   *)
(*          fields: Seq(Field), variants: Seq(Variant)]                    *)
(* An environment E maps the names of the declared types to them.          *)
(*                                                                         *)
(* Mention, GetSchema and SelectRef thread the registry cx (name -> Model) *)
(* through the description of a type: they return [cx, r] or [cx, m].      *)
(***************************************************************************)
EXTENDS OpgSchema

Ty(t, a) == [t |-> t, n |-> "", a |-> a]
Prim(t) == Ty(t, <<>>)
Decl(n) == [t |-> "decl", n |-> n, a |-> <<>>]
DeclOf(n, a) == [t |-> "decl", n |-> n, a |-> a]
Param(n) == [t |-> "param", n |-> n, a |-> <<>>]
ArrayOf(n, x) == [t |-> "Array", n |-> n, a |-> <<x>>]

Pointers == {"Box", "Rc", "Arc", "Cell", "RefCell", "ref", "refmut"}
Lists == {"Vec", "HashSet", "LinkedList", "VecDeque", "BinaryHeap", "Slice", "Array"}
Maps == {"HashMap", "BTreeMap", "BTreeMapU32"}

(***************************************************************************)
(* Builtin types without arguments                                         *)
(***************************************************************************)
Sgl(td) == Model(None, Single(FALSE, td))
IntPrims == ("i8" :> Some("int8")) @@ ("u8" :> Some("uint8")) @@ ("i16" :> Some("int16"))
         @@ ("u16" :> Some("uint16")) @@ ("i32" :> Some("int32")) @@ ("u32" :> Some("uint32"))
         @@ ("i64" :> Some("int64")) @@ ("u64" :> Some("uint64"))
         @@ ("isize" :> None) @@ ("usize" :> None)
         @@ ("AtomicI8" :> Some("int8")) @@ ("AtomicU8" :> Some("uint8")) @@ ("AtomicI16" :> Some("int16"))
         @@ ("AtomicU16" :> Some("uint16")) @@ ("AtomicI32" :> Some("int32")) @@ ("AtomicU32" :> Some("uint32"))
         @@ ("AtomicI64" :> Some("int64")) @@ ("AtomicU64" :> Some("uint64"))
         @@ ("AtomicIsize" :> None) @@ ("AtomicUsize" :> None)
FloatPrims == ("f32" :> Some("float")) @@ ("f64" :> Some("double"))
StringPrims == ("String" :> None) @@ ("str" :> None) @@ ("char" :> Some("char"))

NullModel == Model(Some("Always `null`"), Single(TRUE, TString(None, Some("null"), None)))

PrimModel(p) ==
  CASE p \in DOMAIN IntPrims -> Sgl(TSimple("integer", IntPrims[p], None))
    [] p \in DOMAIN FloatPrims -> Sgl(TSimple("number", FloatPrims[p], None))
    [] p \in DOMAIN StringPrims -> Sgl(TString(None, StringPrims[p], None))
    [] p \in {"bool", "AtomicBool"} -> Sgl(TBool)
    [] p = "unit" -> NullModel
    [] p = "Uuid" -> Model(Some("UUID ver. 4 [rfc](https://tools.ietf.org/html/rfc4122)"),
                           Single(FALSE, TString(None, Some("uuid"), Some("00000000-0000-0000-0000-000000000000"))))
    [] p = "NaiveDateTime" -> Model(Some("Datetime without timezone"),
                           Single(FALSE, TString(None, Some("date-time"), Some("2020-06-26T14:04:20.730045106"))))
    [] p = "DateTime" -> Model(Some("Datetime with timezone"),
                           Single(FALSE, TString(None, Some("date-time"), Some("2020-06-26T14:04:20.730045106Z"))))
    [] p = "NaiveDate" -> Model(Some("Date without timezone"),
                           Single(FALSE, TString(None, Some("date"), Some("2020-06-26"))))
Prims == DOMAIN IntPrims \cup DOMAIN FloatPrims \cup DOMAIN StringPrims
         \cup {"bool", "AtomicBool", "unit", "Uuid", "NaiveDateTime", "DateTime", "NaiveDate"}

(***************************************************************************)
(* Declarations                                                            *)
(***************************************************************************)
Unraw(s) == IF Len(s) > 2 /\ SubSeq(s, 1, 2) = "r#" THEN SubSeq(s, 3, Len(s)) ELSE s

\* Only renames of the serialized form change the name on the wire
SerRename(r) == IF IsSome(r) /\ The(r).form # "de" THEN Some(The(r).to) ELSE None
FieldName(f, rule) == IF IsSome(SerRename(f.rename)) THEN The(SerRename(f.rename)) ELSE RenameField(rule, Unraw(f.name))
VariantName(v, rule) == IF IsSome(SerRename(v.rename)) THEN The(SerRename(v.rename)) ELSE RenameVariant(rule, Unraw(v.name))

SerSkipped(x) == x.skip \in {"skip", "skip_serializing"}
Kept(s) == SelectSeq(s, LAMBDA x : ~SerSkipped(x))
OptionalField(f) == f.optional \/ f.skipif

Tagging(c) ==
  CASE c.untagged -> "untagged"
    [] IsSome(c.tag) /\ IsSome(c.content) -> "adjacent"
    [] IsSome(c.tag) -> "internal"
    [] OTHER -> "external"
AllUnit(vs) == \A i \in 1..Len(vs) : vs[i].style = "unit"

\* serde writes a newtype variant whose only field is skipped as a unit variant; an explicit type of a newtype variant is
\* its field's, if that has none
WrittenVariant(v) ==
  IF v.style # "newtype" THEN v
  ELSE IF SerSkipped(v.fields[1]) THEN [v EXCEPT !.style = "unit", !.fields = <<>>]
  ELSE [v EXCEPT !.fields = <<[v.fields[1] EXCEPT !.ety = OrElse(v.fields[1].ety, v.ety)]>>]
\* The fields of a variant without a rule of its own are renamed by the container's rule for fields
OwnRule(v, c) == IF v.rename_all = "none" THEN [v EXCEPT !.rename_all = c.raf] ELSE v
Written(d) == [d EXCEPT !.variants = [i \in 1..Len(d.variants) |-> OwnRule(WrittenVariant(d.variants[i]), d.c)]]
\* The name of the type itself, which serde writes as the tag of a tagged struct
ContainerName(d) == IF IsSome(SerRename(d.c.rename)) THEN The(SerRename(d.c.rename)) ELSE Unraw(d.name)

\* An enum of which only unit variants are written is written as their names (of a written declaration)
EnumKind(d) ==
  CASE Tagging(d.c) = "external" /\ AllUnit(d.variants) /\ IsSome(d.c.repr) -> "repr"
    [] Tagging(d.c) = "external" /\ AllUnit(Kept(d.variants)) /\ ~IsSome(d.c.repr) -> "names"
    [] OTHER -> Tagging(d.c)

\* The field that gives a transparent or newtype struct its schema
InnerField(d) == IF d.c.transparent /\ Len(Kept(d.fields)) > 0 THEN Kept(d.fields)[1] ELSE d.fields[1]
IsNewtype(d) == d.kind = "newtype" \/ (d.kind # "enum" /\ d.c.transparent)

ExampleOf(e) == IF IsSome(e) THEN Some(The(e).v) ELSE None
AttrParams(x, nullable) ==
  [d |-> x.desc, nullable |-> IF nullable THEN Some(TRUE) ELSE None, variants |-> None,
   format |-> x.format, example |-> ExampleOf(x.example)]
ParamsOr(p, q) ==
  [d |-> OrElse(p.d, q.d), nullable |-> OrElse(p.nullable, q.nullable), variants |-> OrElse(p.variants, q.variants),
   format |-> OrElse(p.format, q.format), example |-> OrElse(p.example, q.example)]
FieldParams(f) == AttrParams(f, f.nullable)
VariantParams(v) == AttrParams(v, FALSE)
ContainerParams(c) == AttrParams(c, c.nullable)

ExplicitModel(nullable, p, ety) ==
  Model(p.d, Single(nullable,
    CASE ety = "string" -> TString(None, p.format, p.example)
      [] ety \in {"integer", "number"} -> TSimple(ety, p.format, p.example)
      [] ety = "boolean" -> TBool))

RECURSIVE Subst(_, _, _)
Subst(T, params, args) ==
  IF T.t = "param"
  THEN args[CHOOSE i \in 1..Len(params) : params[i] = T.n]
  ELSE [T EXCEPT !.a = [i \in 1..Len(T.a) |-> Subst(T.a[i], params, args)]]

SubstField(f, params, args) == [f EXCEPT !.ty = Subst(f.ty, params, args)]
Instance(decl, args) ==
  LET d == Written(decl) IN
  IF Len(d.params) = 0 THEN d ELSE
  [d EXCEPT !.fields = [i \in 1..Len(d.fields) |-> SubstField(d.fields[i], d.params, args)],
            !.variants = [i \in 1..Len(d.variants) |->
               [d.variants[i] EXCEPT !.fields =
                  [k \in 1..Len(d.variants[i].fields) |-> SubstField(d.variants[i].fields[k], d.params, args)]]]]

(***************************************************************************)
(* Nullable form of a reference                                            *)
(***************************************************************************)
IntoNullable(r) ==
  IF r.k = "inline" /\ r.m.data.k = "single"
  THEN [r.m EXCEPT !.data.nullable = TRUE]
  ELSE Model(None, OneOf(<<r, Inline(NullModel)>>))

Stub == Model(None, OneOf(<<>>))

RECURSIVE TName(_, _)
TName(E, T) ==
  CASE T.t \in Pointers -> TName(E, T.a[1])
    [] T.t = "decl" -> IF E[T.n].c.inline THEN None ELSE Some(T.n)
    [] OTHER -> None

RECURSIVE Mention(_, _, _, _, _), SelectRef(_, _, _, _, _), GetSchema(_, _, _), GetDecl(_, _, _),
          Refs(_, _, _), FieldRef(_, _, _, _, _), FieldRefs(_, _, _, _), Contents(_, _, _), Alts(_, _, _)

\* The registry gets a model for every name that is linked to, exactly once
Mention(E, T, cx, inl, p) ==
  LET s == SelectRef(E, T, cx, inl, p) IN
  IF s.r.k = "link" /\ s.r.n \notin DOMAIN s.cx
  THEN LET g == GetSchema(E, T, (s.r.n :> Stub) @@ s.cx) IN [cx |-> (s.r.n :> g.m) @@ g.cx, r |-> s.r]
  ELSE s

SelectRef(E, T, cx, inl, p) ==
  IF T.t = "Option"
  THEN LET m == Mention(E, T.a[1], cx, inl, NoParams) IN [cx |-> m.cx, r |-> Inline(ApplyParams(IntoNullable(m.r), p))]
  ELSE IF T.t \in Pointers THEN SelectRef(E, T.a[1], cx, inl, p)
  ELSE IF ~inl /\ IsSome(TName(E, T)) THEN [cx |-> cx, r |-> Link(The(TName(E, T)))]
  ELSE LET g == GetSchema(E, T, cx) IN [cx |-> g.cx, r |-> Inline(ApplyParams(g.m, p))]

\* Mentions of a sequence of types, left to right
Refs(E, ts, cx) ==
  IF Len(ts) = 0 THEN [cx |-> cx, rs |-> <<>>]
  ELSE LET m == Mention(E, ts[1], cx, FALSE, NoParams)
           rest == Refs(E, Tail(ts), m.cx)
       IN [cx |-> rest.cx, rs |-> <<m.r>> \o rest.rs]

GetSchema(E, T, cx) ==
  CASE T.t \in Pointers -> GetSchema(E, T.a[1], cx)
    [] T.t = "Option" -> LET m == Mention(E, T.a[1], cx, FALSE, NoParams) IN [cx |-> m.cx, m |-> IntoNullable(m.r)]
    [] T.t \in Lists \/ (T.t = "Tuple" /\ Len(T.a) = 1) ->
         LET m == Mention(E, T.a[1], cx, FALSE, NoParams) IN [cx |-> m.cx, m |-> Sgl(TArray(m.r))]
    [] T.t = "Tuple" ->
         LET rs == Refs(E, T.a, cx) IN [cx |-> rs.cx, m |-> Sgl(TArray(Inline(Model(None, OneOf(rs.rs)))))]
    [] T.t \in Maps ->
         LET m == Mention(E, T.a[1], cx, FALSE, NoParams) IN [cx |-> m.cx, m |-> Sgl(TObject(EmptyFn, Some(m.r), <<>>))]
    [] T.t = "decl" -> GetDecl(E, Instance(E[T.n], T.a), cx)
    [] OTHER -> [cx |-> cx, m |-> PrimModel(T.t)]

FieldRef(E, f, cx, inl, p) ==
  IF IsSome(f.ety)
  THEN [cx |-> cx, r |-> IF The(f.ety) = "any" THEN AnyRef ELSE Inline(ExplicitModel(f.nullable, p, The(f.ety)))]
  ELSE Mention(E, f.ty, cx, inl, p)

FieldRefs(E, fs, cx, inl) ==
  IF Len(fs) = 0 THEN [cx |-> cx, rs |-> <<>>]
  ELSE LET m == FieldRef(E, fs[1], cx, inl \/ fs[1].inline, FieldParams(fs[1]))
           rest == FieldRefs(E, Tail(fs), m.cx, inl)
       IN [cx |-> rest.cx, rs |-> <<m.r>> \o rest.rs]

\* Unskipped fields as an object (td) or as an array (td)
ObjectOf(E, fields, rule, cx, inl) ==
  LET fs == Kept(fields)
      rs == FieldRefs(E, fs, cx, inl)
      names == [i \in 1..Len(fs) |-> FieldName(fs[i], rule)]
      Last(n) == CHOOSE i \in 1..Len(fs) : names[i] = n /\ \A k \in (i + 1)..Len(fs) : names[k] # n
      req == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : ~OptionalField(fs[i]))
  IN [cx |-> rs.cx,
      td |-> TObject([n \in SeqRange(names) |-> rs.rs[Last(n)]], None, [i \in 1..Len(req) |-> names[req[i]]])]

ArrayOfFields(E, fields, cx, inl) ==
  LET rs == FieldRefs(E, Kept(fields), cx, inl) IN
  [cx |-> rs.cx, td |-> TArray(Inline(Model(None, OneOf(rs.rs))))]

\* What a variant with content looks like without its tag
Content(E, v, cx) ==
  CASE v.style = "newtype" ->
         FieldRef(E, v.fields[1], cx, v.inline \/ v.fields[1].inline, ParamsOr(FieldParams(v.fields[1]), VariantParams(v)))
    [] v.style = "tuple" ->
         LET o == ArrayOfFields(E, v.fields, cx, v.inline) IN [cx |-> o.cx, r |-> Inline(Model(v.desc, Single(FALSE, o.td)))]
    [] v.style = "struct" ->
         LET o == ObjectOf(E, v.fields, v.rename_all, cx, v.inline) IN [cx |-> o.cx, r |-> Inline(Model(v.desc, Single(FALSE, o.td)))]

Contents(E, vs, cx) ==
  IF Len(vs) = 0 THEN [cx |-> cx, rs |-> <<>>]
  ELSE LET m == Content(E, vs[1], cx)
           rest == Contents(E, Tail(vs), m.cx)
       IN [cx |-> rest.cx, rs |-> <<m.r>> \o rest.rs]

EnumString(names, d) == Model(d, Single(FALSE, TString(Some(names), None, Some(names[1]))))
TagModel(type, names) == EnumString(names, Some(type \o " type variant"))
TagObject(type, tag, name) == TObject(tag :> Inline(TagModel(type, <<name>>)), None, <<tag>>)

\* Alternatives of an internally tagged enum: the content's own object with the tag added
InternalModel(E, v, type, tag, name, cx) ==
  LET base ==
        CASE v.style = "unit" -> [cx |-> cx, m |-> Model(v.desc, Single(FALSE, TObject(EmptyFn, None, <<>>)))]
          [] v.style = "newtype" ->
               LET g == GetSchema(E, v.fields[1].ty, cx) IN
               [cx |-> g.cx, m |-> ApplyParams(g.m, ParamsOr(FieldParams(v.fields[1]), VariantParams(v)))]
          [] v.style = "struct" ->
               LET o == ObjectOf(E, v.fields, v.rename_all, cx, v.inline) IN [cx |-> o.cx, m |-> Model(v.desc, Single(FALSE, o.td))]
      tagged == TryMerge(base.m, Model(None, Single(FALSE, TagObject(type, tag, name))))
  IN [cx |-> base.cx, r |-> Inline(tagged.m)]

Alts(E, d, cx) ==
  IF Len(d.variants) = 0 THEN [cx |-> cx, rs |-> <<>>]
  ELSE LET v == d.variants[1]
           m == InternalModel(E, v, d.name, The(d.c.tag), VariantName(v, d.c.rename_all), cx)
           rest == Alts(E, [d EXCEPT !.variants = Tail(d.variants)], m.cx)
       IN [cx |-> rest.cx, rs |-> <<m.r>> \o rest.rs]

\* External: a unit variant stands for its own name
ExternalUnit(v, rule) == Inline(EnumString(<<VariantName(v, rule)>>, v.desc))
RECURSIVE ExternalAlts(_, _, _, _)
ExternalAlts(E, vs, rule, cx) ==
  IF Len(vs) = 0 THEN [cx |-> cx, rs |-> <<>>]
  ELSE LET m == IF vs[1].style = "unit" THEN [cx |-> cx, r |-> ExternalUnit(vs[1], rule)] ELSE Content(E, vs[1], cx)
           rest == ExternalAlts(E, Tail(vs), rule, m.cx)
       IN [cx |-> rest.cx, rs |-> <<m.r>> \o rest.rs]

\* Value of a repr enum's variant: its explicit discriminant (given evaluated, as text) or its place (discriminants are all
\* explicit or all implicit)
ReprValue(vs, i) == IF IsSome(vs[i].disc) THEN The(vs[i].disc).v ELSE ToString(i - 1)

GetEnum(E, d, cx) ==
  LET vs == Kept(d.variants)
      rule == d.c.rename_all
      names == [i \in 1..Len(vs) |-> VariantName(vs[i], rule)]
      desc == d.c.desc
  IN
  CASE EnumKind(d) = "names" ->
         [cx |-> cx, m |-> Model(desc, Single(d.c.nullable, TString(Some(names), d.c.format, OrElse(ExampleOf(d.c.example), Some(names[1])))))]
    [] EnumKind(d) = "repr" ->
         LET idx == SelectSeq([i \in 1..Len(d.variants) |-> i], LAMBDA i : ~SerSkipped(d.variants[i])) IN
         [cx |-> cx,
          m |-> Model(desc, OneOf([i \in 1..Len(idx) |->
                  Inline(Model(Some(VariantName(d.variants[idx[i]], rule) \o " variant"),
                               Single(FALSE, TSimple("integer", None, Some(ReprValue(d.variants, idx[i]))))))]))]
    [] EnumKind(d) = "untagged" ->
         LET cs == Contents(E, vs, cx) IN [cx |-> cs.cx, m |-> Model(desc, OneOf(cs.rs))]
    [] EnumKind(d) = "internal" ->
         LET as == Alts(E, [d EXCEPT !.variants = vs], cx) IN [cx |-> as.cx, m |-> Model(desc, OneOf(as.rs))]
    [] EnumKind(d) = "external" ->
         LET as == ExternalAlts(E, vs, rule, cx) IN
         [cx |-> as.cx,
          m |-> Model(desc, Single(d.c.nullable, TObject(EmptyFn, Some(Inline(Model(desc, OneOf(as.rs)))), <<>>)))]
    [] EnumKind(d) = "adjacent" ->
         LET cs == Contents(E, SelectSeq(vs, LAMBDA v : v.style # "unit"), cx)
             tag == The(d.c.tag)
             content == The(d.c.content)
             hasContent == Len(cs.rs) > 0
         IN [cx |-> cs.cx,
             m |-> Model(desc, Single(d.c.nullable,
                     TObject((tag :> Inline(TagModel(d.name, names)))
                             @@ (IF hasContent THEN content :> Inline(Model(desc, OneOf(cs.rs))) ELSE EmptyFn),
                             None,
                             IF hasContent /\ Len(cs.rs) = Len(vs) THEN <<tag, content>> ELSE <<tag>>)))]

GetDecl(E, d, cx) ==
  IF ~IsNewtype(d) /\ IsSome(d.c.ty) THEN [cx |-> cx, m |-> ExplicitModel(d.c.nullable, ContainerParams(d.c), The(d.c.ty))]
  ELSE IF d.kind = "enum" THEN GetEnum(E, d, cx)
  ELSE IF IsNewtype(d) THEN
    LET f == InnerField(d)
        p == ParamsOr(FieldParams(f), ContainerParams(d.c))
        ety == OrElse(d.c.ty, f.ety)
    IN IF IsSome(ety)
       THEN [cx |-> cx, m |-> ExplicitModel(d.c.nullable \/ f.nullable, p, The(ety))]
       ELSE IF f.inline THEN LET s == SelectRef(E, f.ty, cx, TRUE, p) IN [cx |-> s.cx, m |-> s.r.m]
       ELSE LET g == GetSchema(E, f.ty, cx) IN [cx |-> g.cx, m |-> ApplyParams(g.m, p)]
  ELSE IF d.kind = "struct" THEN
    LET o == ObjectOf(E, d.fields, d.c.rename_all, cx, FALSE)
        m == Model(d.c.desc, Single(d.c.nullable, o.td))
    IN [cx |-> o.cx,
        m |-> IF IsNone(d.c.tag) THEN m ELSE TryMerge(m, Model(None, Single(FALSE, TagObject(d.name, The(d.c.tag), ContainerName(d))))).m]
  ELSE
    LET o == ArrayOfFields(E, d.fields, cx, FALSE) IN [cx |-> o.cx, m |-> Model(d.c.desc, Single(d.c.nullable, o.td))]

EmptyCx == EmptyFn
EnvOf(decls) == [n \in {decls[i].name : i \in 1..Len(decls)} |-> decls[CHOOSE i \in 1..Len(decls) : decls[i].name = n]]

=============================================================================
