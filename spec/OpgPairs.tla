------------------------------ MODULE OpgPairs -------------------------------
(***************************************************************************)
(* pairs: on every shape of declaration (kind of container, and for enums  *)
(* style of the variant), every two things that may be said about it, its  *)
(* variant and its field at once.  An aspect that is right alone and wrong *)
(* only next to another one shows here.  (triples: every three.)  Several  *)
(* declarations make up one case, each is mentioned by itself.             *)
(***************************************************************************)
EXTENDS OpgCases, SequencesExt

PairInner == Inner
Shape(k, s) == [k |-> k, s |-> s]
PairShapes ==
  {Shape(k, "struct") : k \in {"struct", "transparent"}} \cup {Shape("tuple", "tuple"), Shape("newtype", "newtype"), Shape("names", "unit"), Shape("repr", "unit")}
  \cup {Shape(k, s) : k \in {"external", "adjacent"}, s \in {"unit", "newtype", "tuple", "struct"}}
  \cup {Shape("internal", s) : s \in {"unit", "newtype", "struct"}} \cup {Shape("untagged", s) : s \in {"newtype", "struct"}}
PairEnums == {"names", "repr", "external", "adjacent", "internal", "untagged"}

(***************************************************************************)
(* What may be said: <<aspect, how>>; two of the same aspect exclude each  *)
(* other.                                                                  *)
(***************************************************************************)
OfContainer(sh) ==
  {<<"c-rename", "eq">>, <<"c-rename", "both">>, <<"c-desc", "">>, <<"c-inline", "">>}
  \cup (IF sh.k \notin {"tuple", "newtype", "transparent"} THEN {<<"c-rule", "eq">>, <<"c-rule", "ser">>} ELSE {})
  \cup (IF sh.k \in PairEnums THEN {<<"c-fields", "">>} ELSE {})
  \cup (IF sh.k \in {"struct", "tuple", "names", "external", "adjacent"} THEN {<<"c-nullable", "">>} ELSE {})
  \cup (IF sh.k \in {"newtype", "transparent", "names"} THEN {<<"c-format", "">>, <<"c-example", "">>} ELSE {})
  \cup (IF sh.k \notin {"newtype", "transparent", "repr"} THEN {<<"c-type", "">>} ELSE {})
  \cup (IF sh.k = "struct" THEN {<<"c-tag", "">>} ELSE {})
OfVariant(sh) ==
  IF sh.k \notin PairEnums THEN {}
  ELSE {<<"v-rename", "eq">>, <<"v-rename", "ser">>, <<"v-rename", "both">>, <<"v-rename", "de">>, <<"v-skip", "skip">>, <<"v-skip", "skip_serializing">>, <<"v-skip", "skip_deserializing">>,
        <<"v-desc", "">>, <<"v-first", "">>, <<"v-only", "">>}
       \cup (IF sh.s # "unit" THEN {<<"v-inline", "">>} ELSE {})
       \cup (IF sh.s = "struct" THEN {<<"v-rule", "">>} ELSE {})
       \cup (IF sh.s = "newtype" THEN {<<"v-format", "">>, <<"v-example", "">>} ELSE {})
       \cup (IF sh.s = "newtype" /\ sh.k # "internal" THEN {<<"v-type", "">>} ELSE {})
OfField(sh) ==
  IF sh.s = "unit" THEN {}
  ELSE {<<"f-desc", "">>, <<"f-format", "">>, <<"f-example", "lit">>, <<"f-example", "with">>, <<"f-inline", "">>}
       \cup (IF sh.s = "struct" /\ sh.k # "transparent"
             THEN {<<"f-rename", "eq">>, <<"f-rename", "ser">>, <<"f-rename", "both">>, <<"f-rename", "de">>, <<"f-skip", "skip">>, <<"f-skip", "skip_serializing">>, <<"f-skip", "skip_deserializing">>,
                   <<"f-skipif", "">>, <<"f-optional", "">>} ELSE {})
       \cup (IF sh.s = "tuple" THEN {<<"f-skip", "skip">>, <<"f-skip", "skip_serializing">>} ELSE {})
       \cup (IF sh.s = "newtype" /\ sh.k \in {"external", "adjacent", "internal"} THEN {<<"f-skip", "skip">>} ELSE {})
       \cup (IF sh.k = "internal" /\ sh.s = "newtype" THEN {<<"f-of", "map">>}
             ELSE {<<"f-nullable", "">>, <<"f-type", "">>, <<"f-of", "option">>, <<"f-of", "decl">>, <<"f-of", "vec">>})
Aspects(sh) == OfContainer(sh) \cup OfVariant(sh) \cup OfField(sh)

PairExcluded ==  \* contradictions, and overrides of what is not there
  {{"f-skipif", "f-of"}, {"f-skip", "f-skipif"}, {"f-nullable", "f-of"}, {"f-nullable", "f-skipif"}, {"v-skip", "v-only"}, {"v-first", "v-only"}}
PairOk(sh, p) == /\ \A x, y \in p : x # y => x[1] # y[1] /\ {x[1], y[1]} \notin PairExcluded
                 /\ sh.k \in {"newtype", "transparent"} => ~({"c-example", "f-type"} \subseteq {x[1] : x \in p})

PairBlank(sh) ==
  LET f == IF sh.s = "struct" THEN Fld("field_one", I32) ELSE Pos(IF sh.k = "internal" THEN Decl("Inner") ELSE I32)
      g == IF sh.s = "struct" THEN Fld("otherField", Str) ELSE Pos(Str)
      v == CASE sh.s = "unit" -> UnitV("TheVariant") [] sh.s = "newtype" -> Var("TheVariant", "newtype", <<f>>) [] OTHER -> Var("TheVariant", sh.s, <<f, g>>)
      other == CASE sh.k \in {"names", "repr"} -> UnitV("Other") [] OTHER -> StrV("Other", <<Fld("o_f", Boolean)>>)
  IN CASE sh.k = "struct" -> Struct("R", <<f, g>>)
       [] sh.k = "transparent" -> [Struct("R", <<f>>) EXCEPT !.c.transparent = TRUE]
       [] sh.k = "tuple" -> Tuple("R", <<f, g>>)
       [] sh.k = "newtype" -> Newtype("R", f)
       [] OTHER -> Enum("R", EnumAttrs(sh.k), <<other, v>>)

AtContainer(c, a, n) ==
  CASE a[1] = "c-rename" -> [c EXCEPT !.rename = RenTo(a[2], "Named" \o n)]
    [] a[1] = "c-desc" -> [c EXCEPT !.desc = Some("of container")]
    [] a[1] = "c-inline" -> [c EXCEPT !.inline = TRUE]
    [] a[1] = "c-rule" -> [c EXCEPT !.rename_all = "SCREAMING-KEBAB-CASE", !.ra_form = a[2]]
    [] a[1] = "c-fields" -> [c EXCEPT !.raf = "PascalCase"]
    [] a[1] = "c-nullable" -> [c EXCEPT !.nullable = TRUE]
    [] a[1] = "c-format" -> [c EXCEPT !.format = Some("c-format")]
    [] a[1] = "c-example" -> [c EXCEPT !.example = Lit("c example")]
    [] a[1] = "c-type" -> [c EXCEPT !.ty = Some("string")]
    [] a[1] = "c-tag" -> [c EXCEPT !.tag = Some("the-tag")]
    [] OTHER -> c
AtVariant(v, a) ==
  CASE a[1] = "v-rename" -> [v EXCEPT !.rename = RenTo(a[2], "Variant Name")]
    [] a[1] = "v-skip" -> [v EXCEPT !.skip = a[2]]
    [] a[1] = "v-desc" -> [v EXCEPT !.desc = Some("of variant")]
    [] a[1] = "v-inline" -> [v EXCEPT !.inline = TRUE]
    [] a[1] = "v-rule" -> [v EXCEPT !.rename_all = "UPPERCASE"]
    [] a[1] = "v-format" -> [v EXCEPT !.format = Some("v-format")]
    [] a[1] = "v-example" -> [v EXCEPT !.example = Lit("v example")]
    [] a[1] = "v-type" -> [v EXCEPT !.ety = Some("number")]
    [] OTHER -> v
AtField(f, a) ==
  CASE a[1] = "f-rename" -> [f EXCEPT !.rename = RenTo(a[2], "Field Name")]
    [] a[1] = "f-skip" -> [f EXCEPT !.skip = a[2]]
    [] a[1] = "f-skipif" -> [f EXCEPT !.skipif = TRUE, !.ty = OptOf(f.ty)]
    [] a[1] = "f-optional" -> [f EXCEPT !.optional = TRUE]
    [] a[1] = "f-desc" -> [f EXCEPT !.desc = Some("of field")]
    [] a[1] = "f-format" -> [f EXCEPT !.format = Some("f-format")]
    [] a[1] = "f-example" -> [f EXCEPT !.example = IF a[2] = "lit" THEN Lit("f example") ELSE With("6 * 7", "42")]
    [] a[1] = "f-inline" -> [f EXCEPT !.inline = TRUE]
    [] a[1] = "f-nullable" -> [f EXCEPT !.nullable = TRUE]
    [] a[1] = "f-type" -> [f EXCEPT !.ety = Some("string")]
    [] a[1] = "f-of" -> [f EXCEPT !.ty = CASE a[2] = "option" -> OptOf(f.ty) [] a[2] = "decl" -> Decl("Inner") [] a[2] = "vec" -> VecOf(Decl("Inner")) [] OTHER -> MapOf(Str)]
    [] OTHER -> f
At(d, a) ==
  LET c == AtContainer(d.c, a, d.name)
      V(v) == LET w == AtVariant(v, a) IN IF w.fields = <<>> THEN w ELSE [w EXCEPT !.fields[1] = AtField(w.fields[1], a)]
      vs == IF d.kind # "enum" THEN <<>>
            ELSE LET me == V(d.variants[Len(d.variants)]) IN
                 CASE a[1] = "v-only" -> <<me>>
                   [] OTHER -> [d.variants EXCEPT ![Len(d.variants)] = me]
  IN [d EXCEPT !.c = c, !.variants = vs, !.fields = IF d.fields = <<>> THEN <<>> ELSE [d.fields EXCEPT ![1] = AtField(d.fields[1], a)]]
Turned(d, p) == IF \E a \in p : a[1] = "v-first" THEN [d EXCEPT !.variants = <<d.variants[2], d.variants[1]>>] ELSE d
RECURSIVE AtAll(_, _)
AtAll(d, p) == IF p = {} THEN d ELSE LET a == CHOOSE x \in p : TRUE IN AtAll(At(d, a), p \ {a})
PairDecl(sh, p, n) == Turned(AtAll([PairBlank(sh) EXCEPT !.name = n], p), p)

PairsOf(sh) == {p \in {{x, y} : x, y \in Aspects(sh)} : PairOk(sh, p)}
TriplesOf(sh) == {p \in {q \cup {z} : q \in PairsOf(sh), z \in Aspects(sh)} : Cardinality(p) = 3 /\ PairOk(sh, p)}
PairChunk == 12
Packed(fam, Sets(_), shapes) ==
  UNION {LET ps == SetToSeq(Sets(sh)) IN
         {LET ds == [i \in 1..(IF k + PairChunk > Len(ps) THEN Len(ps) - k ELSE PairChunk) |-> PairDecl(sh, ps[k + i], "R" \o ToString(i))]
          IN Case(fam, <<Inner>> \o ds, [i \in 1..Len(ds) |-> Root(Decl("R" \o ToString(i)))]) :
            k \in {PairChunk * j : j \in 0..((Len(ps) - 1) \div PairChunk)}} : sh \in shapes}
FamPairs(any) == Packed("pairs", PairsOf, PairShapes)
\* three at once, for the thorough checks
FamTriples(any) == Packed("triples", TriplesOf, PairShapes)
=============================================================================
