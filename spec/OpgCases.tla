------------------------------ MODULE OpgCases -------------------------------
(***************************************************************************)
(* Programs to describe: constructors for declarations and the systematic  *)
(* families of small ones.  A case is                                      *)
(*   [fam, decls: Seq(Decl), roots: Seq([ty, inline, p])]                  *)
(* whose roots are mentioned one after another in one registry.            *)
(***************************************************************************)
EXTENDS OpgWire

NoAttrs == [rename |-> None, rename_all |-> "none", ra_form |-> "eq", raf |-> "none", raf_form |-> "eq", tag |-> None, content |-> None, untagged |-> FALSE,
            transparent |-> FALSE, repr |-> None, desc |-> None, format |-> None, example |-> None,
            inline |-> FALSE, nullable |-> FALSE, ty |-> None]
Fld(name, ty) == [name |-> name, ty |-> ty, rename |-> None, skip |-> "", skipif |-> FALSE, optional |-> FALSE,
                  desc |-> None, format |-> None, example |-> None, inline |-> FALSE, nullable |-> FALSE, ety |-> None]
Pos(ty) == Fld("", ty)
Var(name, style, fields) == [name |-> name, style |-> style, fields |-> fields, rename |-> None, rename_all |-> "none",
                             ra_form |-> "eq", skip |-> "", desc |-> None, format |-> None, example |-> None,
                             inline |-> FALSE, disc |-> None, ety |-> None]
UnitV(name) == Var(name, "unit", <<>>)
NewV(name, ty) == Var(name, "newtype", <<Pos(ty)>>)
TupV(name, tys) == Var(name, "tuple", [i \in 1..Len(tys) |-> Pos(tys[i])])
StrV(name, fields) == Var(name, "struct", fields)

DeclX(name, kind, c, fields, variants) ==
  [name |-> name, params |-> <<>>, lt |-> FALSE, kind |-> kind, c |-> c, fields |-> fields, variants |-> variants]
Struct(name, fields) == DeclX(name, "struct", NoAttrs, fields, <<>>)
Tuple(name, fields) == DeclX(name, "tuple", NoAttrs, fields, <<>>)
Newtype(name, field) == DeclX(name, "newtype", NoAttrs, <<field>>, <<>>)
Enum(name, c, variants) == DeclX(name, "enum", c, <<>>, variants)

Lit(v) == Some([k |-> "lit", v |-> v, src |-> v])
With(src, v) == Some([k |-> "with", v |-> v, src |-> src])
RenTo(form, to) == Some([form |-> form, to |-> to])

Root(ty) == [ty |-> ty, inline |-> FALSE, p |-> NoParams]
Roots(tys) == [i \in 1..Len(tys) |-> Root(tys[i])]
Case(fam, decls, roots) == [fam |-> fam, decls |-> decls, roots |-> roots]

I32 == Prim("i32")
Str == Prim("String")
Boolean == Prim("bool")
OptOf(x) == Ty("Option", <<x>>)
VecOf(x) == Ty("Vec", <<x>>)
BoxOf(x) == Ty("Box", <<x>>)
MapOf(x) == Ty("HashMap", <<x>>)
TupleOf(xs) == Ty("Tuple", xs)

TagInternal == [NoAttrs EXCEPT !.tag = Some("kind")]
TagAdjacent == [NoAttrs EXCEPT !.tag = Some("kind"), !.content = Some("body")]
TagUntagged == [NoAttrs EXCEPT !.untagged = TRUE]
ReprAttr == [NoAttrs EXCEPT !.repr = Some("u8")]
EnumAttrs(tagging) == CASE tagging = "internal" -> TagInternal [] tagging = "adjacent" -> TagAdjacent
                        [] tagging = "untagged" -> TagUntagged [] tagging = "repr" -> ReprAttr [] OTHER -> NoAttrs

(***************************************************************************)
(* names: every renaming rule over awkward identifiers, in every place     *)
(***************************************************************************)
AllRules == Rules \cup {"none"}
FieldNames == <<"a", "very_tasty", "z42", "a_b_c", "x1_y2", "r#type", "_lead", "tail_", "dbl__under", "mixedCase", "UPPER_ish", "año_ñu", "aÉb">>
VarNames == <<"A", "VeryTasty", "Z42", "ABTest", "OutcomeX1", "With_Under", "R2D2", "PetitÉté", "AΩЖb", "r#type", "lower", "A_1b">>

WithRule(c, rule, form) == [c EXCEPT !.rename_all = IF form = "de" THEN "none" ELSE rule, !.ra_form = form]
\* In a `rename_all(deserialize = ..)` the rule does not reach the serialized names: ra_rule is what is written
RaCase(rule, form) == [rule |-> rule, form |-> form]
RuleForms == {RaCase(r, f) : r \in AllRules \ {"none"}, f \in {"eq", "ser", "both"}} \cup {RaCase("none", "eq"), RaCase("UPPERCASE", "de")}

NamesStruct(rf) ==
  LET fs == [i \in 1..Len(FieldNames) |-> Fld(FieldNames[i], IF i % 2 = 0 THEN I32 ELSE Str)]
            \o <<[Fld("ren_eq", I32) EXCEPT !.rename = RenTo("eq", "Eq Name")],
                 [Fld("ren_ser", I32) EXCEPT !.rename = RenTo("ser", "ser-name")],
                 [Fld("ren_de", I32) EXCEPT !.rename = RenTo("de", "DE")],
                 [Fld("ren_both", I32) EXCEPT !.rename = RenTo("both", "bothName")]>>
  IN Case("names", <<[Struct("Root", fs) EXCEPT !.c = WithRule(NoAttrs, rf.rule, rf.form)]>>, Roots(<<Decl("Root")>>))

RenamedVars(mk(_)) ==
  <<[mk("RenEq") EXCEPT !.rename = RenTo("eq", "Eq Variant")],
    [mk("RenSer") EXCEPT !.rename = RenTo("ser", "ser-variant")],
    [mk("RenDe") EXCEPT !.rename = RenTo("de", "DE")],
    [mk("RenBoth") EXCEPT !.rename = RenTo("both", "bothVariant")]>>

NamesEnum(tagging, rf) ==
  LET mk(n) == CASE tagging \in {"names", "repr"} -> UnitV(n)
                 [] tagging = "internal" -> StrV(n, <<Fld("in_field", I32)>>)
                 [] OTHER -> NewV(n, I32)
      vs == [i \in 1..Len(VarNames) |-> mk(VarNames[i])] \o RenamedVars(mk)
  IN Case("names", <<Enum("Root", WithRule(EnumAttrs(tagging), rf.rule, rf.form), vs)>>, Roots(<<Decl("Root")>>))

\* The container's rule renames variants, the variant's own rule its fields
NamesVariant(tagging, rule, vrf) ==
  LET fs == [i \in 1..Len(FieldNames) |-> Fld(FieldNames[i], I32)] \o <<[Fld("ren_ser", I32) EXCEPT !.rename = RenTo("ser", "ser-name")]>>
      v == [StrV("FirstOne", fs) EXCEPT !.rename_all = IF vrf.form = "de" THEN "none" ELSE vrf.rule, !.ra_form = vrf.form]
  IN Case("names", <<Enum("Root", WithRule(EnumAttrs(tagging), rule, "eq"), <<v, StrV("SecondOne", <<Fld("some_field", Str)>>)>>)>>,
          Roots(<<Decl("Root")>>))

\* The container's rule for the fields of its variants: all of them but those of variants with a rule of their own
NamesFields(tagging, rule, rf, vform) ==
  LET fs == [i \in 1..Len(FieldNames) |-> Fld(FieldNames[i], I32)] \o <<[Fld("ren_ser", I32) EXCEPT !.rename = RenTo("ser", "ser-name")], [Fld("ren_de", I32) EXCEPT !.rename = RenTo("de", "DE")]>>
      own == [StrV("SecondOne", <<Fld("some_field", Str), Fld("r#type", Str)>>) EXCEPT !.rename_all = IF vform = "de" THEN "none" ELSE "SCREAMING-KEBAB-CASE", !.ra_form = vform]
      c == [WithRule(EnumAttrs(tagging), rule, "eq") EXCEPT !.raf = IF rf.form = "de" THEN "none" ELSE rf.rule, !.raf_form = rf.form]
  IN Case("names", <<Enum("Root", c, <<StrV("FirstOne", fs), own>> \o (IF tagging = "internal" THEN <<>> ELSE <<NewV("ThirdOne", I32)>>))>>, Roots(<<Decl("Root")>>))

\* A tagged struct: the tag's name and its value are what is written, whatever the rules for its fields
TagNames == {"kind", "Kind Of", "type", "some_tag", "$k"}
NamesTagged(rf, tag, rn, name) ==
  Case("names", <<[Struct(name, <<Fld("in_field", I32), Fld("r#type", OptOf(Str))>>) EXCEPT !.c = [WithRule(NoAttrs, rf.rule, rf.form) EXCEPT !.tag = Some(tag), !.rename = rn]]>>,
       Roots(<<Decl(name)>>))

FamNames(any) ==
  {NamesStruct(rf) : rf \in RuleForms}
  \cup {NamesEnum(t, rf) : t \in {"names", "external", "internal", "adjacent", "repr"}, rf \in RuleForms}
  \cup {NamesVariant(t, r, vrf) : t \in {"external", "internal", "adjacent", "untagged"},
                                  r \in {"none", "camelCase", "SCREAMING_SNAKE_CASE"}, vrf \in {x \in RuleForms : x.form \in {"eq", "de"}}}
  \cup {NamesFields(t, r, rf, vf) : t \in {"external", "internal", "adjacent", "untagged"}, r \in {"none"}, rf \in RuleForms, vf \in {"eq", "de"}}
  \cup {NamesFields(t, r, rf, "ser") : t \in {"external", "internal"}, r \in {"camelCase"}, rf \in {x \in RuleForms : x.form = "eq"}}
  \cup {NamesTagged(rf, tag, rn, n) : rf \in {x \in RuleForms : x.form \in {"eq", "de"}}, tag \in TagNames \ {"type"}, rn \in {None} \cup {RenTo(f, "Other Name") : f \in {"eq", "ser", "de", "both"}}, n \in {"Root", "BigRoot_2"}}
  \cup {NamesVariant("external", r, vrf) : r \in {"kebab-case"}, vrf \in {x \in RuleForms : x.form \in {"ser", "both"}}}

(***************************************************************************)
(* required: presence of fields                                            *)
(***************************************************************************)
SkipKinds == {"", "skip", "skip_serializing", "skip_deserializing"}
PresenceTypes == {OptOf(I32), VecOf(Str), Str, I32}
CanSkipIf(ty) == ty.t \in {"Option", "Vec", "String"}
Presence == {[Fld("target_field", ty) EXCEPT !.skip = s, !.skipif = si, !.optional = o] :
               ty \in PresenceTypes, s \in SkipKinds, si \in BOOLEAN, o \in BOOLEAN}
PresenceOk(f) == (f.skipif => CanSkipIf(f.ty)) /\ (f.skip = "skip" => ~f.skipif)
\* the flags about presence are independent of everything else that can be said about a field
Said == {[x EXCEPT !.nullable = n, !.inline = i, !.desc = d] :
           x \in {y \in Presence : y.ty.t \in {"Option", "i32"} /\ y.skip \in {"", "skip_deserializing"}},
           n \in BOOLEAN, i \in BOOLEAN, d \in {None, Some("said")}}
Neighbours(f) == <<Fld("first", I32), f, Fld("last", OptOf(Str))>>

FamRequired(any) ==
  {Case("required", <<Struct("Root", Neighbours(f))>>, Roots(<<Decl("Root")>>)) : f \in {x \in Presence \cup Said : PresenceOk(x)}}
  \cup {Case("required", <<[Struct("Root", Neighbours(f)) EXCEPT !.c.rename_all = "camelCase"]>>, Roots(<<Decl("Root")>>)) :
          f \in {x \in Presence : PresenceOk(x) /\ x.ty.t = "Option"}}
  \cup {Case("required", <<Enum("Root", EnumAttrs(t), <<StrV("Var", Neighbours(f)), StrV("Other", <<Fld("o", I32)>>)>>)>>, Roots(<<Decl("Root")>>)) :
          t \in {"external", "internal", "adjacent", "untagged"},
          f \in {x \in Presence : PresenceOk(x) /\ x.ty.t \in {"Option", "i32"}}}
  \cup {Case("required", <<Tuple("Root", <<Pos(Str), [f EXCEPT !.name = ""], Pos(I32)>>)>>, Roots(<<Decl("Root")>>)) :
          f \in {x \in Presence : PresenceOk(x) /\ x.ty.t = "i32" /\ ~x.optional}}
  \cup {Case("required", <<Enum("Root", EnumAttrs(t), <<Var("Var", "tuple", <<Pos(Str), [f EXCEPT !.name = ""], Pos(I32)>>)>>)>>, Roots(<<Decl("Root")>>)) :
          t \in {"external", "adjacent"},
          f \in {x \in Presence : PresenceOk(x) /\ x.ty.t = "i32" /\ ~x.optional}}

(***************************************************************************)
(* enums: every tagging over every short sequence of variant styles        *)
(***************************************************************************)
Styles(tagging) ==
  CASE tagging \in {"names", "repr"} -> {"unit"}
    [] tagging = "untagged" -> {"newtype", "struct"}
    [] tagging = "internal" -> {"unit", "newtype", "struct"}
    [] OTHER -> {"unit", "newtype", "tuple", "struct"}

Inner == Struct("Inner", <<Fld("x", I32), [Fld("y", OptOf(Str)) EXCEPT !.skipif = TRUE]>>)

MkVar(tagging, style, i) ==
  LET n == <<"Alpha", "BetaTwo", "Gamma", "Delta">>[i] IN
  CASE style = "unit" -> UnitV(n)
    [] style = "newtype" -> NewV(n, IF tagging = "internal" THEN (IF i = 2 THEN MapOf(Str) ELSE Decl("Inner"))
                                    ELSE (IF i = 1 THEN Decl("Inner") ELSE IF i = 2 THEN I32 ELSE VecOf(Decl("Inner"))))
    [] style = "tuple" -> TupV(n, IF i = 1 THEN <<I32, Str>> ELSE <<Decl("Inner"), OptOf(I32), Boolean>>)
    [] style = "struct" -> StrV(n, <<Fld("first_f", IF i = 1 THEN I32 ELSE Decl("Inner")), [Fld("opt_f", OptOf(I32)) EXCEPT !.skipif = (i # 2)]>>)

EnumCase(tagging, styles, skipAt, skipKind, rule) ==
  LET vs == [i \in 1..Len(styles) |->
               IF i = skipAt THEN [MkVar(tagging, styles[i], i) EXCEPT !.skip = skipKind] ELSE MkVar(tagging, styles[i], i)]
  IN Case("enums", <<Inner, Enum("Root", WithRule(EnumAttrs(tagging), rule, "eq"), vs)>>, Roots(<<Decl("Root")>>))

\* Variants and types with nothing in them, or with nothing left
Hidden(ty) == [Pos(ty) EXCEPT !.skip = "skip"]
EmptyVariants(tagging) ==
  CASE tagging = "internal" -> {Var("Empty", "newtype", <<Hidden(Decl("Inner"))>>), StrV("Empty", <<>>), StrV("Empty", <<[Fld("h", I32) EXCEPT !.skip = "skip"]>>)}
    [] tagging = "untagged" -> {StrV("Empty", <<>>), StrV("Empty", <<[Fld("h", I32) EXCEPT !.skip = "skip"]>>)}
    [] OTHER -> {Var("Empty", "newtype", <<Hidden(I32)>>), Var("Empty", "newtype", <<Hidden(Decl("Inner"))>>),
                 Var("Empty", "newtype", <<[Pos(I32) EXCEPT !.skip = "skip_serializing"]>>), TupV("Empty", <<>>), StrV("Empty", <<>>), StrV("Empty", <<[Fld("h", I32) EXCEPT !.skip = "skip"]>>),
                 Var("Empty", "tuple", <<Hidden(I32), Hidden(Str)>>), Var("Empty", "tuple", <<Hidden(I32), Pos(Str)>>)}
FamEmpty(any) ==
  UNION {{Case("enums", <<Inner, Enum("Root", EnumAttrs(t), vs)>>, Roots(<<Decl("Root")>>)) :
            vs \in UNION {{<<v>>, <<v, [NewV("Other", I32) EXCEPT !.skip = "skip"]>>, <<v, NewV("Other", Decl("Inner"))>>, <<StrV("Other", <<Fld("o", I32)>>), v>>} : v \in EmptyVariants(t)}} :
         t \in {"external", "internal", "adjacent", "untagged"}}
  \cup {Case("enums", <<d, Struct("User", <<Fld("u", Decl("Root")), Fld("v", VecOf(Decl("Root")))>>)>>, Roots(<<Decl("Root"), Decl("User")>>)) :
          d \in {Struct("Root", <<>>), Struct("Root", <<[Fld("h", I32) EXCEPT !.skip = "skip"]>>), Tuple("Root", <<>>),
                 Tuple("Root", <<Hidden(I32), Hidden(Str)>>), Tuple("Root", <<Hidden(I32), Pos(Str)>>)}}

Taggings == {"names", "repr", "external", "internal", "adjacent", "untagged"}
EnumOk(tagging, styles, skipAt) ==
  /\ tagging = "external" => \E i \in 1..Len(styles) : styles[i] # "unit"

FamEnums(any) ==
  LET E1 == {<<t, <<s>>, 0, "", "none">> : t \in Taggings, s \in {"unit", "newtype", "tuple", "struct"}}
      E2 == {<<t, <<s1, s2>>, k, "skip", "none">> : t \in Taggings, s1 \in {"unit", "newtype", "tuple", "struct"},
              s2 \in {"unit", "newtype", "tuple", "struct"}, k \in 0..2}
      E3 == {<<t, <<s1, s2, s3>>, k, "skip_serializing", "snake_case">> : t \in Taggings, s1 \in {"unit", "newtype", "tuple", "struct"},
              s2 \in {"unit", "newtype", "tuple", "struct"}, s3 \in {"unit", "newtype", "struct"}, k \in {0, 2}}
  IN FamEmpty(0) \cup {EnumCase(x[1], x[2], x[3], x[4], x[5]) :
        x \in {y \in E1 \cup E2 \cup E3 : (\A i \in 1..Len(y[2]) : y[2][i] \in Styles(y[1])) /\ EnumOk(y[1], y[2], y[3])}}

\* Repr enums with explicit discriminants
Disc(src, v) == Some([src |-> src, v |-> ToString(v)])
DiscText(src, v) == Some([src |-> src, v |-> v])
\* discriminants at the ends of each representation and ones whose value depends on it
Extremes ==
  {<<"u8", <<DiscText("!0", "255"), DiscText("b'a'", "97"), DiscText("0", "0")>>>>,
   <<"u8", <<DiscText("u8::MAX", "255"), DiscText("0b1010_1010", "170"), DiscText("0xfe", "254")>>>>,
   <<"i8", <<DiscText("i8::MIN", "-128"), DiscText("!0", "-1"), DiscText("0x7f", "127")>>>>,
   <<"u16", <<DiscText("1 << 15", "32768"), DiscText("!0", "65535"), DiscText("'a' as u16", "97")>>>>,
   <<"i16", <<DiscText("-1", "-1"), DiscText("i16::MAX", "32767"), DiscText("-(1 << 4)", "-16")>>>>,
   <<"u32", <<DiscText("1 << 31", "2147483648"), DiscText("u32::MAX", "4294967295"), DiscText("7", "7")>>>>,
   <<"i32", <<DiscText("i32::MIN", "-2147483648"), DiscText("i32::MAX", "2147483647"), DiscText("1_000", "1000")>>>>,
   <<"u64", <<DiscText("1 << 40", "1099511627776"), DiscText("!0", "18446744073709551615"), DiscText("u64::MAX - 1", "18446744073709551614")>>>>,
   <<"i64", <<DiscText("i64::MIN", "-9223372036854775808"), DiscText("-(1 << 40)", "-1099511627776"), DiscText("0x7fff_ffff_ffff_ffff", "9223372036854775807")>>>>,
   <<"usize", <<DiscText("1 << 33", "8589934592"), DiscText("2usize", "2"), DiscText("1", "1")>>>>,
   <<"isize", <<DiscText("-1", "-1"), DiscText("1isize << 33", "8589934592"), DiscText("0", "0")>>>>}
FamRepr(any) ==
  {Case("repr", <<Enum("Root", [NoAttrs EXCEPT !.repr = Some(r), !.rename_all = rule, !.desc = d],
      [i \in 1..n |-> [UnitV(<<"First", "SecondOne", "Third", "LastVar">>[i]) EXCEPT !.disc = IF ex THEN ds[i] ELSE None]])>>, Roots(<<Decl("Root"), OptOf(Decl("Root"))>>)) :
     r \in {"u8", "i32"}, rule \in {"none", "kebab-case"}, d \in {None, Some("Numbers")}, n \in 1..4, ex \in BOOLEAN,
     ds \in {<<Disc("5", 5), Disc("1 << 3", 8), Disc("0x10", 16), Disc("(1 + 1) * 60", 120)>>, <<Disc("4", 4), Disc("1", 1), Disc("2 + 5", 7), Disc("0", 0)>>}}
  \cup {Case("repr", <<Enum("Root", [NoAttrs EXCEPT !.repr = Some("i16")],
      <<[UnitV("Low") EXCEPT !.disc = Disc("-2", -2)], [UnitV("Mid") EXCEPT !.disc = Disc("0", 0)], [UnitV("Top") EXCEPT !.disc = Disc("300", 300)]>>)>>, Roots(<<Decl("Root")>>))}
  \cup {Case("repr", <<Enum("Root", [NoAttrs EXCEPT !.repr = Some(r), !.desc = Some("Some are skipped")],
      [i \in 1..5 |-> [UnitV(<<"First", "SecondOne", "Third", "LastVar", "Extra">>[i]) EXCEPT
                        !.skip = IF i \in sk THEN how ELSE "", !.disc = IF i \in DOMAIN ds THEN Some(ds[i]) ELSE None]])>>, Roots(<<Decl("Root"), VecOf(Decl("Root"))>>)) :
     r \in {"u8", "i64"}, how \in {"skip", "skip_serializing", "skip_deserializing"}, sk \in {{1}, {2}, {1, 2}, {2, 4}, {5}, {1, 3, 5}, {}},
     ds \in {<<>>, [i \in 1..5 |-> [src |-> <<"9", "3", "1 << 4", "20", "4">>[i], v |-> <<"9", "3", "16", "20", "4">>[i]]]}}
  \cup {Case("repr", <<Enum("Root", [NoAttrs EXCEPT !.repr = Some(x[1]), !.rename_all = rule],
      [i \in 1..n |-> [UnitV(<<"First", "SecondOne", "Third">>[i]) EXCEPT !.disc = x[2][i], !.skip = IF i = sk THEN "skip" ELSE ""]])>>, Roots(<<Decl("Root"), OptOf(Decl("Root"))>>)) :
     x \in Extremes, n \in {2, 3}, sk \in {0, 1}, rule \in {"none", "UPPERCASE"}}
  \cup {Case("repr", <<Enum("Root", [NoAttrs EXCEPT !.repr = Some(r)], [i \in 1..k |-> UnitV("V" \o ToString(i))])>>, Roots(<<Decl("Root")>>)) :
     r \in {"i8", "u16", "u32", "usize", "isize"}, k \in {1, 2, 12}}

(***************************************************************************)
(* params: overrides in every place they may be written                    *)
(***************************************************************************)
SomeStruct == Struct("Obj", <<Fld("v", I32)>>)
SomeEnum == Enum("Choice", NoAttrs, <<UnitV("One"), UnitV("Two")>>)
SomeNewtype == [Newtype("Wrapped", Pos(Str)) EXCEPT !.c.desc = Some("wrapped desc"), !.c.format = Some("wf"), !.c.example = Lit("we")]
SomeOneOf == Enum("Either", TagUntagged, <<NewV("L", I32), NewV("R", Str)>>)
SomeInlined == [Struct("Inl", <<Fld("w", Boolean)>>) EXCEPT !.c.inline = TRUE, !.c.desc = Some("always inlined")]
Targets == <<SomeStruct, SomeEnum, SomeNewtype, SomeOneOf, SomeInlined>>
ParamTypes == {I32, Str, Boolean, Prim("f64"), VecOf(I32), OptOf(Str), OptOf(Decl("Obj")), Decl("Obj"), Decl("Choice"), Decl("Wrapped"),
               Decl("Either"), Decl("Inl"), BoxOf(Decl("Obj")), BoxOf(Decl("Wrapped")), OptOf(Decl("Wrapped")), Prim("Uuid"), MapOf(Decl("Wrapped")),
               BoxOf(OptOf(Decl("Obj"))), OptOf(BoxOf(Decl("Wrapped"))), BoxOf(Decl("Inl"))}
\* sets of overrides: description, format, example, inline, nullable, explicit type
OverrideSets == {
  [d |-> TRUE, f |-> FALSE, e |-> "", i |-> FALSE, n |-> FALSE],
  [d |-> FALSE, f |-> TRUE, e |-> "", i |-> FALSE, n |-> FALSE],
  [d |-> FALSE, f |-> FALSE, e |-> "lit", i |-> FALSE, n |-> FALSE],
  [d |-> FALSE, f |-> FALSE, e |-> "with", i |-> FALSE, n |-> FALSE],
  [d |-> FALSE, f |-> FALSE, e |-> "", i |-> TRUE, n |-> FALSE],
  [d |-> FALSE, f |-> FALSE, e |-> "", i |-> FALSE, n |-> TRUE],
  [d |-> TRUE, f |-> TRUE, e |-> "lit", i |-> TRUE, n |-> TRUE],
  [d |-> TRUE, f |-> TRUE, e |-> "with", i |-> FALSE, n |-> FALSE],
  [d |-> TRUE, f |-> FALSE, e |-> "", i |-> TRUE, n |-> FALSE],
  [d |-> FALSE, f |-> FALSE, e |-> "", i |-> FALSE, n |-> FALSE]}
Override(x, o, s) ==   \* s distinguishes who wrote it
  [x EXCEPT !.desc = IF o.d THEN Some(s \o " description") ELSE None,
            !.format = IF o.f THEN Some(s \o "-format") ELSE None,
            !.example = CASE o.e = "lit" -> Lit(s \o " example") [] o.e = "with" -> With("1 + 41", "42") [] OTHER -> None,
            !.inline = o.i]
OverrideN(x, o, s) == [Override(x, o, s) EXCEPT !.nullable = o.n]

\* `nullable` and other type-level overrides of alternatives and links are ignored: not generated where a null could be meant
NullableOk(ty, o) == ~(o.n /\ ~o.i /\ (ty.t = "decl" \/ ty.t = "Box") /\ ty # Decl("Inl")) /\ ~(o.n /\ ty \in {Decl("Either"), OptOf(Decl("Obj"))})

ParamStruct(ty, o, ety) ==
  LET f == [OverrideN(Fld("over", ty), o, "field") EXCEPT !.ety = ety] IN
  Case("params", Targets \o <<[Struct("Root", <<Fld("before", ty), f, Fld("after", ty)>>) EXCEPT !.c.desc = Some("root")]>>, Roots(<<Decl("Root")>>))
ParamTuple(ty, o, ety) ==
  LET f == [OverrideN(Pos(ty), o, "field") EXCEPT !.ety = ety] IN
  Case("params", Targets \o <<Tuple("Root", <<Pos(ty), f>>)>>, Roots(<<Decl("Root")>>))
ParamNewtype(ty, of, oc) ==
  LET d == Newtype("Root", OverrideN(Pos(ty), of, "field")) IN
  Case("params", Targets \o <<[d EXCEPT !.c = OverrideN(NoAttrs, oc, "container")]>>, <<Root(Decl("Root")), Root(Decl("Wrapped"))>>)
ParamNewtypeTy(of, oc, ef, ec) ==
  LET d == Newtype("Root", [OverrideN(Pos(Str), of, "field") EXCEPT !.ety = ef]) IN
  Case("params", Targets \o <<[d EXCEPT !.c = [OverrideN(NoAttrs, oc, "container") EXCEPT !.ty = ec]]>>, Roots(<<Decl("Root")>>))
ParamVariant(tagging, ty, of, ov) ==
  LET v == [Override(NewV("Var", ty), ov, "variant") EXCEPT !.fields = <<OverrideN(Pos(ty), of, "field")>>] IN
  Case("params", Targets \o <<Enum("Root", EnumAttrs(tagging), <<v, StrV("Other", <<Fld("o", ty)>>)>>)>>, Roots(<<Decl("Root")>>))
ParamVariantTy(tagging, ty, of, ov, ef, ev) ==
  LET v == [Override(NewV("Var", ty), ov, "variant") EXCEPT !.fields = <<[OverrideN(Pos(ty), of, "field") EXCEPT !.ety = ef]>>, !.ety = ev] IN
  Case("params", Targets \o <<Enum("Root", EnumAttrs(tagging), <<v, StrV("Other", <<Fld("o", ty)>>)>>)>>, Roots(<<Decl("Root")>>))
\* an explicit type makes everything inside irrelevant
Opaque(k, ty) ==
  CASE k = "struct" -> Struct("Root", <<Fld("x", ty), [Fld("y", VecOf(ty)) EXCEPT !.desc = Some("not documented")]>>)
    [] k = "tuple" -> Tuple("Root", <<Pos(ty), Pos(I32)>>)
    [] k = "names" -> Enum("Root", EnumAttrs(k), <<UnitV("First"), UnitV("Second")>>)
    [] OTHER -> Enum("Root", EnumAttrs(k), <<NewV("First", ty), StrV("Second", <<Fld("z", ty)>>)>>)
ParamContainerTy(k, ty, oc, ec) ==
  LET d == Opaque(k, ty) IN
  Case("params", Targets \o <<[d EXCEPT !.c = [OverrideN(d.c, oc, "container") EXCEPT !.ty = ec]], Struct("User", <<Fld("u", Decl("Root")), Fld("v", VecOf(Decl("Root")))>>)>>,
       Roots(<<Decl("Root"), Decl("User")>>))
ParamNames(oc) ==
  LET d == Opaque("names", I32) IN
  Case("params", Targets \o <<[d EXCEPT !.c = OverrideN(d.c, oc, "container")], Struct("User", <<Fld("u", Decl("Root")), [Fld("v", Decl("Root")) EXCEPT !.inline = TRUE, !.example = Lit("Second")]>>)>>,
       Roots(<<Decl("Root"), Decl("User")>>))
ParamVarStruct(tagging, style, ty, of, ov, ety) ==
  LET f == [OverrideN(Fld(IF style = "struct" THEN "over" ELSE "", ty), of, "field") EXCEPT !.ety = ety]
      v == [Override(Var("Var", style, <<f, Fld(IF style = "struct" THEN "plain" ELSE "", Decl("Obj"))>>), ov, "variant") EXCEPT !.format = None, !.example = None] IN
  Case("params", Targets \o <<[Enum("Root", EnumAttrs(tagging), <<v>>) EXCEPT !.c.desc = Some("container")]>>, Roots(<<Decl("Root")>>))
ParamRoot(ty, o) ==
  Case("params", Targets, <<Root(ty), [ty |-> ty, inline |-> o.i,
     p |-> [d |-> IF o.d THEN Some("call description") ELSE None, nullable |-> IF o.n THEN Some(TRUE) ELSE None, variants |-> None,
            format |-> IF o.f THEN Some("call-format") ELSE None, example |-> IF o.e # "" THEN Some("call example") ELSE None]], Root(ty)>>)
\* ... the very first mention is the one with overrides
ParamRootFirst(ty, o) == LET c == ParamRoot(ty, o) IN [c EXCEPT !.roots = <<c.roots[2], c.roots[3]>>]
\* ... and so is the first field
ParamStructFirst(ty, o) ==
  Case("params", Targets \o <<Struct("Root", <<OverrideN(Fld("over", ty), o, "field"), Fld("after", VecOf(ty))>>)>>, Roots(<<Decl("Root")>>))

Etys == {None, Some("string"), Some("integer"), Some("number"), Some("boolean"), Some("any")}
NoOver == [d |-> FALSE, f |-> FALSE, e |-> "", i |-> FALSE, n |-> FALSE]
FullOver == [d |-> TRUE, f |-> TRUE, e |-> "lit", i |-> FALSE, n |-> FALSE]
NullOver == [NoOver EXCEPT !.n = TRUE]

FamParams(any) ==
  {ParamStruct(ty, o, None) : ty \in ParamTypes, o \in OverrideSets}
  \cup {ParamStruct(ty, o, e) : ty \in {I32, Decl("Obj")}, o \in {x \in OverrideSets : ~x.i}, e \in Etys \ {None}}
  \cup {ParamTuple(ty, o, None) : ty \in {I32, Decl("Obj"), Decl("Wrapped")}, o \in OverrideSets}
  \cup {ParamTuple(Str, o, e) : o \in {NoOver, FullOver, NullOver}, e \in Etys \ {None}}
  \cup {ParamNewtype(ty, of, oc) : ty \in {I32, Str, Boolean, Decl("Obj"), Decl("Wrapped"), VecOf(Str), Decl("Choice"), BoxOf(Decl("Wrapped"))},
          of \in {NoOver, FullOver, NullOver}, oc \in {x \in OverrideSets : x.e # "with"}}
  \cup {ParamNewtype(ty, [of EXCEPT !.i = TRUE], oc) : ty \in {Str, Decl("Wrapped"), OptOf(Decl("Obj")), BoxOf(OptOf(Decl("Wrapped"))), OptOf(BoxOf(Decl("Obj"))), VecOf(Decl("Obj"))},
          of \in {NoOver, FullOver}, oc \in {NoOver, FullOver}}
  \cup {ParamNewtype(ty, NoOver, oc) : ty \in {OptOf(Decl("Obj")), BoxOf(OptOf(Decl("Wrapped"))), OptOf(BoxOf(Decl("Obj")))}, oc \in {NoOver, FullOver}}
  \cup {ParamNewtypeTy(of, oc, ef, ec) : of \in {NoOver, FullOver, NullOver}, oc \in {NoOver, FullOver, NullOver},
          ef \in {None, Some("integer"), Some("string")}, ec \in {None, Some("number"), Some("boolean")}}
  \cup {ParamVariant(t, ty, of, ov) : t \in {"external", "adjacent", "untagged"}, ty \in {Str, Decl("Obj"), Decl("Wrapped"), OptOf(I32)},
          of \in {NoOver, FullOver, [NoOver EXCEPT !.i = TRUE]}, ov \in {NoOver, FullOver, [FullOver EXCEPT !.i = TRUE]}}
  \cup {ParamVariant("internal", Decl("Obj"), of, ov) : of \in {NoOver, FullOver}, ov \in {NoOver, FullOver}}
  \cup {ParamVarStruct(t, s, ty, of, ov, e) : t \in {"external", "adjacent"}, s \in {"tuple", "struct"}, ty \in {I32, Decl("Wrapped")},
          of \in {NoOver, FullOver, [FullOver EXCEPT !.i = TRUE]}, ov \in {NoOver, FullOver, [NoOver EXCEPT !.i = TRUE]}, e \in {None, Some("any")}}
  \cup {ParamVarStruct(t, "struct", ty, of, ov, e) : t \in {"internal", "untagged"}, ty \in {I32, Decl("Wrapped")},
          of \in {NoOver, FullOver, [FullOver EXCEPT !.i = TRUE]}, ov \in {NoOver, FullOver, [NoOver EXCEPT !.i = TRUE]}, e \in {None, Some("string")}}
  \cup {ParamVariantTy(t, ty, of, ov, ef, ev) : t \in {"external", "adjacent", "untagged"}, ty \in {Str, Decl("Obj")},
          of \in {NoOver, FullOver, NullOver}, ov \in {NoOver, FullOver}, ef \in {None, Some("integer"), Some("any")}, ev \in Etys \ {None}}
  \cup {ParamContainerTy(k, ty, oc, ec) : k \in {"struct", "tuple", "names", "external", "internal", "adjacent", "untagged"}, ty \in {Decl("Obj")},
          oc \in OverrideSets, ec \in Etys \ {None, Some("any")}}
  \cup {ParamNames(oc) : oc \in OverrideSets}
  \cup {ParamRoot(ty, o) : ty \in ParamTypes, o \in OverrideSets}
  \cup {ParamRootFirst(ty, o) : ty \in ParamTypes, o \in OverrideSets}
  \cup {ParamStructFirst(ty, o) : ty \in {Decl("Obj"), Decl("Choice"), Decl("Either"), Decl("Inl"), VecOf(Decl("Obj"))}, o \in OverrideSets}
ParamsOk(c) == \A i \in 1..Len(c.decls) : \A k \in 1..Len(c.decls[i].fields) :
                 LET f == c.decls[i].fields[k] IN f.nullable /\ IsNone(f.ety) => NullableOk(f.ty, [i |-> f.inline, n |-> TRUE])

(***************************************************************************)
(* builtin: every builtin type, alone and wrapped                          *)
(***************************************************************************)
SizedPrims == Prims \ {"str"}
CopyPrims == {"i32", "bool", "char", "f64"}
HashPrims == {"String", "u8", "char", "bool", "i64"}
Wrap1(x) == {Ty(w, <<x>>) : w \in {"Box", "Rc", "Arc", "RefCell", "ref", "refmut", "Option", "Vec", "LinkedList", "VecDeque"} \cup Maps}
            \cup {TupleOf(<<x>>), TupleOf(<<x, I32>>), ArrayOf("2", x)}
SpecialWraps ==
  {Ty("Cell", <<Prim(p)>>) : p \in CopyPrims} \cup {Ty("HashSet", <<Prim(p)>>) : p \in HashPrims}
  \cup {Ty("BinaryHeap", <<Prim(p)>>) : p \in HashPrims}
  \cup {Ty(w, <<Prim("str")>>) : w \in {"ref", "Box", "Rc", "Arc"}}
  \cup {Ty(w, <<Ty("Slice", <<x>>)>>) : w \in {"ref", "Box"}, x \in {I32, Decl("Obj")}}
  \cup {Ty("ref", <<Ty("ref", <<Prim("str")>>)>>), Ty("Option", <<Ty("ref", <<Prim("str")>>)>>), VecOf(Ty("ref", <<Prim("str")>>))}
TupleN(n) == TupleOf([i \in 1..n |-> <<I32, Str, Boolean, Prim("u8"), Decl("Obj"), Prim("f32"), VecOf(I32), OptOf(Str), Prim("char"), Prim("i64")>>[i]])
TupleEnds(n) == TupleOf([i \in 1..n |-> IF i = n THEN Decl("Obj") ELSE IF i = 1 THEN Decl("Choice") ELSE I32])
BuiltinTypes ==
  {Prim(p) : p \in SizedPrims}
  \cup UNION {Wrap1(Prim(p)) : p \in {"i32", "String", "unit", "Uuid"}}
  \cup UNION {Wrap1(x) : x \in {Decl("Obj"), Decl("Choice"), Decl("Wrapped"), Decl("Inl"), Decl("Either")}}
  \cup UNION {Wrap1(x) : x \in {OptOf(I32), OptOf(Decl("Obj")), VecOf(Decl("Obj")), BoxOf(Decl("Obj")), MapOf(I32), TupleOf(<<Str, Decl("Obj")>>), BoxOf(OptOf(Str)), OptOf(BoxOf(Decl("Inl")))}}
  \cup SpecialWraps
  \cup {TupleN(n) : n \in 1..10} \cup {TupleEnds(n) : n \in 2..10}
  \cup {ArrayOf(ToString(n), I32) : n \in 0..33} \cup {ArrayOf(ToString(n), Decl("Obj")) : n \in {1, 3, 32}}
FamBuiltin(any) ==
  {Case("builtin", Targets, <<Root(ty)>>) : ty \in BuiltinTypes}
  \cup {Case("builtin", Targets \o <<Struct("Root", <<Fld("before", Decl("Obj")), Fld("f", ty), Fld("opt", OptOf(ty))>>)>>, Roots(<<Decl("Root")>>)) :
          ty \in UNION {Wrap1(x) : x \in {I32, Decl("Obj"), OptOf(Decl("Choice"))}} \cup {Prim(p) : p \in SizedPrims}}

(***************************************************************************)
(* graph: declarations that refer to each other, also recursively,         *)
(* mentioned in different orders                                           *)
(***************************************************************************)
EdgeKinds == {"plain", "option", "vec", "boxed", "map", "none"}
Edge(k, n, back) ==    \* a back edge needs a way out
  CASE k = "plain" -> IF back THEN OptOf(BoxOf(Decl(n))) ELSE Decl(n)
    [] k = "option" -> OptOf(BoxOf(Decl(n)))
    [] k = "vec" -> VecOf(Decl(n))
    [] k = "boxed" -> IF back THEN VecOf(BoxOf(Decl(n))) ELSE BoxOf(Decl(n))
    [] k = "map" -> MapOf(Decl(n))
    [] k = "none" -> Str
Shapes == {"struct", "tuple", "external", "adjacent", "untagged", "internal", "newtype"}
Node(name, shape, t1, t2) ==
  CASE shape = "struct" -> [Struct(name, <<Fld("one", t1), Fld("two", t2)>>) EXCEPT !.c.desc = Some(name)]
    [] shape = "tuple" -> Tuple(name, <<Pos(t1), Pos(t2)>>)
    [] shape = "newtype" -> Newtype(name, Pos(TupleOf(<<t1, t2>>)))
    [] shape = "external" -> Enum(name, NoAttrs, <<NewV("One", t1), StrV("Two", <<Fld("two", t2)>>)>>)
    [] shape = "adjacent" -> Enum(name, TagAdjacent, <<NewV("One", t1), TupV("Two", <<t2, I32>>)>>)
    [] shape = "untagged" -> Enum(name, TagUntagged, <<StrV("One", <<Fld("one", t1)>>), NewV("Two", t2)>>)
    [] shape = "internal" -> Enum(name, TagInternal, <<StrV("One", <<Fld("one", t1)>>), StrV("Two", <<Fld("two", t2)>>)>>)
Orders3 == {<<"A", "B", "C">>, <<"C", "B", "A">>, <<"B", "A", "C">>}
Graph(s1, s2, k1, k2, k3, order) ==
  LET a == Node("A", s1, Edge(k1, "A", TRUE), Edge(k2, "B", TRUE))
      b == Node("B", s2, Edge(k3, "A", TRUE), Edge("plain", "C", FALSE))
      c == Node("C", "struct", Edge(k2, "C", TRUE), Edge("none", "", FALSE))
  IN Case("graph", <<a, b, c>>, Roots([i \in 1..3 |-> Decl(order[i])]))
FamGraph(any) ==
  {Graph(s1, "struct", k1, k2, k3, o) : s1 \in Shapes, k1 \in {"option", "vec", "none"}, k2 \in {"plain", "map"}, k3 \in {"boxed", "none"}, o \in {<<"A", "B", "C">>, <<"C", "B", "A">>}}
  \cup {Graph("struct", s2, k1, k2, k3, o) : s2 \in Shapes, k1 \in {"plain"}, k2 \in {"option", "vec"}, k3 \in {"vec", "map"}, o \in Orders3}

\* Wrapped mentions around the plain one: neither order may change the component
FamOrder(any) ==
  {Case("order", Targets, <<Root(x), Root(y), Root(z)>>) :
     x \in {Decl("Obj"), OptOf(Decl("Obj")), BoxOf(Decl("Obj")), VecOf(OptOf(Decl("Obj")))},
     y \in {OptOf(Decl("Obj")), Decl("Obj"), Ty("Rc", <<OptOf(Decl("Obj"))>>), MapOf(Decl("Wrapped"))},
     z \in {Decl("Obj"), OptOf(OptOf(Decl("Obj"))), TupleOf(<<Decl("Obj"), Decl("Either")>>), OptOf(Decl("Wrapped"))}}
  \cup {Case("order", Targets, <<[Root(x) EXCEPT !.inline = i1, !.p.d = d], [Root(x) EXCEPT !.inline = ~i1], Root(x)>>) :
     x \in {Decl("Obj"), OptOf(Decl("Obj")), BoxOf(Decl("Wrapped")), Decl("Inl"), OptOf(Decl("Wrapped")), VecOf(Decl("Obj"))}, i1 \in BOOLEAN, d \in {None, Some("in place")}}

(***************************************************************************)
(* generic declarations, lifetimes, transparent structs, container flags   *)
(***************************************************************************)
Pair == [Struct("Pair", <<Fld("left", Param("A")), Fld("right", VecOf(Param("B")))>>) EXCEPT !.params = <<"A", "B">>]
GenOpt == [Enum("Maybe", TagAdjacent, <<NewV("Just", Param("A")), UnitV("Nothing")>>) EXCEPT !.params = <<"A">>]
GenWrap == [Newtype("Wrap", Pos(OptOf(Param("A")))) EXCEPT !.params = <<"A">>]
GenList == [Struct("List", <<Fld("head", Param("A")), Fld("tail", OptOf(BoxOf(DeclOf("List", <<Param("A")>>))))>>) EXCEPT !.params = <<"A">>]
GenSkip == [Struct("Skipping", <<[Fld("ghost", Param("B")) EXCEPT !.skip = "skip_serializing"], Fld("seen", Param("A"))>>) EXCEPT !.params = <<"A", "B">>]
Borrowed == [Struct("Borrowed", <<Fld("message", Ty("ref", <<Prim("str")>>)), Fld("list", Ty("ref", <<Ty("Slice", <<I32>>)>>))>>) EXCEPT !.lt = TRUE]
BorrowedGen == [Struct("BorrowedGen", <<Fld("message", Ty("ref", <<Prim("str")>>)), Fld("item", Ty("ref", <<Param("A")>>))>>) EXCEPT !.lt = TRUE, !.params = <<"A">>]
Generics == <<Pair, GenOpt, GenWrap, GenList, GenSkip, Borrowed, BorrowedGen>>
FamGeneric(any) ==
  {Case("generic", Targets \o Generics, Roots(<<ty>>)) :
     ty \in {DeclOf("Pair", <<x, y>>) : x \in {I32, Decl("Obj"), OptOf(Str)}, y \in {Str, Decl("Choice")}}
        \cup {DeclOf(g, <<x>>) : g \in {"Maybe", "Wrap", "List", "BorrowedGen"}, x \in {I32, Str, Decl("Obj"), VecOf(Decl("Wrapped")), OptOf(I32)}}
        \cup {DeclOf("Skipping", <<I32, Prim("u8")>>), Decl("Borrowed"), DeclOf("Wrap", <<DeclOf("Maybe", <<Decl("Obj")>>)>>)}}
  \cup {Case("generic", Targets \o Generics \o <<Struct("Root", <<Fld("a", DeclOf("Maybe", <<I32>>)), Fld("b", DeclOf("Pair", <<Decl("Obj"), Str>>)), Fld("c", Decl("Borrowed"))>>)>>, Roots(<<Decl("Root")>>))}

FamMisc(any) ==
  {Case("misc", Targets \o <<[d EXCEPT !.c.transparent = TRUE, !.c.desc = ds]>>, Roots(<<Decl("Root")>>)) :
     ds \in {None, Some("clear")},
     d \in {Struct("Root", <<f>>) : f \in {Fld("only", I32), Fld("only", Decl("Obj")), [Fld("only", Str) EXCEPT !.desc = Some("fd"), !.format = Some("ff")],
                                           [Fld("only", I32) EXCEPT !.rename = RenTo("eq", "renamed")]}}
       \cup {Newtype("Root", Pos(ty)) : ty \in {I32, Decl("Choice"), VecOf(Decl("Obj"))}}}
  \cup {Case("misc", <<[Struct("Tagged", fs) EXCEPT !.c.tag = Some("tag name"), !.c.inline = i, !.c.nullable = n, !.c.desc = ds]>> \o u,
             Roots(<<Decl("User"), OptOf(Decl("Tagged")), VecOf(Decl("Tagged"))>>)) :
     fs \in {<<>>, <<Fld("a", I32)>>, <<[Fld("a", OptOf(I32)) EXCEPT !.skipif = TRUE], [Fld("b", I32) EXCEPT !.skip = "skip"], Fld("c", I32)>>},
     i \in BOOLEAN, n \in BOOLEAN, ds \in {None, Some("Container")},
     u \in {<<Struct("User", <<Fld("u", Decl("Tagged")), [Fld("i", Decl("Tagged")) EXCEPT !.inline = TRUE]>>)>>,
            <<Newtype("User", Pos(Decl("Tagged")))>>,
            <<[Struct("User", <<Fld("u", Decl("Tagged"))>>) EXCEPT !.c.tag = Some("other tag")]>>}
           \cup {<<Enum("User", EnumAttrs(t), <<NewV("A", Decl("Tagged")), StrV("B", <<Fld("b", Decl("Tagged"))>>)>>)>> : t \in {"external", "internal", "adjacent", "untagged"}}}
  \cup {Case("misc", Targets \o <<[d EXCEPT !.c.inline = i, !.c.nullable = n, !.c.desc = ds, !.c.rename = rn], Struct("User", <<Fld("u", Decl("Root")), Fld("o", OptOf(Decl("Root")))>>)>>, Roots(<<Decl("Root"), Decl("User")>>)) :
     i \in BOOLEAN, n \in BOOLEAN, ds \in {None, Some("Container")}, rn \in {None, RenTo("eq", "Renamed")},
     d \in {Struct("Root", <<Fld("a", I32)>>), Tuple("Root", <<Pos(I32), Pos(Str)>>), Newtype("Root", Pos(I32)),
            Enum("Root", NoAttrs, <<NewV("X", I32)>>), Enum("Root", TagAdjacent, <<NewV("X", I32), UnitV("Y")>>)}}
  \cup {Case("misc", Targets \o <<[d EXCEPT !.c.inline = i, !.c.desc = ds], Struct("User", <<Fld("u", Decl("Root")), Fld("o", OptOf(Decl("Root")))>>)>>, Roots(<<Decl("Root"), Decl("User")>>)) :
     i \in BOOLEAN, ds \in {None, Some("Container")},
     d \in {Enum("Root", TagInternal, <<NewV("X", Decl("Obj")), UnitV("Y")>>), Enum("Root", TagUntagged, <<NewV("X", I32), StrV("Y", <<Fld("q", Str)>>)>>),
            Enum("Root", NoAttrs, <<UnitV("P"), UnitV("Q")>>), Enum("Root", ReprAttr, <<UnitV("P"), UnitV("Q")>>)}}

(***************************************************************************)
(* text: strings reach the document as they were written                  *)
(***************************************************************************)
Texts == {"", "quo\"te", "back\\slash", "sla/sh~tilde", "{brace}", "dollar$ #hash", "é Ω 漢字", " edges ", "tab\tnew\nline", "null", "1", "'", "%s %d", "//"}
FamText(any) ==
  UNION {{Case("text", <<[Struct("Root", <<[Fld("a", Str) EXCEPT !.desc = Some(s), !.format = Some(s), !.example = Lit(s)],
                                           [Fld("b", I32) EXCEPT !.rename = RenTo("eq", s)], [Fld("c", Decl("Nt")) EXCEPT !.desc = Some(s)]>>) EXCEPT !.c.desc = Some(s)],
                         [Newtype("Nt", Pos(Str)) EXCEPT !.c.desc = Some(s), !.c.format = Some(s), !.c.example = Lit(s)]>>,
               <<[ty |-> Decl("Root"), inline |-> FALSE, p |-> [NoParams EXCEPT !.d = Some(s)]], Root(Decl("Nt"))>>),
          Case("text", <<Enum("Root", NoAttrs, <<[UnitV("A") EXCEPT !.rename = RenTo("eq", s)], UnitV("B")>>),
                         Enum("Mixed", [NoAttrs EXCEPT !.desc = Some(s)], <<[NewV("A", I32) EXCEPT !.rename = RenTo("eq", s), !.desc = Some(s)],
                                                [StrV("B", <<[Fld("x", I32) EXCEPT !.rename = RenTo("eq", s), !.desc = Some(s)]>>) EXCEPT !.desc = Some(s)]>>),
                         Enum("Tagged", [NoAttrs EXCEPT !.tag = Some(s)], <<[StrV("A", <<Fld("x", I32)>>) EXCEPT !.rename = RenTo("eq", s)], UnitV("B")>>),
                         Enum("Adj", [NoAttrs EXCEPT !.tag = Some(s), !.content = Some("body")], <<NewV("A", I32), UnitV("B")>>),
                         Enum("Adj2", [NoAttrs EXCEPT !.tag = Some("kind"), !.content = Some(s)], <<NewV("A", I32), TupV("B", <<I32, Str>>)>>)>>,
               Roots(<<Decl("Root"), Decl("Mixed"), Decl("Tagged"), Decl("Adj"), Decl("Adj2")>>))} : s \in Texts}

(***************************************************************************)
(* large: many fields, variants and types, long names, deep nesting        *)
(***************************************************************************)
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN "" ELSE s \o Times(s, n - 1)
ManyTypes == <<I32, OptOf(Str), VecOf(I32), Str, Decl("Obj"), OptOf(Decl("Obj")), Prim("f64"), MapOf(I32), Decl("Choice"), Boolean, TupleOf(<<I32, Str>>)>>
ManyType(i) == ManyTypes[(i % Len(ManyTypes)) + 1]
ManyFields(n, odd) ==
  [i \in 1..n |-> LET f == Fld("field_" \o ToString(i) \o Times("_x", i % 4), ManyType(i)) IN
     IF i \notin odd THEN f
     ELSE CASE i % 5 = 0 -> [f EXCEPT !.skip = "skip_serializing"]
            [] i % 5 = 1 -> [f EXCEPT !.optional = TRUE]
            [] i % 5 = 2 -> IF CanSkipIf(f.ty) THEN [f EXCEPT !.skipif = TRUE] ELSE [f EXCEPT !.skip = "skip"]
            [] i % 5 = 3 -> [f EXCEPT !.rename = RenTo("eq", "Renamed " \o ToString(i))]
            [] i % 5 = 4 -> [f EXCEPT !.desc = Some("described " \o ToString(i))]]
ManyPositions(n, odd) ==
  [i \in 1..n |-> IF i \in odd THEN [Pos(ManyType(i)) EXCEPT !.skip = "skip_serializing"] ELSE Pos(ManyType(i))]
ManyVariants(t, n, odd) ==
  [i \in 1..n |->
     LET nm == "Variant" \o ToString(i) \o Times("Xy", i % 4)
         st == CASE t \in {"names", "repr"} -> "unit"
                 [] t = "internal" -> <<"unit", "struct", "struct">>[(i % 3) + 1]
                 [] t = "untagged" -> <<"newtype", "struct", "struct">>[(i % 3) + 1]
                 [] OTHER -> <<"unit", "newtype", "tuple", "struct">>[(i % 4) + 1]
         v == CASE st = "unit" -> UnitV(nm) [] st = "newtype" -> NewV(nm, ManyType(i)) [] st = "tuple" -> TupV(nm, <<ManyType(i), ManyType(i + 1)>>)
                [] st = "struct" -> StrV(nm, ManyFields((i % 3) + 1, {}))
     IN IF i \notin odd THEN v ELSE CASE i % 3 = 0 -> [v EXCEPT !.skip = "skip"]
                                    [] i % 3 = 1 -> [v EXCEPT !.rename = RenTo("eq", "Renamed " \o ToString(i))]
                                    [] i % 3 = 2 -> [v EXCEPT !.desc = Some("described")]]
ChainName(i) == "Link" \o ToString(i)
Chain(n, k, cyclic) ==
  [i \in 1..n |-> Struct(ChainName(i), IF i < n THEN <<Fld("next", Edge(k, ChainName(i + 1), FALSE)), Fld("own", I32)>>
                                       ELSE IF cyclic THEN <<Fld("again", Edge(k, ChainName(1), TRUE))>> ELSE <<Fld("own", Str)>>)]
\* every level mentions the next one twice: described once each, or else more often than there is time for
Ladder(n, k, l) ==
  [i \in 1..n |-> Struct(ChainName(i), IF i < n THEN <<Fld("left", Edge(k, ChainName(i + 1), TRUE)), Fld("right", Edge(l, ChainName(i + 1), TRUE))>> ELSE <<Fld("own", Str)>>)]
InlineChain(n) == [i \in 1..n |-> [Struct("In" \o ToString(i), <<Fld("own", I32), Fld("next", IF i = n THEN Decl("Obj") ELSE OptOf(Decl("In" \o ToString(i + 1))))>>)
                                   EXCEPT !.c.inline = TRUE, !.c.desc = Some("level " \o ToString(i))]]
RECURSIVE Nest(_, _)
Nest(ws, x) == IF Len(ws) = 0 THEN x
               ELSE LET y == Nest(Tail(ws), x) IN
                    CASE ws[1] = "o" -> OptOf(y) [] ws[1] = "v" -> VecOf(y) [] ws[1] = "m" -> MapOf(y) [] ws[1] = "b" -> BoxOf(y) [] ws[1] = "t" -> TupleOf(<<y>>)
                      [] ws[1] = "a" -> ArrayOf("2", y) [] ws[1] = "r" -> Ty("Rc", <<y>>)
Long == Times("a rather long description, ", 20)
FamLarge(any) ==
  {Case("large", Targets \o <<[Struct("Root", ManyFields(n, odd)) EXCEPT !.c.rename_all = r]>>, Roots(<<Decl("Root")>>)) :
     n \in {9, 17, 40}, odd \in {{}, 1..40, {8, 16, 32}, {1, 9, 17, 40}}, r \in {"none", "camelCase", "SCREAMING-KEBAB-CASE"}}
  \cup {Case("large", Targets \o <<Tuple("Root", ManyPositions(n, odd))>>, Roots(<<Decl("Root")>>)) : n \in {5, 9, 17}, odd \in {{}, {1}, {2, 4}, {5, 9, 17}}}
  \cup {Case("large", Targets \o <<Enum("Root", [EnumAttrs(t) EXCEPT !.rename_all = r], ManyVariants(t, n, odd))>>, Roots(<<Decl("Root")>>)) :
     t \in Taggings, n \in {5, 12, 20}, odd \in {{}, 1..20, {3, 6, 12}}, r \in {"none", "snake_case"}}
  \cup {Case("large", Chain(n, k, cy), Roots(<<Decl(ChainName(1)), Decl(ChainName(n)), VecOf(Decl(ChainName(3)))>>)) :
     n \in {4, 7, 12}, k \in {"plain", "option", "vec", "map"}, cy \in BOOLEAN}
  \cup {Case("large", Ladder(30, kl[1], kl[2]), Roots(<<Decl(ChainName(1)), VecOf(Decl(ChainName(30)))>>)) : kl \in {<<"option", "option">>, <<"vec", "map">>, <<"vec", "option">>}}
  \cup {Case("large", Targets \o InlineChain(n), Roots(<<Decl("In1"), VecOf(Decl("In2")), Decl("In1")>>)) : n \in {2, 4, 6}}
  \cup {Case("large", Targets \o <<Struct("Root", <<Fld("deep", Nest(ws, x)), Fld("again", OptOf(Nest(ws, x)))>>)>>, Roots(<<Nest(ws, x), Decl("Root")>>)) :
     x \in {I32, Decl("Obj"), Decl("Inl"), Decl("Wrapped"), Decl("Either")},
     ws \in {<<"v", "v", "v", "v">>, <<"o", "v", "o", "m">>, <<"m", "v", "o", "b", "t">>, <<"b", "r", "b", "o", "r">>, <<"t", "a", "t", "v">>, <<"o", "b", "o", "r", "o">>,
             <<"v", "o", "v", "o", "v", "o">>, <<"a", "m", "a">>}}
  \cup {Case("large", Targets \o <<[Struct("Root", <<[Fld("a", Str) EXCEPT !.desc = Some(Long), !.example = Lit(Long), !.rename = RenTo("eq", Long)], [Fld("b", Decl("Obj")) EXCEPT !.desc = Some(Long)]>>)
           EXCEPT !.c.desc = Some(Long)]>>, Roots(<<Decl("Root")>>))}
  \cup {Case("large", Targets, [i \in 1..12 |-> [ty |-> <<Decl("Obj"), OptOf(Decl("Obj")), Decl("Wrapped"), VecOf(Decl("Inl")), Decl("Either")>>[(i % 5) + 1], inline |-> i % s = 0,
                                               p |-> IF i % 4 = 1 THEN [NoParams EXCEPT !.d = Some("call " \o ToString(i))] ELSE NoParams]]) : s \in {2, 3, 7}}

(***************************************************************************)
(* type names: unusual ones and ones that nearly coincide; keywords are    *)
(* written as raw identifiers                                              *)
(***************************************************************************)
TypeNames == <<"_Under", "__", "lower", "Lower", "LOWER", "type", "match", "Été", "Z9", "Trailing_", "SCREAMING_CASE", "Ω", "i", "X", "Select", "Enum", "Schema", "Any", "Properties", "E0">>
TypeNamesFrom(i) == [k \in 1..Len(TypeNames) |-> TypeNames[((i + k - 2) % Len(TypeNames)) + 1]]
Named(shape, n, other) ==
  CASE shape = "struct" -> Struct(n, <<Fld("a", Decl(other)), Fld("b", OptOf(Decl(other))), Fld("c", VecOf(Decl(other)))>>)
    [] shape = "tuple" -> Tuple(n, <<Pos(Decl(other)), Pos(I32)>>)
    [] shape = "newtype" -> Newtype(n, Pos(MapOf(Decl(other))))
    [] shape = "names" -> Enum(n, NoAttrs, <<UnitV("P"), UnitV("Q")>>)
    [] shape = "repr" -> Enum(n, ReprAttr, <<UnitV("P"), UnitV("Q")>>)
    [] shape = "internal" -> Enum(n, TagInternal, <<NewV("P", Decl("Obj")), UnitV("Q"), StrV("R", <<Fld("x", Decl(other))>>)>>)
    [] shape = "adjacent" -> Enum(n, TagAdjacent, <<NewV("P", Decl(other)), UnitV("Q")>>)
    [] shape = "external" -> Enum(n, NoAttrs, <<NewV("P", Decl(other)), TupV("Q", <<Decl(other), I32>>)>>)
NamedShapes == <<"struct", "names", "tuple", "internal", "newtype", "repr", "adjacent", "external">>
FamTypeNames(any) ==
  {Case("typenames", Targets \o <<Named(sh, TypeNames[i], "Tiny"), Newtype("Tiny", Pos(Str))>>, Roots(<<Decl(TypeNames[i]), OptOf(Decl(TypeNames[i]))>>)) :
     sh \in {"struct", "tuple", "newtype", "names", "repr", "internal", "adjacent", "external"}, i \in 1..Len(TypeNames)}
  \cup {LET ns == TypeNamesFrom(i) IN
        Case("typenames", Targets \o [k \in 1..Len(ns) |-> Named(NamedShapes[(k % 8) + 1], ns[k], IF k = Len(ns) THEN "Obj" ELSE ns[k + 1])],
             Roots(<<Decl(ns[(i % 3) + 1]), VecOf(Decl(ns[4])), Decl(ns[1])>> \o [k \in 1..Len(ns) |-> Decl(ns[k])])) : i \in 1..Len(TypeNames)}

(***************************************************************************)
(* Drop the declarations that the roots of a case do not reach             *)
(***************************************************************************)
RECURSIVE TypeDecls(_)
TypeDecls(T) == (IF T.t = "decl" THEN {T.n} ELSE {}) \cup UNION {TypeDecls(T.a[i]) : i \in 1..Len(T.a)}
FieldDecls(fs) == UNION {TypeDecls(fs[i].ty) : i \in 1..Len(fs)}
DeclDecls(d) == FieldDecls(d.fields) \cup UNION {FieldDecls(d.variants[i].fields) : i \in 1..Len(d.variants)}
RECURSIVE Closure(_, _)
Closure(E, S) == LET N == S \cup UNION {DeclDecls(E[n]) : n \in S} IN IF N = S THEN S ELSE Closure(E, N)
Reachable(c) == Closure(EnvOf(c.decls), UNION {TypeDecls(c.roots[i].ty) : i \in 1..Len(c.roots)})
Prune(c) == LET R == Reachable(c) IN [c EXCEPT !.decls = SelectSeq(c.decls, LAMBDA d : d.name \in R)]

\* Families are operators of an argument they ignore: TLC would evaluate all of them at each start otherwise.
Family(f) ==
  CASE f = "names" -> FamNames(0)
    [] f = "required" -> FamRequired(0)
    [] f = "enums" -> FamEnums(0)
    [] f = "repr" -> FamRepr(0)
    [] f = "params" -> {c \in FamParams(0) : ParamsOk(c)}
    [] f = "builtin" -> FamBuiltin(0)
    [] f = "graph" -> FamGraph(0)
    [] f = "order" -> FamOrder(0)
    [] f = "generic" -> FamGeneric(0)
    [] f = "misc" -> FamMisc(0)
    [] f = "text" -> FamText(0)
    [] f = "large" -> FamLarge(0)
    [] f = "typenames" -> FamTypeNames(0)

=============================================================================
