----------------------------- MODULE OpgBuilder ------------------------------
(***************************************************************************)
(* Builds a program of declarations and mentions step by step: every       *)
(* behaviour ends in a program of the supported kind.  TLC simulates it to *)
(* draw programs that the systematic families of OpgCases do not contain,  *)
(* checks the properties on what the specification says about them, and    *)
(* prints them for the implementation to describe.                         *)
(*                                                                         *)
(* `die` only weighs choices: thrown values 0..9 decide in the next step   *)
(* whether something unusual may be chosen, one die for each aspect, so    *)
(* that any two of them may go together.                                   *)
(***************************************************************************)
EXTENDS OpgCases, OpgProps, Json, IOUtils

VARIABLES pc, n, inl, gen, kd, decls, cur, item, fld, roots, die
vars == <<pc, n, inl, gen, kd, decls, cur, item, fld, roots, die>>

Names == <<"T1", "T2", "T3", "T4", "T5">>
FieldPool == <<"alpha", "beta_two", "r#type", "gamma_3x", "_delta">>
VariantPool == <<"First", "SecondOne", "ThirdX2", "With_Under">>
Nope == [none |-> TRUE]

Me == Len(decls) + 1
Throw == die' = <<RandomElement(0..9), RandomElement(0..9), RandomElement(0..9), RandomElement(0..9), RandomElement(0..9),
                  RandomElement(0..9), RandomElement(0..9), RandomElement(0..9), RandomElement(0..9)>>
Odd(i, k) == die[i] < k

Kinds == {"struct", "tuple", "newtype", "transparent", "names", "repr", "external", "internal", "adjacent", "untagged"}
EnumKinds == {"names", "repr", "external", "internal", "adjacent", "untagged"}

Borrows == Prim("lifetime")
IsGen(j) == j \in DOMAIN gen /\ gen[j] # Borrows
IsBorrowing(j) == j \in DOMAIN gen /\ gen[j] = Borrows

Init == /\ pc = "size" /\ n = 0 /\ inl = {} /\ gen = EmptyFn /\ kd = "" /\ decls = <<>> /\ cur = Nope /\ item = Nope /\ fld = Nope /\ roots = <<>> /\ die = [i \in 1..9 |-> 9]

Size == /\ pc = "size" /\ n' \in 1..5
        /\ inl' \in {{}, {2}, {1, 3}, {4}}           \* declarations that are always inlined
        \* declarations with a type parameter and the type it is used with, or with a lifetime
        /\ gen' \in {EmptyFn, EmptyFn, 1 :> I32, 2 :> Decl("T1"), (1 :> OptOf(Str)) @@ (3 :> Decl("T2")), 3 :> VecOf(Decl("T1")), 2 :> Borrows,
                     (1 :> Borrows) @@ (2 :> DeclOf("T1", <<>>)), 4 :> Str}
        /\ pc' = "kind" /\ Throw /\ UNCHANGED <<kd, decls, cur, item, fld, roots>>

BlankDecl(k) ==
  LET base == CASE k \in EnumKinds -> Enum(Names[Me], EnumAttrs(k), <<>>)
                [] k = "transparent" -> [Struct(Names[Me], <<>>) EXCEPT !.c.transparent = TRUE]
                [] OTHER -> DeclX(Names[Me], k, NoAttrs, <<>>, <<>>)
  IN [base EXCEPT !.c.inline = Me \in inl, !.params = IF IsGen(Me) THEN <<"A">> ELSE <<>>, !.lt = IsBorrowing(Me)]
Kind == /\ pc = "kind"
        /\ \E k \in IF Me \in DOMAIN gen THEN {"struct", "tuple", "newtype", "external", "adjacent"} ELSE Kinds : cur' = BlankDecl(k) /\ kd' = k
        /\ pc' = "rule" /\ Throw /\ UNCHANGED <<n, inl, gen, decls, item, fld, roots>>

Rule == /\ pc = "rule"
        /\ \E r \in IF Odd(1, 5) /\ cur.kind \in {"struct", "enum"} /\ ~cur.c.transparent THEN Rules ELSE {"none"},
              f \in IF Odd(2, 3) THEN {"ser", "both"} ELSE {"eq"} :
             \E rf \in IF Odd(3, 3) /\ cur.kind = "enum" THEN {"kebab-case", "PascalCase", "none"} ELSE {"none"} :
               cur' = [cur EXCEPT !.c.rename_all = r, !.c.ra_form = IF r = "none" THEN "eq" ELSE f, !.c.raf = rf]
        /\ pc' = "about" /\ Throw /\ UNCHANGED <<n, inl, gen, kd, decls, item, fld, roots>>

CanBeNull(d) == (d.kind \in {"struct", "tuple"} /\ ~d.c.transparent) \/ (d.kind = "enum" /\ kd \in {"names", "external", "adjacent"})
About == /\ pc = "about"
         /\ \E ds \in IF Odd(1, 4) THEN {Some("About " \o Names[Me])} ELSE {None},
               nu \in IF Odd(2, 3) /\ CanBeNull(cur) THEN BOOLEAN ELSE {FALSE},
               rn \in IF Odd(3, 3) THEN {None, RenTo("eq", "Other" \o Names[Me]), RenTo("both", "Other" \o Names[Me])} ELSE {None},
               fo \in IF kd \in {"newtype", "transparent", "names"} /\ Odd(4, 3) THEN {None, Some("container-format")} ELSE {None},
               ex \in IF kd \in {"newtype", "transparent", "names"} /\ Odd(5, 3) THEN {None, Lit("container example")} ELSE {None},
               ty \in IF Odd(6, 2) /\ kd \notin {"newtype", "transparent", "repr"} /\ Me \notin DOMAIN gen THEN {None, Some("string"), Some("number")} ELSE {None} :
              \E tg \in IF cur.kind = "struct" /\ ~cur.c.transparent /\ Odd(7, 2) THEN {Some("tag of " \o Names[Me])} ELSE {cur.c.tag} :
              cur' = [cur EXCEPT !.c.tag = tg, !.c.ty = ty, !.c.desc = ds, !.c.nullable = nu, !.c.rename = rn, !.c.format = fo, !.c.example = ex]
         /\ pc' = "more" /\ Throw /\ UNCHANGED <<n, inl, gen, kd, decls, item, fld, roots>>

(***************************************************************************)
(* Fields: of the declaration itself or of the variant in `item`           *)
(***************************************************************************)
InVariant == item # Nope
Owner == IF InVariant THEN item ELSE cur
Style == IF InVariant THEN item.style ELSE IF cur.kind = "struct" THEN "struct" ELSE cur.kind
Count == Len(Owner.fields)
NeedsField == CASE Style = "newtype" \/ (~InVariant /\ cur.c.transparent) -> Count < 1
                [] Style = "tuple" -> Count < 2
                [] OTHER -> Me \in DOMAIN gen /\ ~InVariant /\ cur.kind = "struct" /\ Count < 1
MayHaveField == CASE Style = "newtype" \/ (~InVariant /\ cur.c.transparent) -> Count < 1
                  [] Style = "unit" \/ (cur.kind = "enum" /\ ~InVariant) -> FALSE
                  [] OTHER -> Count < 4
IsInternalNewtype == InVariant /\ Style = "newtype" /\ kd = "internal"

Ref(j) == IF ~IsGen(j) THEN Decl(Names[j]) ELSE DeclOf(Names[j], <<IF j = Me THEN Param("A") ELSE gen[j]>>)
Forward == {Ref(j) : j \in 1..(Me - 1)}
Back == {Ref(j) : j \in {k \in Me..n : k \notin inl}}
PlainStructs == {Decl(decls[j].name) : j \in {k \in 1..Len(decls) : k \notin DOMAIN gen /\ decls[k].kind = "struct" /\ ~decls[k].c.transparent /\ IsNone(decls[k].c.ty)}}
BasePrims == {Prim(p) : p \in {"i32", "String", "bool", "f64", "u8", "i64", "char", "unit", "Uuid", "NaiveDate", "u64"}}
Loose(x) == {x, OptOf(x), VecOf(x), BoxOf(x), MapOf(x), TupleOf(<<x, Str>>), TupleOf(<<x>>), ArrayOf("2", x), Ty("Rc", <<x>>), OptOf(VecOf(x)),
             Ty("BTreeMapU32", <<x>>), VecOf(OptOf(x)), OptOf(OptOf(x)), Ty("VecDeque", <<x>>), BoxOf(OptOf(x))}
Guarded(x) == {OptOf(BoxOf(x)), VecOf(x), MapOf(x), VecOf(OptOf(x)), OptOf(VecOf(x)), Ty("BTreeMapU32", <<VecOf(x)>>), VecOf(Ty("Arc", <<x>>)), BoxOf(OptOf(BoxOf(x)))}
FirstField == Count = 0 /\ (InVariant => Len(cur.variants) = 0)
FieldTypes ==
  IF IsInternalNewtype THEN PlainStructs \cup {MapOf(Str), MapOf(VecOf(I32))}
  ELSE IF FirstField /\ IsBorrowing(Me) THEN {Ty("ref", <<Prim("str")>>), Ty("ref", <<Ty("Slice", <<I32>>)>>), OptOf(Ty("ref", <<Prim("str")>>))}
  ELSE IF FirstField /\ IsGen(Me) THEN Loose(Param("A"))     \* a parameter has to be used
  ELSE IF die[1] < 2 THEN BasePrims
  ELSE IF die[1] = 2 /\ IsGen(Me) THEN Loose(Param("A"))
  ELSE IF die[1] < 4 /\ Forward # {} THEN Forward
  ELSE IF die[1] < 7 \/ Back = {} THEN UNION {Loose(x) : x \in Forward \cup {I32, Str}}
  ELSE UNION {Guarded(x) : x \in Back}
HasBack(ty) == TypeDecls(ty) \cap {x.n : x \in Back} # {}

NewField == /\ pc \in {"more", "fields"} /\ MayHaveField
            /\ pc = "more" => ~InVariant
            /\ \E ty \in FieldTypes :
                 fld' = Fld(IF Style = "struct" THEN FieldPool[Count + 1] ELSE "", ty)
            /\ pc' = "presence" /\ Throw /\ UNCHANGED <<n, inl, gen, kd, decls, cur, item, roots>>

Presences(f) ==
  IF Style = "struct" /\ ~cur.c.transparent
  THEN {[f EXCEPT !.skip = s, !.skipif = si, !.optional = o, !.rename = r] :
          s \in SkipKinds, si \in IF CanSkipIf(f.ty) THEN BOOLEAN ELSE {FALSE}, o \in BOOLEAN,
          r \in {None, RenTo("eq", "Ren-" \o ToString(Count)), RenTo("both", "ren " \o ToString(Count)), RenTo("de", "dn")}}
  ELSE IF Style = "tuple" /\ Count > 0 THEN {[f EXCEPT !.skip = s] : s \in {"", "skip_serializing"}}
  ELSE IF Style = "newtype" /\ InVariant /\ kd # "untagged" THEN {f, [f EXCEPT !.skip = "skip"]}
  ELSE {f}
PresenceOf == /\ pc = "presence"
              /\ fld' \in IF Odd(1, 5) THEN {f \in Presences(fld) : f.skip # "" => ~f.skipif} ELSE {fld}
              /\ pc' = "over" /\ Throw /\ UNCHANGED <<n, inl, gen, kd, decls, cur, item, roots>>

NullSafe(ty) == ty.t \in Prims \ {"unit"} \/ ty.t \in {"Vec", "HashMap"}
Overrides(f) ==
  {[f EXCEPT !.desc = d, !.format = fo, !.example = e, !.inline = i, !.nullable = nu, !.ety = t] :
     d \in {None, Some("field of " \o Names[Me])}, fo \in {None, Some("ff")},
     e \in {None, Lit("ex"), With("6 * 7", "42")},
     i \in IF HasBack(f.ty) THEN {FALSE} ELSE BOOLEAN,
     nu \in IF NullSafe(f.ty) THEN BOOLEAN ELSE {FALSE},
     t \in IF IsInternalNewtype THEN {None} ELSE IF (Style = "newtype" /\ ~InVariant) \/ cur.c.transparent THEN {None, Some("string"), Some("integer")} ELSE Etys}
AddTo(x, f) == [x EXCEPT !.fields = Append(x.fields, f)]
Over == /\ pc = "over"
        /\ \E f \in IF Odd(1, 4) THEN Overrides(fld) ELSE {fld} :
             IF InVariant THEN item' = AddTo(item, f) /\ cur' = cur ELSE cur' = AddTo(cur, f) /\ item' = item
        /\ fld' = Nope /\ pc' = (IF InVariant THEN "fields" ELSE "more") /\ Throw /\ UNCHANGED <<n, inl, gen, kd, decls, roots>>

(***************************************************************************)
(* Variants                                                                *)
(***************************************************************************)
VariantStyles == CASE Me \in DOMAIN gen /\ Len(cur.variants) = 0 -> {"newtype"}
                   [] kd \in {"names", "repr"} -> {"unit"}
                   [] kd = "untagged" -> {"newtype", "struct"}
                   [] kd = "internal" -> {"unit", "newtype", "struct"}
                   [] OTHER -> {"unit", "newtype", "tuple", "struct"}
Variants == Len(cur.variants)
NewVariant == /\ pc = "more" /\ cur.kind = "enum" /\ ~InVariant /\ Variants < 4
              /\ \E s \in VariantStyles, rn \in IF Odd(1, 3) THEN {RenTo("eq", "RenV-" \o ToString(Variants)), RenTo("ser", "renV " \o ToString(Variants)), RenTo("de", "Nope")} ELSE {None},
                    r \in IF Odd(2, 4) THEN {"camelCase", "SCREAMING-KEBAB-CASE", "none"} ELSE {"none"},
                    sk \in IF Odd(3, 2) /\ Variants > 0 THEN {"skip", "skip_serializing", "skip_deserializing"} ELSE {""},
                    di \in IF kd = "repr" /\ (IF Variants = 0 THEN Odd(4, 5) ELSE IsSome(cur.variants[1].disc)) THEN {5 * Variants + 7} ELSE {0},
                    ds \in IF Odd(5, 4) THEN {Some("variant")} ELSE {None}, i \in IF Odd(6, 2) THEN BOOLEAN ELSE {FALSE} :
                   item' = [Var(VariantPool[Variants + 1], s, <<>>) EXCEPT !.rename = rn, !.rename_all = IF s = "struct" THEN r ELSE "none",
                              !.skip = sk, !.disc = IF di = 0 THEN None ELSE Disc(ToString(di), di), !.desc = ds, !.inline = i /\ Back = {},
                              !.ety = IF die[7] = 6 /\ s = "newtype" /\ kd # "internal" THEN Some("integer") ELSE None]
              /\ pc' = "fields" /\ Throw /\ UNCHANGED <<n, inl, gen, kd, decls, cur, fld, roots>>
EndVariant == /\ pc = "fields" /\ ~NeedsField
              /\ cur' = [cur EXCEPT !.variants = Append(cur.variants, item)]
              /\ item' = Nope /\ pc' = "more" /\ Throw /\ UNCHANGED <<n, inl, gen, kd, decls, fld, roots>>

EndDecl == /\ pc = "more" /\ ~InVariant
           /\ IF cur.kind = "enum" THEN Variants > 0 ELSE ~NeedsField
           /\ decls' = Append(decls, cur) /\ cur' = Nope
           /\ pc' = (IF Me = n THEN "roots" ELSE "kind") /\ Throw /\ UNCHANGED <<n, inl, gen, kd, item, fld, roots>>

RootParams == {NoParams, [NoParams EXCEPT !.d = Some("at the call")], [NoParams EXCEPT !.format = Some("cf"), !.example = Some("ce")]}
NewRoot == /\ pc = "roots" /\ Len(roots) < 3
           /\ \E j \in 1..n : \E ty \in IF Odd(1, 5) THEN {Ref(j)} ELSE Loose(Ref(j)),
                 i \in IF Odd(2, 3) THEN BOOLEAN ELSE {FALSE}, p \in IF Odd(3, 4) THEN RootParams ELSE {NoParams} :
                roots' = Append(roots, [ty |-> ty, inline |-> i, p |-> p])
           /\ Throw /\ UNCHANGED <<pc, n, inl, gen, kd, decls, cur, item, fld>>

Program == Prune(Case("random", decls, roots))
End == /\ pc = "roots" /\ Len(roots) >= 2
       /\ pc' = "done" /\ PrintT("CASE " \o ToJson(Program))
       /\ UNCHANGED <<n, inl, gen, kd, decls, cur, item, fld, roots, die>>

Next == Size \/ Kind \/ Rule \/ About \/ NewField \/ PresenceOf \/ Over \/ NewVariant \/ EndVariant \/ EndDecl \/ NewRoot \/ End
Spec == Init /\ [][Next]_vars

SpecHolds == pc = "done" => LET rs == SpecReasons(Program) IN rs = {} \/ ~PrintT("SPEC " \o ToString(rs) \o " " \o ToJson(Program))
=============================================================================
