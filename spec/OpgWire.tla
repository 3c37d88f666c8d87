------------------------------- MODULE OpgWire -------------------------------
(***************************************************************************)
(* What serde writes for a value of a type.  Values are drawn from a       *)
(* numbered family: Wire(E, T, j, f) is the JSON of the j-th sample of     *)
(* type T with f levels of nested declarations left to unfold.             *)
(***************************************************************************)
EXTENDS OpgTypes

NoneAt(j, f) == j % 2 = 0 \/ f = 0
ListLen(T, j, f) ==
  CASE T.t = "Array" -> CHOOSE n \in 0..40 : ToString(n) = T.n
    [] f = 0 -> 0
    [] T.t \in {"HashSet", "BinaryHeap"} -> j % 2
    [] OTHER -> j % 3
MapLen(j, f) == IF f = 0 THEN 0 ELSE j % 2

PrimWire(p, j) ==
  CASE p \in DOMAIN IntPrims -> JN(ToString(j % 3))
    [] p \in DOMAIN FloatPrims -> JN(ToString(j % 3) \o ".5")
    [] p \in {"String", "str"} -> JS(IF j % 3 = 0 THEN "" ELSE "s" \o ToString(j % 3))
    [] p = "char" -> JS(IF j % 2 = 0 THEN "a" ELSE "b")
    [] p \in {"bool", "AtomicBool"} -> JB(j % 2 = 1)
    [] p = "unit" -> JZ
    [] p = "Uuid" -> JS("00000000-0000-0000-0000-000000000000")
    [] p = "NaiveDateTime" -> JS("2020-06-26T14:04:20")
    [] p = "DateTime" -> JS("2020-06-26T14:04:20Z")
    [] p = "NaiveDate" -> JS("2020-06-26")

\* A field whose type is overridden is written by a serializer of that type
ExplicitWire(ety) ==
  CASE ety = "string" -> JS("ov")
    [] ety = "integer" -> JN("7")
    [] ety = "number" -> JN("1.5")
    [] ety = "boolean" -> JB(TRUE)
    [] ety = "any" -> JA(<<JN("1"), JS("x")>>)

Omitted(f, j, fu) ==
  /\ f.skipif
  /\ CASE f.ty.t = "Option" -> NoneAt(j, fu)
       [] f.ty.t = "Vec" -> ListLen(f.ty, j, fu) = 0
       [] f.ty.t = "String" -> j % 3 = 0

RECURSIVE Wire(_, _, _, _), DeclWire(_, _, _, _)
FieldWire(E, f, j, fu) == IF IsSome(f.ety) THEN ExplicitWire(The(f.ety)) ELSE Wire(E, f.ty, j, fu)

FieldIdx(fields, j, fu) ==
  SelectSeq([i \in 1..Len(fields) |-> i], LAMBDA i : ~SerSkipped(fields[i]) /\ ~Omitted(fields[i], j + i - 1, fu))

StructWire(E, fields, rule, j, fu) ==
  LET idx == FieldIdx(fields, j, fu)
      names == [k \in 1..Len(idx) |-> FieldName(fields[idx[k]], rule)]
  IN [n \in SeqRange(names) |->
        LET k == CHOOSE x \in 1..Len(idx) : names[x] = n IN FieldWire(E, fields[idx[k]], j + idx[k] - 1, fu)]
TupleWire(E, fields, j, fu) ==
  LET idx == FieldIdx(fields, j, fu) IN JA([k \in 1..Len(idx) |-> FieldWire(E, fields[idx[k]], j + idx[k] - 1, fu)])

ContentWire(E, v, j, fu) ==
  CASE v.style = "newtype" -> FieldWire(E, v.fields[1], j, fu)
    [] v.style = "tuple" -> TupleWire(E, v.fields, j, fu)
    [] v.style = "struct" -> JO(StructWire(E, v.fields, v.rename_all, j, fu))
    [] v.style = "unit" -> JZ

DeclWire(E, d, j, fu) ==
  IF ~IsNewtype(d) /\ IsSome(d.c.ty) THEN ExplicitWire(The(d.c.ty))
  ELSE IF d.kind = "enum" THEN
    LET idx == SelectSeq([i \in 1..Len(d.variants) |-> i], LAMBDA i : ~SerSkipped(d.variants[i]))
        i == idx[(j % Len(idx)) + 1]
        v == d.variants[i]
        k == j \div Len(idx)
        name == VariantName(v, d.c.rename_all)
        body == ContentWire(E, v, k, fu)
    IN CASE EnumKind(d) = "repr" -> JN(ReprValue(d.variants, i))
         [] EnumKind(d) = "names" -> JS(name)
         [] EnumKind(d) = "external" -> IF v.style = "unit" THEN JS(name) ELSE JO(name :> body)
         [] EnumKind(d) = "untagged" -> body
         [] EnumKind(d) = "internal" ->
              JO((The(d.c.tag) :> JS(name)) @@ (IF v.style = "unit" THEN EmptyFn ELSE body.o))
         [] EnumKind(d) = "adjacent" ->
              JO((The(d.c.tag) :> JS(name)) @@ (IF v.style = "unit" THEN EmptyFn ELSE The(d.c.content) :> body))
  ELSE IF IsNewtype(d) THEN
    LET i == CHOOSE x \in 1..Len(d.fields) : d.fields[x] = InnerField(d)
        ety == OrElse(d.c.ty, d.fields[i].ety)
    IN IF IsSome(ety) THEN ExplicitWire(The(ety)) ELSE Wire(E, d.fields[i].ty, j + i - 1, fu)
  ELSE IF d.kind = "struct" THEN JO((IF IsNone(d.c.tag) THEN EmptyFn ELSE The(d.c.tag) :> JS(ContainerName(d))) @@ StructWire(E, d.fields, d.c.rename_all, j, fu))
  ELSE TupleWire(E, d.fields, j, fu)

Wire(E, T, j, fu) ==
  CASE T.t \in Pointers -> Wire(E, T.a[1], j, fu)
    [] T.t = "Option" -> IF NoneAt(j, fu) THEN JZ ELSE Wire(E, T.a[1], j \div 2, fu)
    [] T.t \in Lists -> JA([i \in 1..ListLen(T, j, fu) |-> Wire(E, T.a[1], j + i - 1, fu)])
    [] T.t = "Tuple" -> JA([i \in 1..Len(T.a) |-> Wire(E, T.a[i], j + i - 1, fu)])
    [] T.t \in Maps ->
         JO(IF MapLen(j, fu) = 0 THEN EmptyFn
            ELSE (IF T.t = "BTreeMapU32" THEN "0" ELSE "k0") :> Wire(E, T.a[1], j, fu))
    [] T.t = "decl" -> DeclWire(E, Instance(E[T.n], T.a), j, IF fu = 0 THEN 0 ELSE fu - 1)
    [] OTHER -> PrimWire(T.t, j)

SampleFuel == 3
Samples(E, T, n) == [j \in 1..n |-> Wire(E, T, j - 1, SampleFuel)]

=============================================================================
