----------------------------- MODULE OpgStrings -----------------------------
(***************************************************************************)
(* Strings, options and the eight serde renaming rules.                    *)
(*                                                                         *)
(* TLC treats strings as sequences, so "ab" \o "c", Len and SubSeq work.   *)
(* An optional value is a sequence of length zero or one.                  *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets, TLC

None == <<>>
Some(x) == <<x>>
IsSome(o) == Len(o) = 1
IsNone(o) == Len(o) = 0
The(o) == o[1]
OrElse(a, b) == IF IsSome(a) THEN a ELSE b

LowerChars == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o",
                "p","q","r","s","t","u","v","w","x","y","z">>
UpperChars == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O",
                "P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerSet == {LowerChars[i] : i \in 1..26}
UpperSet == {UpperChars[i] : i \in 1..26}
\* Uppercase letters of the identifiers used that are not ASCII: they start a word but are never converted
OtherUpper == {"É", "Ω", "Ж"}
ToUpper == [c \in LowerSet |-> UpperChars[CHOOSE i \in 1..26 : LowerChars[i] = c]]
ToLower == [c \in UpperSet |-> LowerChars[CHOOSE i \in 1..26 : UpperChars[i] = c]]

Chr(s, i) == SubSeq(s, i, i)
UpC(c) == IF c \in LowerSet THEN ToUpper[c] ELSE c
LoC(c) == IF c \in UpperSet THEN ToLower[c] ELSE c

RECURSIVE MapFrom(_, _, _)
MapFrom(F(_), s, i) == IF i > Len(s) THEN "" ELSE F(Chr(s, i)) \o MapFrom(F, s, i + 1)
Upper(s) == MapFrom(UpC, s, 1)
Lower(s) == MapFrom(LoC, s, 1)
UnderToDash(s) == LET F(c) == IF c = "_" THEN "-" ELSE c IN MapFrom(F, s, 1)
Decap(s) == LoC(Chr(s, 1)) \o SubSeq(s, 2, Len(s))

\* VeryTasty -> very_tasty
RECURSIVE SnakeFrom(_, _)
SnakeFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Chr(s, i) IN
       (IF i > 1 /\ c \in UpperSet \cup OtherUpper THEN "_" ELSE "") \o LoC(c) \o SnakeFrom(s, i + 1)
VariantSnake(s) == SnakeFrom(s, 1)

\* very_tasty -> VeryTasty
RECURSIVE PascalFrom(_, _, _)
PascalFrom(s, i, cap) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Chr(s, i) IN
       IF c = "_" THEN PascalFrom(s, i + 1, TRUE)
       ELSE (IF cap THEN UpC(c) ELSE c) \o PascalFrom(s, i + 1, FALSE)
FieldPascal(s) == PascalFrom(s, 1, TRUE)

Rules == {"lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case",
          "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"}

RenameVariant(rule, s) ==
  CASE rule = "none" -> s
    [] rule = "PascalCase" -> s
    [] rule = "lowercase" -> Lower(s)
    [] rule = "UPPERCASE" -> Upper(s)
    [] rule = "camelCase" -> Decap(s)
    [] rule = "snake_case" -> VariantSnake(s)
    [] rule = "SCREAMING_SNAKE_CASE" -> Upper(VariantSnake(s))
    [] rule = "kebab-case" -> UnderToDash(VariantSnake(s))
    [] rule = "SCREAMING-KEBAB-CASE" -> UnderToDash(Upper(VariantSnake(s)))

RenameField(rule, s) ==
  CASE rule = "none" -> s
    [] rule = "lowercase" -> s
    [] rule = "snake_case" -> s
    [] rule = "UPPERCASE" -> Upper(s)
    [] rule = "PascalCase" -> FieldPascal(s)
    [] rule = "camelCase" -> Decap(FieldPascal(s))
    [] rule = "SCREAMING_SNAKE_CASE" -> Upper(s)
    [] rule = "kebab-case" -> UnderToDash(s)
    [] rule = "SCREAMING-KEBAB-CASE" -> UnderToDash(Upper(s))

=============================================================================
