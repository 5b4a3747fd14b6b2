------------------------------ MODULE Grammar ------------------------------
(* The grammar of Move as the editor has to understand it, written as data: every production is a sequence of
   symbols, and a symbol is
     <<"t",x>>  a punctuation token or a terminal class ($id, $int, ...)      <<"w",x>>  a fixed word which is an identifier
     <<"k",x>>  a word taken as a keyword                                     <<"g">>    no trivia here
     <<"N",kind,seq>>  a node of the tree                                     <<"alt",alts>>, <<"many",seq,sep,trail>>  choice, list
     <<"X",name>>      a production of `Prod`                                 <<"E",bp,r,l>>  an expression
   The machine is a leftmost derivation: `stack` is what is left to expand, `out` the linear form of tree and text
   produced so far.  A derived program comes with its tree; the parser has to agree with no complaint at all.

   Expressions are stratified by binding power bp, by what may stand at the right edge r
     "o" anything   "c" nothing that swallows what follows (lambda, return, ..)   "y" = c, but may end in a type
     "n" = c, and does not end in a path (left of `<`, which a path would take as its type arguments)
   and at the left edge l: "s" start of a statement, "f" not `..` or `spec`, "i" not a block, "p" not `if`, "b" not a label,
   "a" anything.  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Mode == IOEnv.MODE                   \* "file": random programs; "ops": operators exhaustively
Depth == atoi(IOEnv.DEPTH)           \* how deep choices may nest
Budget == atoi(IOEnv.BUDGET)         \* how many choices other than the smallest one a program may contain

VARIABLES stack, out, left, root
vars == <<stack, out, left, root>>

T(x) == <<"t", x>>
K(x) == <<"k", x>>
W(x) == <<"w", x>>
Glue == <<"g">>
N(kind, s) == <<"N", kind, s>>
Alt(a) == <<"alt", a>>
Opt(s) == Alt(<< <<>>, s >>)
X(x) == <<"X", x>>
E(bp, r, l) == <<"E", bp, r, l>>
Ex == E(1, "o", "a")
\* lists: Many0/1 with separator, trailing separator allowed or not
Many0(s, sep) == <<"many", s, sep, TRUE>>
Many1(s, sep) == Alt(<< s, s \o <<T(sep)>> \o s, s \o <<T(sep)>> \o s \o <<T(sep)>> \o s >>)
Comma1(s) == Alt(<< s, s \o <<T(",")>>, s \o <<T(",")>> \o s, s \o <<T(",")>> \o s \o <<T(",")>> >>)
Star(s) == Alt(<< <<>>, s, s \o s >>)

Id == T("$id")
Name == N("NAME", <<Id>>)
NameRef == N("NAME_REF", <<Id>>)
Int == T("$int")
IdPat == N("IDENT_PAT", <<Name>>)
Seg(s) == N("PATH_SEGMENT", s)
PId == N("PATH", <<Seg(<<NameRef>>)>>)
PAddr == N("PATH", <<Seg(<<N("PATH_ADDRESS", <<N("VALUE_ADDRESS", <<T("$addr")>>)>>)>>)>>)
PathExpr1 == N("PATH_EXPR", <<PId>>)
IntLit == N("LITERAL", <<Int>>)
Ability == N("ABILITY", <<W("$ability")>>)
Addr == Alt(<< <<N("NAMED_ADDRESS", <<Id>>)>>, <<N("VALUE_ADDRESS", <<T("$addr")>>)>> >>)

\* ------------------------------------------------------------------ expressions
Ops(level) ==
  CASE level = 1 -> <<"=", "+=", "-=", "*=", "/=", "|=", "^=", "&=", "%=", "<<=", ">>=", "==>", "<==>">>
    [] level = 4 -> <<"||">>      [] level = 5 -> <<"&&">>
    [] level = 6 -> <<"==", "!=", "<", ">", "<=", ">=">>
    [] level = 7 -> <<"|">>       [] level = 8 -> <<"^">>      [] level = 9 -> <<"&">>
    [] level = 10 -> <<"<<", ">>">>
    [] level = 11 -> <<"+", "-">> [] level = 12 -> <<"*", "/", "%">>
    [] OTHER -> <<>>
StartsLt == {"<", "<=", "<<", "<<=", "<==>"}

Body(r) == Alt(<< <<X("block")>>, <<N("INLINE_EXPR", <<E(1, r, "i")>>)>> >>)
Cond == N("CONDITION", <<T("("), Alt(<< <<Ex>>, <<N("BIN_EXPR", <<PathExpr1, T("<"), Alt(<< <<PathExpr1>>, <<IntLit>> >>)>>)>>,
                                         <<N("BIN_EXPR", <<N("BIN_EXPR", <<PathExpr1, T("<"), PathExpr1>>), T("&&"), E(6, "o", "a")>>)>> >>), T(")")>>)
SpecBlock == N("SPEC_BLOCK_EXPR", <<K("spec"), X("sblock")>>)
Label == N("LABEL", <<T("$label")>>)
LabelDecl == N("LABEL_DECL", <<T("$label"), T(":")>>)

\* one element lists, so that alternatives can be listed conditionally
When(c, alts) == IF c THEN alts ELSE <<>>

\* what may stand on the left of `op` of level L, in a place of binding power bp
LeftOf(op, L, bp, l) ==
  Alt(<< <<E(L, IF op = "<" THEN "n" ELSE IF L <= 2 /\ op \notin StartsLt THEN "y" ELSE "c", l)>> >>
      \o When(bp <= 2 /\ L > 2 /\ op \notin StartsLt, << <<N("CAST_EXPR", <<E(2, "y", l), K("as"), X("ty0")>>)>> >>)
      \o When(bp <= 2 /\ L > 2 /\ op \notin StartsLt \cup {"|"}, << <<N("IS_EXPR", <<E(2, "y", l), K("is"), X("ty0")>>)>> >>))

BinAlts(bp, r, l) ==
  LET Of(L) == [i \in 1..Len(Ops(L)) |-> <<N("BIN_EXPR", <<LeftOf(Ops(L)[i], L, bp, l), T(Ops(L)[i]), E(L + 1, r, "a")>>)>>]
      RECURSIVE From(_)
      From(L) == IF L > 12 THEN <<>> ELSE When(L >= bp, Of(L)) \o From(L + 1)
  IN From(1)

UnAlts(r, l) ==
  LET o == <<E(255, r, IF l = "s" THEN "s" ELSE "a")>> IN
  << <<N("BORROW_EXPR", <<T("&")>> \o o)>>, <<N("BORROW_EXPR", <<T("&"), K("mut")>> \o o)>>, <<N("DEREF_EXPR", <<T("*")>> \o o)>>,
     <<N("BANG_EXPR", <<T("!")>> \o o)>>, <<N("MINUS_EXPR", <<T("-")>> \o o)>>,
     <<N("RESOURCE_EXPR", <<K("copy")>> \o o)>>, <<N("RESOURCE_EXPR", <<K("move")>> \o o)>> >>

Args == N("VALUE_ARG_LIST", <<T("("), Many0(<<N("VALUE_ARG", <<Ex>>)>>, ","), T(")")>>)

Cats(bp, r, l) ==
  (IF r = "n" THEN <<"int">> ELSE <<"id">>)
  \o <<"lit", "paren", "post", "post", "lits">>
  \o When(r # "n", <<"path", "path">>)
  \o When(l \notin {"s", "p"}, <<"if">>) \o When(l \notin {"s", "i"}, <<"block">>)
  \o When(bp <= 255, <<"un">>)
  \o When(bp <= 12, <<"bin", "bin">>)
  \o When(bp <= 3, <<"range">>)
  \o When(bp <= 2 /\ r \in {"o", "y"}, <<"cast">>)
  \o When(r = "o", <<"jump">>)
  \o When(r = "o" /\ l # "s", <<"lambda", "quant">>)
  \o When(r = "o" /\ l \notin {"s", "p"}, <<"flow">>)

OpsCats(bp, r, l) ==
  (IF r = "n" THEN <<"int">> ELSE <<"id">>)
  \o When(bp <= 255, <<"un">>) \o When(bp <= 12, <<"bin">>) \o When(bp <= 3, <<"range">>) \o When(bp <= 2 /\ r \in {"o", "y"}, <<"cast">>)

QBindTyped == N("QUANT_BINDING", <<IdPat, T(":"), X("ty0")>>)
\* what the parser recovers at inside of bindings and weights keeps braces out of them
Plain == Alt(<< <<PathExpr1>>, <<IntLit>>, <<N("PAREN_EXPR", <<T("("), N("BIN_EXPR", <<PathExpr1, T("+"), IntLit>>), T(")")>>)>>,
                <<N("DOT_EXPR", <<PathExpr1, T("."), NameRef>>)>>, <<N("INDEX_EXPR", <<PathExpr1, T("["), PathExpr1, T("]")>>)>> >>)
PlainArgs == N("VALUE_ARG_LIST", <<T("("), Many0(<<N("VALUE_ARG", <<Plain>>)>>, ","), T(")")>>)
QBindIn == N("QUANT_BINDING", <<IdPat, K("in"), Alt(<< <<Plain>>, <<N("RANGE_EXPR", <<Plain, T(".."), Plain>>)>>, <<N("CALL_EXPR", <<PathExpr1, PlainArgs>>)>> >>)>>)
Weight == N("WEIGHT", <<T("["), K("weight"), T("="), Plain, T("]")>>)
Triggers == N("QUANT_TRIGGER_LIST", <<T("{"), Many0(<<Ex>>, ","), T("}")>>)
Where == N("WHERE_EXPR", <<K("where"), E(1, "c", "a")>>)
Bindings == Alt(<< <<N("QUANT_BINDING_LIST", <<QBindTyped>>), Opt(<<Triggers>>), Opt(<<Weight>>)>>,
                   <<N("QUANT_BINDING_LIST", <<QBindIn>>)>>,
                   <<N("QUANT_BINDING_LIST", <<QBindIn, T(","), QBindTyped>>), Opt(<<Triggers>>)>>,
                   <<N("QUANT_BINDING_LIST", <<QBindTyped, T(","), QBindIn>>)>> >>)
Quant(kind, kw) == N(kind, <<K(kw), Bindings, Opt(<<Where>>), T(":"), Ex>>)

TypeArgsE == N("TYPE_ARG_LIST", <<Alt(<< <<>>, <<T("::")>> >>), T("<"), Many1(<<N("TYPE_ARG", <<X("targ")>>)>>, ","), T(">")>>)
TypeArgsT == N("TYPE_ARG_LIST", <<T("<"), Comma1(<<N("TYPE_ARG", <<X("ty")>>)>>), T(">")>>)
MethodArgs == N("TYPE_ARG_LIST", <<Alt(<< <<Glue, T("<")>>, <<T("::"), T("<")>> >>), Many1(<<N("TYPE_ARG", <<X("targ")>>)>>, ","), T(">")>>)
PathMode(args) ==        \* a path, with type arguments of the given form
  Alt(<< <<PId>>, <<N("PATH", <<PId, T("::"), Seg(<<NameRef>>)>>)>>,
         <<N("PATH", <<PAddr, T("::"), Seg(<<NameRef>>)>>)>>,
         <<N("PATH", <<N("PATH", <<Alt(<< <<PId>>, <<PAddr>> >>), T("::"), Seg(<<NameRef>>)>>), T("::"), Seg(<<NameRef>>)>>)>> >>
      \o When(args # <<>>, << <<N("PATH", <<Seg(<<NameRef>> \o args)>>)>>,
         <<N("PATH", <<PId, T("::"), Seg(<<NameRef>> \o args)>>)>>,
         <<N("PATH", <<N("PATH", <<Seg(<<NameRef>> \o args)>>), T("::"), Seg(<<NameRef>>)>>)>> >>))
PathE == PathMode(<<TypeArgsE>>)
PathT == PathMode(<<TypeArgsT>>)
PathX == PathMode(<<N("TYPE_ARG_LIST", <<T("<"), Comma1(<<N("TYPE_ARG", <<X("targ")>>)>>), T(">")>>)>>)
Path0 == PathMode(<<>>)

StructLit == N("STRUCT_LIT", <<PathE, N("STRUCT_LIT_FIELD_LIST", <<T("{"),
  Many0(<<N("STRUCT_LIT_FIELD", <<Alt(<< <<PathExpr1>>, <<NameRef, T(":"), Ex>> >>)>>)>>, ","), T("}")>>)>>)

Arm(tail) == Alt(<< <<N("MATCH_ARM", <<X("pat"), Opt(<<N("MATCH_GUARD", <<K("if"), E(1, "y", "a")>>)>>), T("=>"), E(1, "o", "s")>> \o tail)>>,
                    <<N("MATCH_ARM", <<X("pat"), T("=>"), X("block")>> \o tail)>> >>)
BareArm == N("MATCH_ARM", <<IdPat, T("=>"), X("block")>>)
Match == N("MATCH_EXPR", <<K("match"), T("("), Ex, T(")"), N("MATCH_ARM_LIST", <<T("{"),
  Alt(<< <<>>, <<Arm(<<>>)>>, <<Arm(<<T(",")>>)>>, <<Arm(<<T(",")>>), Arm(<<>>)>>, <<BareArm, BareArm, N("MATCH_ARM", <<IdPat, T("=>"), E(1, "o", "s"), T(",")>>)>> >>), T("}")>>)>>)

\* expressions which look like blocks; `tail` is the kind of body that may come last
BlockLike(r, labels) ==
  LET L == IF labels THEN Opt(<<LabelDecl>>) ELSE Alt(<< <<>> >>) IN
  << <<X("block")>>,
     <<N("IF_EXPR", <<K("if"), Cond, X("block")>>)>>,
     <<N("IF_EXPR", <<K("if"), Cond, Body("c"), K("else"), Body(r)>>)>>,
     <<N("WHILE_EXPR", <<L, K("while"), Cond, Body(r)>>)>>,
     <<N("WHILE_EXPR", <<K("while"), Cond, Body("c"), SpecBlock>>)>>,
     <<N("LOOP_EXPR", <<L, K("loop"), Body(r)>>)>>,
     <<N("FOR_EXPR", <<L, K("for"), N("FOR_CONDITION", <<T("("), IdPat, K("in"), E(1, "y", "a"), Opt(<<SpecBlock>>), T(")")>>), Body(r)>>)>>,
     <<Match>> >>
BareBlockLike ==
  << <<X("block")>>,
     <<N("IF_EXPR", <<K("if"), Cond, X("block")>>)>>,
     <<N("IF_EXPR", <<K("if"), Cond, Body("c"), K("else"), X("block")>>)>>,
     <<N("WHILE_EXPR", <<K("while"), Cond, X("block"), Opt(<<SpecBlock>>)>>)>>,
     <<N("LOOP_EXPR", <<K("loop"), X("block")>>)>>,
     <<N("FOR_EXPR", <<K("for"), N("FOR_CONDITION", <<T("("), IdPat, K("in"), E(1, "y", "a"), T(")")>>), X("block")>>)>>,
     <<Match>> >>

\* two comparisons in a row look like type arguments
Lt == N("BIN_EXPR", <<Alt(<< <<E(6, "n", "a")>>, <<N("DOT_EXPR", <<PathExpr1, T("."), NameRef>>)>> >>), T("<"), Alt(<< <<PathExpr1>>, <<E(7, "c", "i")>> >>)>>)
Gt == N("BIN_EXPR", <<PathExpr1, T(">"), Alt(<< <<N("PAREN_EXPR", <<T("("), Ex, T(")")>>)>>, <<N("TUPLE_EXPR", <<T("("), Ex, T(","), Ex, T(")")>>)>>, <<E(7, "o", "a")>> >>)>>)
LtGt == Alt(<< <<N("TUPLE_EXPR", <<T("("), Lt, T(","), Gt, T(")")>>)>>,
               <<N("CALL_EXPR", <<PathExpr1, N("VALUE_ARG_LIST", <<T("("), N("VALUE_ARG", <<Lt>>), T(","), N("VALUE_ARG", <<Gt>>), T(")")>>)>>)>> >>)

CatAlts(cat, bp, r, l) ==
  CASE cat = "id" -> << <<PathExpr1>> >>
    [] cat = "int" -> << <<IntLit>> >>
    [] cat = "lit" -> << <<IntLit>>, <<N("LITERAL", <<K("true")>>)>>, <<N("LITERAL", <<K("false")>>)>>, <<N("LITERAL", <<T("$bytes")>>)>>,
                         <<N("LITERAL", <<T("$hex")>>)>>, <<N("LITERAL", <<N("ADDRESS_LIT", <<T("@"), Addr>>)>>)>> >>
    [] cat = "path" -> << <<N("PATH_EXPR", <<PathE>>)>> >>
    [] cat = "paren" -> << <<N("PAREN_EXPR", <<T("("), Ex, T(")")>>)>>, <<N("UNIT_EXPR", <<T("("), T(")")>>)>>,
                           <<N("TUPLE_EXPR", <<T("("), Ex, T(","), Ex, Opt(<<T(",")>>), T(")")>>)>>,
                           <<N("ANNOTATED_EXPR", <<T("("), Ex, T(":"), X("ty"), T(")")>>)>> >>
    [] cat = "lits" -> << <<N("VECTOR_LIT_EXPR", <<W("vector"), Opt(<<TypeArgsT>>), T("["), Many0(<<Ex>>, ","), T("]")>>)>>, <<StructLit>>, <<LtGt>> >>
                       \o When(l # "s", << <<N("ASSERT_MACRO_EXPR", <<W("$assert"), T("!"), Args>>)>> >>)
    [] cat = "post" -> << <<N("CALL_EXPR", <<Alt(<< <<N("PATH_EXPR", <<PathE>>)>>, <<E(257, "c", l)>> >>), Args>>)>>,
                          <<N("INDEX_EXPR", <<E(256, "c", l), T("["), Ex, T("]")>>)>>,
                          <<N("METHOD_CALL_EXPR", <<E(256, "c", l), T("."), NameRef, Opt(<<MethodArgs>>), Args>>)>> >>
                       \* (a field which is called would be a method)
                       \o When(bp < 257, << <<N("DOT_EXPR", <<E(256, "c", l), T("."), N("NAME_REF", <<Alt(<< <<Id>>, <<T("$idx")>> >>)>>)>>)>> >>)
    [] cat = "block" -> << <<X("block")>> >>
    [] cat = "if" -> << <<N("IF_EXPR", <<K("if"), Cond, X("block"), K("else"), X("block")>>)>> >>
    [] cat = "un" -> UnAlts(r, l)
    [] cat = "bin" -> BinAlts(bp, r, l)
    [] cat = "cast" -> << <<N("CAST_EXPR", <<E(2, "y", l), K("as"), X("ty0")>>)>>,
                          <<N("IS_EXPR", <<E(2, "y", l), K("is"), X("ty0")>>)>>,
                          <<N("IS_EXPR", <<E(2, "y", l), K("is"), X("ty0"), T("|"), X("ty0")>>)>> >>
    [] cat = "range" -> << <<N("RANGE_EXPR", <<E(3, "c", l), T(".."), E(4, r, "i")>>)>> >>
                       \o When(r = "o", << <<N("RANGE_EXPR", <<E(3, "c", l), T("..")>>)>> >>)
                       \o When(r = "o" /\ l = "a" /\ Mode # "ops", << <<N("RANGE_EXPR", <<T("..")>>)>>, <<N("RANGE_EXPR", <<T(".."), E(2, r, "i")>>)>> >>)
    [] cat = "jump" -> << <<N("RETURN_EXPR", <<K("return")>>)>>, <<N("RETURN_EXPR", <<K("return"), E(1, r, "f")>>)>>,
                          <<N("ABORT_EXPR", <<K("abort"), E(1, r, "f")>>)>>,
                          <<N("BREAK_EXPR", <<K("break"), Opt(<<Label>>), Opt(<<E(1, r, "b")>>)>>)>>,
                          <<N("CONTINUE_EXPR", <<K("continue"), Opt(<<Label>>)>>)>> >>
    [] cat = "lambda" -> LET ps == N("LAMBDA_PARAM_LIST", <<T("|"), Many0(<<N("LAMBDA_PARAM", <<Alt(<< <<IdPat>>, <<N("WILDCARD_PAT", <<K("_")>>)>>,
                                                                                           <<IdPat, T(":"), X("ty0")>> >>)>>)>>, ","), T("|")>>) IN
                         << <<N("LAMBDA_EXPR", <<ps, Ex>>)>>, <<N("LAMBDA_EXPR", <<ps, E(1, "c", "a"), SpecBlock>>)>> >>
    [] cat = "quant" -> << <<Quant("FORALL_EXPR", "forall")>>, <<Quant("EXISTS_EXPR", "exists")>>,
                           <<N("CHOOSE_EXPR", <<K("choose"), Opt(<<K("min")>>), Alt(<< <<QBindTyped>>, <<QBindIn>> >>), Opt(<<Where>>)>>)>> >>
    [] cat = "flow" -> IF l = "i" THEN Tail(BlockLike("o", TRUE)) ELSE BlockLike("o", l # "b")

\* ------------------------------------------------------------------ the other productions; the first alternative is the smallest
SFin == Alt(<< <<T(";")>> >>)
Props == N("SPEC_PREDICATE_PROPERTY_LIST", <<T("["), Comma1(<<N("SPEC_PREDICATE_PROPERTY", <<Id, Opt(<<T("="), N("LITERAL", <<Alt(<< <<Int>>, <<K("true")>> >>)>>)>>)>>)>>), T("]")>>)
\* (what is included is read as an expression first)
SchemaLit == N("SCHEMA_LIT", <<PathX, Opt(<<N("SCHEMA_LIT_FIELD_LIST", <<T("{"),
  Many0(<<N("SCHEMA_LIT_FIELD", <<Alt(<< <<PathExpr1>>, <<NameRef, T(":"), Ex>> >>)>>)>>, ","), T("}")>>)>>)>>)
Wild == N("WILDCARD_PATTERN", <<Opt(<<N("WILDCARD_PATTERN_MODIFIER", <<Alt(<< <<K("public")>>, <<K("internal")>> >>)>>)>>), T("$wild"), Opt(<<X("tparams")>>)>>)
Wilds == Many1(<<Wild>>, ",")
Behavior == N("BEHAVIOR_PREDICATE_EXPR", <<W("$behavior"), N("TYPE_ARG_LIST", <<T("<"), Many1(<<N("TYPE_ARG", <<X("targ")>>)>>, ","), T(">")>>), PlainArgs>>)
PEx == E(1, "y", "a")
SEx == Alt(<< <<E(1, "y", "a")>>, <<N("BIN_EXPR", <<Behavior, T("=="), E(7, "c", "a")>>)>>, <<Behavior>> >>)
ApplyLemma == N("APPLY_LEMMA", <<K("apply"), N("PATH_EXPR", <<PathE>>), Args, T(";")>>)

Predicates(Of) ==
  << <<N("SPEC_PREDICATE_STMT", <<K("$cond"), Opt(<<Props>>), Of, T(";")>>)>>,
     <<N("ABORTS_IF_STMT", <<K("aborts_if"), Opt(<<Props>>), Of, Opt(<<N("ABORTS_IF_WITH", <<K("with"), Of>>)>>), T(";")>>)>>,
     <<N("INVARIANT_STMT", <<K("invariant"), Opt(<<X("tparams")>>), Opt(<<K("update")>>), Opt(<<Props>>), Of, T(";")>>)>>,
     <<N("AXIOM_STMT", <<K("axiom"), Opt(<<X("tparams")>>), Opt(<<Props>>), Of, T(";")>>)>>,
     <<N("EMITS_STMT", <<K("emits"), Opt(<<Props>>), E(1, "y", "a"), K("to"), E(1, "y", "a"), Opt(<<N("EMITS_CONDITION", <<K("if"), E(1, "y", "a")>>)>>), T(";")>>)>> >>

LetStmt(post) == N("LET_STMT", <<K("let")>> \o post \o <<X("pat"), Opt(<<T(":"), X("ty")>>), Opt(<<T("="), Ex>>), T(";")>>)
UseStmt(attrs) == N("USE_STMT", attrs \o <<K("use"), X("speck"), T(";")>>)
ExprStmt == N("EXPR_STMT", <<E(1, "o", "s"), T(";")>>)
AssertStmt == N("EXPR_STMT", <<N("ASSERT_MACRO_EXPR", <<W("$assert"), T("!"), Args>>), T(";")>>)

FunSig(w) == <<K("fun"), Name, Opt(<<X("tparams")>>), X("params"), Opt(<<N("RET_TYPE", <<T(":"), X(IF w THEN "ty0" ELSE "ty")>>)>>)>>
             \o (IF w THEN <<Opt(<<Weight>>)>> ELSE <<Opt(<<N("ACQUIRES", <<K("acquires"), Many1(<<N("PATH_TYPE", <<PathT>>)>>, ",")>>)>>)>>)
Vis == Alt(<< <<N("VISIBILITY_MODIFIER", <<K("public")>>)>>,
              <<N("VISIBILITY_MODIFIER", <<K("public"), T("("), Alt(<< <<K("friend")>>, <<K("package")>>, <<K("script")>> >>), T(")")>>)>>,
              <<N("VISIBILITY_MODIFIER", <<K("package")>>)>>, <<N("VISIBILITY_MODIFIER", <<K("friend")>>)>> >>)
Abilities == N("ABILITY_LIST", <<K("has"), Many1(<<Ability>>, ",")>>)
NamedFields == N("NAMED_FIELD_LIST", <<T("{"), Many0(<<N("NAMED_FIELD", <<Name, T(":"), X("ty")>>)>>, ","), T("}")>>)
TupleFields == N("TUPLE_FIELD_LIST", <<T("("), Many0(<<N("TUPLE_FIELD", <<X("ty")>>)>>, ","), T(")")>>)
Proof == N("PROOF", <<K("proof"), X("pblock")>>)
Lemma == N("LEMMA", <<K("lemma"), Name, Opt(<<X("tparams")>>), X("params"), X("sblock"), Opt(<<Proof>>)>>)
AdtVis == Opt(<<Vis>>)
A == Star(<<X("attr")>>)
Variant(fields) == N("VARIANT", <<A, Name>> \o fields)

Items ==
  << <<N("CONST", <<A, AdtVis, K("const"), Name, T(":"), X("ty"), N("INITIALIZER", <<T("="), Ex>>), T(";")>>)>>,
     <<N("STRUCT", <<A, AdtVis, K("struct"), Name, Opt(<<X("tparams")>>),
         Alt(<< <<T(";")>>, <<Abilities, T(";")>>, <<NamedFields>>, <<Abilities, NamedFields>>, <<NamedFields, Abilities, T(";")>>,
                <<TupleFields, T(";")>>, <<TupleFields, Abilities, T(";")>> >>)>>)>>,
     <<N("ENUM", <<A, AdtVis, K("enum"), Name, Opt(<<X("tparams")>>), Opt(<<Abilities>>),
         N("VARIANT_LIST", <<T("{"), Star(<<Alt(<< <<Variant(<<>>), T(",")>>, <<Variant(<<NamedFields>>)>>, <<Variant(<<NamedFields>>), T(",")>>, <<Variant(<<TupleFields>>), T(",")>> >>)>>),
                             Opt(<<Variant(<<>>)>>), T("}")>>), Opt(<<Abilities, T(";")>>)>>)>>,
     <<N("FUN", <<A, Opt(<<Vis>>), Alt(<< <<>>, <<K("entry")>>, <<K("inline")>> >>)>> \o FunSig(FALSE) \o <<X("fblock")>>)>>,
     <<N("FUN", <<A, Opt(<<Vis>>), Alt(<< <<>>, <<K("entry")>>, <<K("inline")>> >>)>> \o FunSig(FALSE) \o <<X("fblock")>>)>>,
     <<N("FUN", <<A, Opt(<<Vis>>), K("native")>> \o FunSig(FALSE) \o <<T(";")>>)>>,
     <<UseStmt(<<A>>)>>,
     <<N("FRIEND", <<A, K("friend"), Path0, T(";")>>)>>,
     <<N("ITEM_SPEC", <<A, K("spec"), K("module"), X("sblock")>>)>>,
     <<N("ITEM_SPEC", <<A, K("spec"), N("ITEM_SPEC_REF", <<NameRef>>),
         Opt(<<N("ITEM_SPEC_TYPE_PARAM_LIST", <<T("<"), Comma1(<<N("ITEM_SPEC_TYPE_PARAM", <<Opt(<<K("phantom")>>), NameRef, Opt(<<T(":"), N("ABILITY_BOUND_LIST", <<Many1(<<Ability>>, "+")>>)>>)>>)>>), T(">")>>)>>),
         Opt(<<N("ITEM_SPEC_PARAM_LIST", <<T("("), Many0(<<N("ITEM_SPEC_PARAM", <<IdPat, T(":"), X("ty")>>)>>, ","), T(")")>>), Opt(<<N("RET_TYPE", <<T(":"), X("ty")>>)>>)>>),
         X("sblock"), Opt(<<Proof>>)>>)>>,
     <<N("SPEC_FUN", <<A, K("spec"), Opt(<<K("native")>>)>> \o FunSig(TRUE) \o <<Alt(<< <<X("sblock")>>, <<T(";")>> >>)>>)>>,
     <<N("SCHEMA", <<A, K("spec"), K("schema"), Name, Opt(<<X("tparams")>>), X("sblock")>>)>>,
     <<N("SPEC_LEMMA", <<A, K("spec"), Lemma>>)>> >>
ItemList == <<T("{"), Star(<<X("item")>>), T("}")>>
Module(head) == N("MODULE", <<A, K("module")>> \o head \o <<Name>> \o ItemList)

Prod(x) ==
  CASE x = "file" -> << <<N("SOURCE_FILE", <<Star(<<X("top")>>)>>)>> >>
    [] x = "item1" -> << <<N("SOURCE_FILE", <<N("MODULE", <<K("module"), N("VALUE_ADDRESS", <<T("$addr")>>), T("::"), Name, T("{"), X("item"), T("}")>>)>>)>> >>
    [] x = "fun1" -> << <<N("SOURCE_FILE", <<N("MODULE", <<K("module"), N("VALUE_ADDRESS", <<T("$addr")>>), T("::"), Name, T("{"),
                          N("FUN", <<K("fun"), Name, N("PARAM_LIST", <<T("("), T(")")>>), X("fblock")>>), T("}")>>)>>)>> >>
    [] x = "expr1" -> << <<N("SOURCE_FILE", <<N("MODULE", <<K("module"), N("VALUE_ADDRESS", <<T("$addr")>>), T("::"), Name, T("{"),
                          N("FUN", <<K("fun"), Name, N("PARAM_LIST", <<T("("), T(")")>>), N("BLOCK_EXPR", <<T("{"),
                             N("LET_STMT", <<K("let"), IdPat, T("="), Ex, T(";")>>), T("}")>>)>>), T("}")>>)>>)>> >>
    [] x = "spec1" -> << <<N("SOURCE_FILE", <<N("MODULE", <<K("module"), N("VALUE_ADDRESS", <<T("$addr")>>), T("::"), Name, T("{"),
                          N("ITEM_SPEC", <<K("spec"), N("ITEM_SPEC_REF", <<NameRef>>), X("sblock"), Opt(<<Proof>>)>>), T("}")>>)>>)>> >>
    [] x = "top" -> << <<Module(<<Addr, T("::")>>)>>,
                       <<N("SCRIPT", <<A, K("script")>> \o ItemList)>>,
                       <<N("MODULE_SPEC", <<A, K("spec"), Path0>> \o ItemList)>>,
                       <<N("ADDRESS_DEF", <<A, K("address"), Addr, T("{"), Star(<<Module(<<>>)>>), T("}")>>)>> >>
    [] x = "item" -> Items
    [] x = "attr" -> << <<N("ATTR", <<T("#"), T("["), Comma1(<<X("attritem")>>), T("]")>>)>> >>
    [] x = "attritem" -> << <<N("ATTR_ITEM", <<PId>>)>>, <<N("ATTR_ITEM", <<Path0, N("INITIALIZER", <<T("="), Ex>>)>>)>>,
                            <<N("ATTR_ITEM", <<Path0, N("ATTR_ITEM_LIST", <<T("("), Many0(<<X("attritem")>>, ","), T(")")>>)>>)>> >>
    [] x = "speck" -> << <<N("USE_SPECK", <<Path0>>)>>, <<N("USE_SPECK", <<Path0, N("USE_ALIAS", <<K("as"), Name>>)>>)>>,
                         <<N("USE_SPECK", <<Path0, T("::"), N("USE_GROUP", <<T("{"), Many0(<<X("speck1")>>, ","), T("}")>>)>>)>> >>
    [] x = "speck1" -> << <<N("USE_SPECK", <<PId>>)>>, <<N("USE_SPECK", <<PId, N("USE_ALIAS", <<K("as"), Name>>)>>)>>,
                          <<N("USE_SPECK", <<PId, T("::"), N("USE_GROUP", <<T("{"), Comma1(<<N("USE_SPECK", <<PId>>)>>), T("}")>>)>>)>> >>
    [] x = "params" -> << <<N("PARAM_LIST", <<T("("), T(")")>>)>>,
                          <<N("PARAM_LIST", <<T("("), Many0(<<N("PARAM", <<Alt(<< <<IdPat>>, <<N("WILDCARD_PAT", <<K("_")>>)>> >>), T(":"), X("ty")>>)>>, ","), T(")")>>)>> >>
    [] x = "tparams" -> << <<N("TYPE_PARAM_LIST", <<T("<"), Comma1(<<N("TYPE_PARAM", <<Opt(<<K("phantom")>>), Name,
                                Opt(<<N("ABILITY_BOUND_LIST", <<T(":"), Many1(<<Ability>>, "+")>>)>>)>>)>>), T(">")>>)>> >>
    [] x = "ty0" -> << <<N("PATH_TYPE", <<PId>>)>>, <<N("PATH_TYPE", <<PathT>>)>>, <<N("REF_TYPE", <<T("&"), X("ty0")>>)>>,
                       <<N("REF_TYPE", <<T("&"), K("mut"), X("ty0")>>)>>, <<N("UNIT_TYPE", <<T("("), T(")")>>)>>,
                       <<N("PAREN_TYPE", <<T("("), X("ty0"), T(")")>>)>>, <<N("TUPLE_TYPE", <<T("("), X("ty0"), T(","), T(")")>>)>>,
                       <<N("TUPLE_TYPE", <<T("("), X("ty0"), T(","), X("ty0"), Opt(<<T(",")>>), T(")")>>)>> >>
    \* what starts with a parenthesis is taken for an argument list after `<`
    [] x = "targ" -> << <<N("PATH_TYPE", <<PId>>)>>, <<N("PATH_TYPE", <<PathX>>)>>, <<N("REF_TYPE", <<T("&"), X("targ")>>)>>, <<N("REF_TYPE", <<T("&"), K("mut"), X("targ")>>)>> >>
    [] x = "ty" -> << <<N("PATH_TYPE", <<PId>>)>>, <<X("ty0")>>, <<X("ty0")>>,
                      <<N("LAMBDA_TYPE", <<T("|"), Many0(<<N("LAMBDA_TYPE_PARAM", <<X("ty0")>>)>>, ","), T("|"), Opt(<<X("ty0")>>),
                          Opt(<<N("LAMBDA_TYPE_ABILITY_LIST", <<K("has"), N("ABILITY_BOUND_LIST", <<Many1(<<Ability>>, "+")>>)>>)>>)>>)>> >>
    [] x = "litpat" -> << <<N("LITERAL_PAT", <<IntLit>>)>>, <<N("LITERAL_PAT", <<T("-"), IntLit>>)>>, <<N("LITERAL_PAT", <<N("LITERAL", <<K("true")>>)>>)>>,
                          <<N("LITERAL_PAT", <<N("LITERAL", <<T("$bytes")>>)>>)>>, <<N("LITERAL_PAT", <<N("LITERAL", <<N("ADDRESS_LIT", <<T("@"), Addr>>)>>)>>)>> >>
    \* tuples do not nest in Move
    [] x = "pat1" -> << <<IdPat>>, <<N("WILDCARD_PAT", <<K("_")>>)>>, <<X("litpat")>>,
                       <<N("RANGE_PAT", <<X("litpat"), T(".."), Opt(<<X("litpat")>>)>>)>>, <<N("RANGE_PAT", <<T(".."), X("litpat")>>)>>,
                       <<N("UNIT_PAT", <<T("("), T(")")>>)>>, <<N("PAREN_PAT", <<T("("), X("pat1"), T(")")>>)>>,
                       <<N("PATH_PAT", <<N("PATH", <<PathT, T("::"), Seg(<<NameRef>>)>>)>>)>>,
                       <<N("TUPLE_STRUCT_PAT", <<PathT, T("("), Many0(<<X("pat1")>>, ","), T(")")>>)>>,
                       <<N("TUPLE_STRUCT_PAT", <<PathT, T("("), X("pat1"), T(","), N("REST_PAT", <<T("..")>>), T(")")>>)>>,
                       <<N("STRUCT_PAT", <<PathT, N("STRUCT_PAT_FIELD_LIST", <<T("{"), Many0(<<X("fieldpat")>>, ","), T("}")>>)>>)>> >>
    [] x = "pat" -> << <<IdPat>>, <<X("pat1")>>, <<X("pat1")>>,
                       <<N("TUPLE_PAT", <<T("("), X("pat1"), T(","), Opt(<<X("pat1")>>), T(")")>>)>>,
                       <<N("TUPLE_PAT", <<T("("), X("pat1"), T(","), X("pat1"), T(","), X("pat1"), Opt(<<T(",")>>), T(")")>>)>>,
                       <<N("TUPLE_PAT", <<T("("), X("pat1"), T(","), N("REST_PAT", <<T("..")>>), T(")")>>)>> >>
    [] x = "fieldpat" -> << <<N("STRUCT_PAT_FIELD", <<IdPat>>)>>, <<N("STRUCT_PAT_FIELD", <<NameRef, T(":"), X("pat1")>>)>>,
                            <<N("STRUCT_PAT_FIELD", <<N("REST_PAT", <<T("..")>>)>>)>>, <<N("STRUCT_PAT_FIELD", <<N("WILDCARD_PAT", <<K("_")>>)>>)>> >>
    \* blocks: of a function, of any expression, of a specification, of a proof
    [] x = "fblock" -> << <<N("BLOCK_EXPR", <<T("{"), X("fstmts"), T("}")>>)>> >>
    [] x = "block" -> << <<N("BLOCK_EXPR", <<T("{"), X("stmts"), T("}")>>)>> >>
    [] x = "sblock" -> << <<N("BLOCK_EXPR", <<T("{"), X("sstmts"), T("}")>>)>> >>
    [] x = "pblock" -> << <<N("BLOCK_EXPR", <<T("{"), X("pstmts"), T("}")>>)>> >>
    [] x = "stmts" -> << <<>>, <<E(1, "o", "s")>>, <<Alt(BlockLike("o", TRUE))>>, <<X("stmt"), X("stmts")>>, <<X("stmt"), X("stmts")>>,
                         <<N("EXPR_STMT", <<Alt(BareBlockLike)>>), X("safe")>>,
                         <<N("EXPR_STMT", <<N("IF_EXPR", <<K("if"), Cond, X("block"), K("else"), N("INLINE_EXPR", <<N("IF_EXPR", <<K("if"), Cond, X("block"), K("else"), X("block")>>)>>)>>)>>), LetStmt(<<>>), X("stmts")>> >>
    [] x = "stmt" -> << <<LetStmt(<<>>)>>, <<LetStmt(<<>>)>>, <<ExprStmt>>, <<ExprStmt>>, <<N("EXPR_STMT", <<Alt(BlockLike("o", TRUE)), T(";")>>)>>, <<T(";")>> >>
    [] x = "safe" -> << <<LetStmt(<<>>)>>, <<LetStmt(<<>>), X("stmts")>>, <<N("EXPR_STMT", <<Alt(BareBlockLike)>>), X("safe")>>, <<Alt(BareBlockLike)>>,
                        <<N("EXPR_STMT", <<N("BIN_EXPR", <<PathExpr1, T("="), E(2, "o", "a")>>), T(";")>>), X("stmts")>>,
                        <<N("EXPR_STMT", <<N("BIN_EXPR", <<N("TUPLE_EXPR", <<T("("), PathExpr1, T(","), PathExpr1, T(")")>>), T("="), E(2, "o", "a")>>), T(";")>>), X("stmts")>> >>
    [] x = "fstmts" -> << <<X("stmts")>>, <<X("fstmt"), X("fstmts")>>, <<X("fstmt"), X("fstmts")>> >>
    [] x = "fstmt" -> << <<X("stmt")>>, <<X("stmt")>>, <<X("stmt")>>, <<AssertStmt>>, <<UseStmt(<<>>)>>, <<N("EXPR_STMT", <<SpecBlock, T(";")>>)>> >>
    [] x = "sstmts" -> << <<>>, <<X("sstmt"), X("sstmts")>>, <<X("sstmt"), X("sstmts")>>, <<E(1, "o", "s")>> >>
    [] x = "sstmt" -> << <<N("SPEC_PREDICATE_STMT", <<K("$cond"), Opt(<<Props>>), SEx, T(";")>>)>> >> \o Predicates(SEx) \o
         << <<N("ABORTS_WITH_STMT", <<K("aborts_with"), Opt(<<Props>>), Many1(<<E(1, "c", "a")>>, ","), T(";")>>)>>,
            <<LetStmt(<<>>)>>, <<LetStmt(<<K("post")>>)>>, <<UseStmt(<<>>)>>, <<ExprStmt>>,
            <<N("SPEC_INLINE_FUN", <<Opt(<<K("native")>>)>> \o FunSig(TRUE) \o <<Alt(<< <<T(";")>>, <<X("sblock")>> >>)>>)>>,
            <<Lemma>>,
            <<N("SCHEMA_FIELD", <<Opt(<<K("local")>>), IdPat, T(":"), X("ty"), T(";")>>)>>,
            <<N("GLOBAL_VARIABLE_DECL", <<K("global"), Name, Opt(<<X("tparams")>>), T(":"), X("ty"), Opt(<<T("="), Ex>>), T(";")>>)>>,
            <<N("PRAGMA_STMT", <<K("pragma"), Many1(<<N("PRAGMA_ATTR_ITEM", <<Alt(<< <<Id>>, <<W("friend")>> >>), Opt(<<T("="), E(1, "c", "a")>>)>>)>>, ","), T(";")>>)>>,
            <<N("UPDATE_STMT", <<K("update"), E(256, "c", "a"), T("="), Ex, T(";")>>)>>,
            <<N("INCLUDE_SCHEMA", <<K("include"), Opt(<<Props>>), Alt(<< <<N("SCHEMA_INCLUDE_EXPR", <<SchemaLit>>)>>,
                  <<N("AND_INCLUDE_EXPR", <<SchemaLit, T("&&"), SchemaLit>>)>>,
                  <<N("IMPLY_INCLUDE_EXPR", <<E(2, "y", "p"), T("==>"), SchemaLit>>)>>,
                  <<N("IF_ELSE_INCLUDE_EXPR", <<K("if"), Cond, SchemaLit, K("else"), SchemaLit>>)>> >>), T(";")>>)>>,
            <<N("APPLY_SCHEMA", <<K("apply"), SchemaLit, N("APPLY_TO", <<K("to"), Wilds>>), Opt(<<N("APPLY_EXCEPT", <<K("except"), Wilds>>)>>), T(";")>>)>> >>
    [] x = "pstmts" -> << <<>>, <<X("pstmt"), X("pstmts")>>, <<X("pstmt"), X("pstmts")>> >>
    [] x = "pstmt" -> << <<ApplyLemma>>, <<N("POST_STMT", <<K("post"), X("pstmt")>>)>>, <<N("SPLIT_STMT", <<K("split"), E(1, "y", "a"), T(";")>>)>>,
                         <<N("FORALL_APPLY_LEMMA", <<K("forall"), Bindings, ApplyLemma>>)>>, <<LetStmt(<<>>)>>, <<ExprStmt>> >> \o Predicates(PEx)

\* ------------------------------------------------------------------ the derivation
Deeper(s, d) == [i \in 1..Len(s) |-> <<s[i], d>>]

\* moves finished symbols from the stack to the output until a choice is on top
RECURSIVE Flush(_, _)
Flush(st, o) ==
  IF st = <<>> THEN <<st, o>>
  ELSE LET s == Head(st)[1]
           d == Head(st)[2]
       IN CASE s[1] = "t" -> Flush(Tail(st), Append(o, "=" \o s[2]))
            [] s[1] = "w" -> Flush(Tail(st), Append(o, "=" \o s[2]))
            [] s[1] = "k" -> Flush(Tail(st), Append(o, "~" \o s[2]))
            [] s[1] = "g" -> Flush(Tail(st), Append(o, "^"))
            [] s[1] = "c" -> Flush(Tail(st), Append(o, ">"))
            [] s[1] = "N" -> Flush(Deeper(s[3], d) \o << <<<<"c">>, d>> >> \o Tail(st), Append(o, "<" \o s[2]))
            [] OTHER -> <<st, o>>

AltsOf(s) ==
  CASE s[1] = "alt" -> s[2]
    [] s[1] = "X" -> Prod(s[2])
    [] s[1] = "many" -> << <<>>, s[2], s[2] \o <<T(s[3])>>, s[2] \o <<T(s[3])>> \o s[2], s[2] \o <<T(s[3])>> \o s[2] \o <<T(s[3])>> \o s[2] \o <<T(s[3])>> >>
    [] s[1] = "E" -> LET c == IF Mode = "ops" THEN OpsCats(s[2], s[3], s[4]) ELSE Cats(s[2], s[3], s[4]) IN
                     [i \in 1..Len(c) |-> << <<"C", c[i], s[2], s[3], s[4]>> >>]
    [] s[1] = "C" -> CatAlts(s[2], s[3], s[4], s[5])

Pick(k) ==
  LET s == Head(stack)[1]
      d == Head(stack)[2]
      a == AltsOf(s)
      cost == IF k > 1 THEN 1 ELSE 0
      d2 == IF s[1] \in {"X", "E"} /\ d > 0 THEN d - 1 ELSE d
      fo == Flush(Deeper(a[k], d2) \o Tail(stack), out)
  IN stack' = fo[1] /\ out' = fo[2] /\ left' = left - cost /\ UNCHANGED root

\* which alternatives are open: when depth or budget is used up only the smallest
Open == LET s == Head(stack)[1] IN
        IF (Head(stack)[2] = 0 \/ left = 0) /\ s[1] # "C" THEN {1}
        ELSE IF left = 0 THEN {1} ELSE 1..Len(AltsOf(s))

Roots == {"file", "item1", "item1", "fun1", "expr1", "spec1"}
Init == /\ root \in (IF Mode = "ops" THEN {"expr1"} ELSE Roots)
        /\ LET f == Flush(Deeper(<<X(root)>>, Depth), <<>>) IN stack = f[1] /\ out = f[2]
        /\ left = Budget
Next == stack # <<>> /\ IF Mode = "ops" THEN \E k \in Open : Pick(k) ELSE \E k \in {RandomElement(Open)} : Pick(k)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ what the derivation keeps to
BudgetKept == left >= 0
Emit == stack # <<>> \/ PrintT(ToJson([o |-> out, root |-> root]))
=============================================================================
