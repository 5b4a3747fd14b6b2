------------------------------- MODULE Types -------------------------------
(* The typing rules of Move, as a machine which writes well-typed programs.
   The state holds what is still to be written, as a stack: tokens, expressions of a given type, statements, and the
   opening and closing of scopes.  Every step takes the top of the stack; an expression is replaced by one of the forms
   which have its type, with the types which that form asks of its parts.  So every expression of the finished program
   comes with its type, and no diagnostic may complain about any.  A behaviour may make one mistake on purpose: where
   the type of an expression is prescribed it writes one of another type, and then exactly this has to be reported. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES dec,   \* the declarations: types of fields, signatures, constants
          work,  \* what is still to be written
          env,   \* the variables in scope, innermost last
          sc,    \* for every open scope how many variables there were before it
          ret,   \* the return type of the function being written; << >> in a lambda
          out,   \* what has been written
          wr,    \* whether a mistake is to be made: "no", "todo", "done"
          nx     \* a counter of steps
vars == <<dec, work, env, sc, ret, out, wr, nx>>

Rnd(S) == IF nx >= 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
Chance(k) == Rnd(1..k) = 1
Range(s) == {s[i] : i \in DOMAIN s}

\* ------------------------------------------------------------------ types: <<head, argument types...>>
Unsigned == {<<"u8">>, <<"u16">>, <<"u64">>, <<"u128">>}
Signed == {<<"i8">>, <<"i64">>}
Ints == Unsigned \cup Signed
Bool == <<"bool">>
Addr == <<"address">>
U8 == <<"u8">>
U64 == <<"u64">>
Vec(t) == <<"vector", t>>
Ref(t) == <<"&", t>>
Mut(t) == <<"&mut", t>>
Bytes == Vec(U8)
Base == Ints \cup {Bool, Addr, Bytes}
T == <<"$T">>
W == <<"$U">>
S0 == <<"S0">>
S1 == <<"S1">>
TS == <<"TS">>
E == <<"E">>
Heads == {"S0", "S1", "TS", "E", "B", "D", "PB", "O"}
IsRef(t) == t[1] \in {"&", "&mut"}
Sig == Ref(<<"signer">>)
IsData(t) == ~IsRef(t) /\ t[1] \notin {"tuple", "()", "signer", "fn"}
RECURSIVE DataOf(_)
DataOf(k) ==
  LET c == IF k = 0 THEN Rnd(1..3) ELSE Rnd(1..9)
  IN CASE c <= 3 -> Rnd(Base)
       [] c = 4 -> Vec(DataOf(k - 1))
       [] c = 5 -> <<Rnd({"B", "PB", "O"}), DataOf(k - 1)>>
       [] c = 6 -> <<"D", DataOf(k - 1), DataOf(k - 1)>>
       [] OTHER -> Rnd({S0, S1, TS, E})
TypeOf(k) == LET c == Rnd(1..8) IN IF c = 1 THEN Ref(DataOf(k)) ELSE IF c = 2 THEN Mut(DataOf(k)) ELSE IF c = 3 THEN <<"T">> ELSE DataOf(k)
RECURSIVE Sub(_, _)
Sub(t, m) == IF t[1] \in DOMAIN m THEN m[t[1]] ELSE <<t[1]>> \o [i \in 1..(Len(t) - 1) |-> Sub(t[i + 1], m)]
RECURSIVE Match(_, _)
Match(p, t) ==
  IF p[1] \in {"$T", "$U"} THEN IF IsData(t) THEN {<<p[1], t>>} ELSE {<<"no", t>>}
  ELSE IF p[1] # t[1] \/ Len(p) # Len(t) THEN {<<"no", t>>}
  ELSE UNION {Match(p[i], t[i]) : i \in 2..Len(p)}
Fits(m) == \A x \in m : x[1] # "no" /\ \A y \in m : x[1] = y[1] => x[2] = y[2]
RECURSIVE Params(_)
Params(t) == IF t[1] \in {"$T", "$U"} THEN {t[1]} ELSE UNION {Params(t[i]) : i \in 2..Len(t)}
\* whether a value of type `a` may be used where one of type `e` is prescribed
RECURSIVE Compat(_, _)
Compat(e, a) == \/ e = a
                \/ Len(e) = Len(a) /\ Len(e) > 1 /\ (e[1] = a[1] \/ (e[1] = "&" /\ a[1] = "&mut")) /\ \A i \in 2..Len(e) : Compat(e[i], a[i])

\* ------------------------------------------------------------------ declarations
Fun(n, ps, r) == [n |-> n, ps |-> ps, r |-> r, key |-> FALSE, tps |-> UNION ({Params(r)} \cup {Params(p) : p \in Range(ps)})]
Key(n, ps, r) == [Fun(n, ps, r) EXCEPT !.key = TRUE, !.tps = {"$T"}]
Some == Rnd(Base)
Declare ==
  [st |-> [S0 |-> [tps |-> <<>>, pos |-> FALSE, fs |-> <<<<"f0", Some>>, <<"f1", Rnd({Some, Vec(Some), TS})>>>>],
           S1 |-> [tps |-> <<>>, pos |-> FALSE, fs |-> <<<<"f1", Some>>, <<"f0", S0>>>>],
           B |-> [tps |-> <<"$T">>, pos |-> FALSE, fs |-> <<<<"v", T>>, <<"f0", Some>>>>],
           D |-> [tps |-> <<"$T", "$U">>, pos |-> FALSE, fs |-> <<<<"v", W>>, <<"f1", Rnd({T, Vec(T), <<"B", T>>})>>>>],
           TS |-> [tps |-> <<>>, pos |-> TRUE, fs |-> <<<<"0", Some>>, <<"1", Some>>>>],
           PB |-> [tps |-> <<"$T">>, pos |-> TRUE, fs |-> <<<<"0", T>>>>]],
   en |-> [E |-> [tps |-> <<>>, vs |-> <<[n |-> "V0", pos |-> FALSE, fs |-> <<>>],
                                       [n |-> "V1", pos |-> FALSE, fs |-> <<<<"f0", Some>>, <<"f1", Rnd({Some, S0})>>>>],
                                       [n |-> "V2", pos |-> TRUE, fs |-> <<<<"0", Some>>, <<"1", Some>>>>]>>],
           O |-> [tps |-> <<"$T">>, vs |-> <<[n |-> "No", pos |-> FALSE, fs |-> <<>>],
                                            [n |-> "So", pos |-> TRUE, fs |-> <<<<"0", T>>>>],
                                            [n |-> "Na", pos |-> FALSE, fs |-> <<<<"f0", Vec(T)>>, <<"v", T>>>>]>>]],
   cs |-> <<[n |-> "C0", t |-> Some], [n |-> "C1", t |-> Some], [n |-> "C2", t |-> Rnd(Ints)]>>,
   fs |-> <<Fun("p0", <<Some, DataOf(1)>>, DataOf(1)), Fun("p1", <<Ref(DataOf(1))>>, DataOf(2)), Fun("p2", <<Mut(S0), Some>>, Mut(Some)),
            Fun("p3", <<>>, <<"tuple", Some, DataOf(1)>>), Fun("p4", <<S1, Sig>>, S0), Fun("p5", <<DataOf(1)>>, Bool),
            Fun("q0", <<T>>, T), Fun("q1", <<Ref(T)>>, T), Fun("q2", <<T, Vec(T)>>, <<"B", T>>), Fun("q3", <<T, W>>, <<"D", T, W>>),
            Fun("q4", <<<<"D", T, W>>>>, <<"tuple", W, T>>), Fun("q5", <<<<"B", T>>, Some>>, <<"O", T>>), Fun("q6", <<Mut(Vec(T))>>, Mut(T)),
            Fun("q7", <<Some>>, Vec(T)), Fun("q8", <<Ref(<<"O", T>>), T, <<"PB", W>>>>, W),
            Fun("std::vector::length", <<Ref(Vec(T))>>, U64), Fun("std::vector::borrow", <<Ref(Vec(T)), U64>>, Ref(T)),
            Fun("std::vector::borrow_mut", <<Mut(Vec(T)), U64>>, Mut(T)),
            Fun("n::h0", <<Some>>, DataOf(1)), Fun("n::h1", <<Ref(S1), Some>>, TS), Fun("n::h2", <<T, Some>>, <<"PB", T>>),
            Key("exists", <<Addr>>, Bool), Key("move_from", <<Addr>>, T), Key("borrow_global", <<Addr>>, Ref(T)),
            Key("borrow_global_mut", <<Addr>>, Mut(T)), Fun("freeze", <<Mut(T)>>, Ref(T))>>,
   ms |-> <<Fun("get", <<Ref(S0), Some>>, Some), Fun("put", <<Mut(S0)>>, Mut(Some)), Fun("take", <<S0, Ref(Some)>>, DataOf(1)),
            Fun("get", <<Ref(<<"B", T>>)>>, Ref(T)), Fun("take", <<<<"B", T>>, T>>, <<"D", T, T>>), Fun("put", <<Mut(<<"B", T>>), W>>, W),
            Fun("get", <<Ref(S1)>>, Some), Fun("get", <<Ref(E), Some>>, DataOf(1)), Fun("take", <<<<"O", T>>>>, T),
            Fun("length", <<Ref(Vec(T))>>, U64), Fun("borrow", <<Ref(Vec(T)), U64>>, Ref(T)), Fun("borrow_mut", <<Mut(Vec(T)), U64>>, Mut(T)),
            Fun("pop_back", <<Mut(Vec(T))>>, T), Fun("contains", <<Ref(Vec(T)), Ref(T)>>, Bool)>>,
   \* functions whose first parameter is `self`, as they are called through their path
   ss |-> <<Fun("u0", <<Ref(S0), Some>>, Some), Fun("u1", <<<<"B", T>>, T>>, Vec(T)), Fun("u2", <<Mut(<<"PB", T>>)>>, Mut(T)), Fun("n::u3", <<Ref(S1)>>, DataOf(1)),
            Fun("n::u4", <<<<"O", T>>, W>>, <<"D", T, W>>), Fun("u5", <<Mut(E), U64>>, Rnd(Ints)), Fun("u6", <<S0>>, Ref(Some)),
            Fun("std::vector::pop_back", <<Mut(Vec(T))>>, T), Fun("std::vector::contains", <<Ref(Vec(T)), Ref(T)>>, Bool)>>,
   hi |-> [a |-> Rnd(Base), r |-> Rnd(Base), b |-> Rnd(Base)],
   ps |-> <<[n |-> "p", t |-> <<"T">>], [n |-> "g", t |-> <<"fn", Some, Some, Rnd({Some, S0, Bool})>>], [n |-> "s", t |-> Sig], [n |-> "x", t |-> DataOf(1)], [n |-> "y", t |-> TypeOf(1)],
            [n |-> "v", t |-> Rnd({Ref(S0), Mut(S0), Ref(S1), Mut(E), E, Ref(<<"B", <<"T">>>>), Mut(Vec(<<"T">>)), Ref(<<"O", U8>>)})]>>,
   r |-> IF Chance(5) THEN <<"tuple", Some, DataOf(1)>> ELSE TypeOf(2)]
Consts(t) == {c.n : c \in {c \in Range(dec.cs) : c.t = t}}
             \cup (IF t = U8 THEN {"MAX_U8"} ELSE IF t = U64 THEN {"MAX_U64"} ELSE IF t = <<"i8">> THEN {"MIN_I8"} ELSE {})
TpMap(tps, t) == [v \in Range(tps) |-> t[1 + (CHOOSE i \in DOMAIN tps : tps[i] = v)]]

\* ------------------------------------------------------------------ variables
Seen(n) == LET w == {i \in DOMAIN env : env[i].n = n} IN IF w = {} THEN <<"?">> ELSE env[CHOOSE i \in w : \A j \in w : j <= i].t
IdOf(n) == env[CHOOSE i \in DOMAIN env : env[i].n = n /\ \A j \in DOMAIN env : env[j].n = n => j <= i].id
Names == {env[i].n : i \in DOMAIN env}
Vars(t) == {n \in Names : Seen(n) = t}
Calls(t) == {n \in Names : Seen(n)[1] = "fn" /\ Seen(n)[Len(Seen(n))] = t}
Local == Rnd({"x", "y", "f0", "f1", "v"})

\* ------------------------------------------------------------------ what can be on the stack
K(s) == [k |-> "t", x |-> s]                         \* a token
Ty(t) == [k |-> "t", x |-> <<":", t>>]               \* a type
Open(t) == [k |-> "t", x |-> <<"<", t>>]             \* from here to its Close there is an expression of this type
Close == [k |-> "t", x |-> <<">">>]
Bad(kind, a, b) == [k |-> "t", x |-> <<"!", kind, a, b>>]  \* from here to its Done there is the mistake
Done == [k |-> "t", x |-> <<"?">>]
Push == [k |-> "push"]
Pop == [k |-> "pop"]
\* a variable, and the name by which it is introduced; `j` tells apart what is introduced in one step
Bind(n, t, j) == [k |-> "bind", n |-> n, t |-> t, id |-> <<nx, j>>]
New(n, j) == [k |-> "t", x |-> <<"b", <<nx, j>>, n>>]
NewParam(n, j) == [k |-> "t", x |-> <<"b", <<nx, j>>, n, "param">>]
Use(n) == [k |-> "u", x |-> <<"u", n>>]
\* what can be written in a shorter way stands between Hint and Hinted; Old is there only before that is done, Plus only
\* afterwards.  From Recv to Recvd there is the receiver: if it is a borrow, the borrow goes.  Vb marks the calls of
\* vector::borrow: `*` and such a call together are an index expression.
\* (a dot behind a token: without a space in front of it, as `<` has to be where there is no `::`)
Hint(j, kind) == [k |-> "t", x |-> <<"~", <<nx, j>>, kind>>]
Hinted == [k |-> "t", x |-> <<"~~">>]
Old(j, s) == [k |-> "t", x |-> <<"-", <<<<nx, j>>>>, s>>]
Old2(j, s) == [k |-> "t", x |-> <<"-", <<<<nx, j>>, <<nx, j + 1>>>>, s>>]
OldUse(j, n) == [k |-> "u", x |-> <<"-u", <<<<nx, j>>>>, n>>]
Plus(j, s) == [k |-> "t", x |-> <<"+", <<nx, j>>, s>>]
Recv(j) == [k |-> "t", x |-> <<"^", <<<<nx, j>>, <<nx, j + 1>>>>>>]
Recvd(j) == [k |-> "t", x |-> <<"^^", <<nx, j>>>>]
Vb(j) == [k |-> "t", x |-> <<"v", <<nx, j>>>>]
Ret(t) == [k |-> "ret", t |-> t]
\* an expression: its type, how deep it may be, whether what is around says its type (so literals need no suffix),
\* whether what is around prescribes its type, whether it has to be in parentheses if it is made of parts
G(t, d, p, c, a) == [k |-> "g", t |-> t, d |-> d, p |-> p, c |-> c, a |-> a]
Ex(t, d, p) == G(t, d, p, FALSE, FALSE)
At(t, d, p) == G(t, d, p, FALSE, TRUE)
Ck(t, d) == G(t, d, TRUE, TRUE, FALSE)
CkA(t, d) == G(t, d, TRUE, TRUE, TRUE)
Sts(m, d) == [k |-> "ss", m |-> m, d |-> d]
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
List(s) == Join([i \in DOMAIN s |-> <<s[i]>>], <<K(",")>>)
Comma == <<K(",")>>
Lower(d) == IF d > 0 THEN d - 1 ELSE 0

\* ------------------------------------------------------------------ expressions
LitOf(t, p) ==
  LET n == Rnd({"0", "1", "7", "0x1f", "1_0"})
  IN CASE t \in Ints -> IF p /\ Chance(2) THEN n ELSE (IF t = <<"u8">> \/ n # "0x1f" THEN n ELSE "2") \o t[1]
       [] t = Bool -> Rnd({"true", "false"})
       [] t = Addr -> Rnd({"@0x1", "@0x5", "@std"})
       [] t = Bytes -> Rnd({"b\"ab\"", "x\"00\""})
HasLit(t) == t \in Base
\* a list of values for fields or parameters of types `ts`, where `m` says what type parameters stand for
Known(p, u) == Params(u) = {} \/ p
Plain(u) == Params(u) = {}
Field(n, u, m, d, p, c, fs1) ==
  LET t == Sub(u, m)
  IN IF n \in Vars(t) /\ ~Chance(3) THEN <<Use(n)>>
     ELSE IF c /\ wr = "todo" /\ n = "f0" /\ n \in Names /\ Seen(n)[1] \notin {"?", "fn"} /\ ~Compat(t, Seen(n)) /\ Plain(u) /\ Chance(3)
          THEN <<[k |-> "wr"], Bad("is", Seen(n), t), Use(n), Done>>
     ELSE <<Hint(IF n = fs1 THEN 1 ELSE 2, "lit"), K(n), Old(IF n = fs1 THEN 1 ELSE 2, ":")>>
          \o (IF n \in Vars(t) /\ Chance(2) THEN <<OldUse(IF n = fs1 THEN 1 ELSE 2, n)>> ELSE <<G(t, d, Known(p, u), c /\ Plain(u), FALSE)>>) \o <<Hinted>>
Fields(fs, pos, m, d, p, c) ==
  IF pos THEN <<K("(")>> \o Join([i \in DOMAIN fs |-> <<G(Sub(fs[i][2], m), d, Known(p, fs[i][2]), c /\ Plain(fs[i][2]), FALSE)>>], Comma) \o <<K(")")>>
  ELSE IF fs = <<>> THEN <<>>
  ELSE <<K("{")>> \o Join([i \in DOMAIN fs |-> LET j == IF Len(fs) = 2 /\ nx % 2 = 0 THEN 3 - i ELSE i IN Field(fs[j][1], fs[j][2], m, d, p, c, fs[1][1])], Comma) \o <<K("}")>>
TArgs(tps, m) == <<K("<")>> \o Join([i \in DOMAIN tps |-> <<Ty(m[tps[i]])>>], Comma) \o <<K(">")>>
TpSeq(s) == IF s = {} THEN <<>> ELSE IF s = {"$T"} THEN <<"$T">> ELSE IF s = {"$U"} THEN <<"$U">> ELSE <<"$T", "$U">>
Pack(t, d, p, flat) ==
  IF t[1] \in DOMAIN dec.st
  THEN LET s == dec.st[t[1]]
           m == TpMap(s.tps, t)
           x == s.tps # <<>> /\ (Chance(3) \/ flat)
       IN <<K(t[1])>> \o (IF x THEN TArgs(s.tps, m) ELSE <<>>) \o Fields(s.fs, s.pos, m, d, p \/ x, ~flat)
  ELSE LET s == dec.en[t[1]]
           v == s.vs[IF s.tps # <<>> /\ ~p THEN Rnd(2..3) ELSE Rnd(1..Len(s.vs))]
       IN <<K(t[1]), K("::"), K(v.n)>> \o Fields(v.fs, v.pos, TpMap(s.tps, t), d, p, ~flat)
Callable(fs, t) == {i \in DOMAIN fs : LET m == Match(fs[i].r, t) IN Fits(m) /\ (fs[i].key => \A x \in m : x[2][1] \in Heads)}
MapOf(f, m) ==
  LET other == DataOf(1)
      keyed == Rnd({S0, S1, E, TS})
  IN [v \in f.tps |-> IF \E x \in m : x[1] = v THEN (CHOOSE x \in m : x[1] = v)[2] ELSE IF f.key THEN keyed ELSE other]
Args(ps, m, d, p, r, x) ==
  Join([i \in DOMAIN ps |-> <<G(Sub(ps[i], m), d, x \/ Plain(ps[i]) \/ (p /\ Params(ps[i]) \subseteq Params(r)), x \/ Plain(ps[i]), FALSE)>>], Comma)
SelfFuns == {"std::vector::length", "std::vector::borrow", "std::vector::borrow_mut"} \cup {f.n : f \in Range(dec.ss)}
NameOf(n) == IF n = "n::u3" THEN "u3" ELSE IF n = "n::u4" THEN "u4" ELSE IF n = "std::vector::length" THEN "length" ELSE IF n = "std::vector::borrow" THEN "borrow"
             ELSE IF n = "std::vector::borrow_mut" THEN "borrow_mut" ELSE IF n = "std::vector::pop_back" THEN "pop_back" ELSE IF n = "std::vector::contains" THEN "contains" ELSE n
CallOf(fs, i, t, d, p) ==
  LET f == fs[i]
      m == MapOf(f, Match(f.r, t))
      needs == f.key \/ ~(f.tps \subseteq UNION {Params(q) : q \in Range(f.ps)}) \/ f.n = "q8"
      x == f.tps # {} /\ (needs \/ Chance(3))
      targs == IF x THEN TArgs(TpSeq(f.tps), m) ELSE <<>>
      vb == f.n = "std::vector::borrow"
      u == Sub(f.ps[1], m)
      v == f.ps[1]
      refs == IF IsRef(u) THEN Vars(u) \cup Vars(Mut(u[2])) ELSE {}
      a0 == <<Recv(1)>> \o (IF refs # {} /\ Chance(2) THEN LET n == Rnd(refs) IN <<Open(u), K(IF u[1] = "&" THEN "&" ELSE "&mut "), Open(u[2]), K("*"), Open(Seen(n)), Use(n), Close, Close, Close>>
                            ELSE IF IsRef(u) /\ Chance(2) THEN <<Open(u), K(IF u[1] = "&" THEN "&" ELSE "&mut "), At(u[2], d, FALSE), Close>>
                            ELSE <<G(u, d, FALSE, x \/ Plain(v), FALSE)>>) \o <<Recvd(1)>>
      \* the function in front of its first argument
      self == (IF vb THEN <<Vb(2)>> ELSE <<>>) \o (IF ret = <<>> THEN <<>> ELSE <<Hint(1, "meth")>>)
              \o (IF x THEN <<Old2(1, f.n)>> \o [q \in DOMAIN targs |-> Old2(1, targs[q].x)] ELSE <<Old2(1, f.n)>>) \o <<Old2(1, "(")>> \o a0
              \o <<Plus(1, "."), Plus(1, NameOf(f.n))>> \o (IF x THEN <<Plus(1, "::")>> \o [q \in DOMAIN targs |-> Plus(1, targs[q].x)] ELSE <<>>) \o <<Plus(1, "(")>>
              \o (IF Len(f.ps) = 1 THEN <<>> ELSE <<Old2(1, ","), Plus(2, "[")>> \o (IF vb THEN <<G(U64, d, FALSE, TRUE, FALSE)>> ELSE Args(Tail(f.ps), m, d, p, f.r, x)))
              \o (IF vb THEN <<Old(2, ")"), Plus(2, "]")>> ELSE <<K(")")>>) \o (IF ret = <<>> THEN <<>> ELSE <<Hinted>>)
      res == LET r == IF f.n = "borrow_global" THEN "&" ELSE "&mut "
             IN <<Hint(1, "res"), Plus(1, r), Old(1, f.n), Old(1, "<"), Ty(m["$T"]), Old(1, ">"), Old(1, "("), Plus(1, "[")>> \o Args(f.ps, m, d, p, f.r, x) \o <<Old(1, ")"), Plus(1, "]"), Hinted>>
  IN IF f.n \in SelfFuns THEN self
     ELSE IF f.n \in {"borrow_global", "borrow_global_mut"} THEN res
     ELSE <<K(f.n)>> \o targs \o <<K("(")>> \o Args(f.ps, m, d, p, f.r, x) \o <<K(")")>>
\* what a method can be called on
Self(t) ==
  IF t[1] = "&" THEN {t, Mut(t[2]), t[2]} ELSE IF t[1] = "&mut" THEN {t, t[2]} ELSE {t}
MethOf(i, t, d) ==
  LET f == dec.ms[i]
      m == MapOf(f, Match(f.r, t))
      own == Params(f.ps[1])
      x == f.tps # {} /\ Chance(5)
      vb == f.n = "borrow"
      targs == IF ~x THEN <<>>
               ELSE LET w == Chance(4)
                        a == <<K(IF w THEN "<" ELSE "<.")>> \o Tail(TArgs(TpSeq(f.tps), m))
                        b == IF vb THEN [q \in DOMAIN a |-> Old(2, a[q].x)] ELSE a
                        c == [k |-> "t", x |-> <<"-", IF vb THEN <<<<nx, 1>>, <<nx, 2>>>> ELSE <<<<nx, 1>>>>, IF w THEN "::" ELSE "::.">>]
                    IN IF w \/ Chance(2) THEN <<Hint(1, "turbo"), c, Hinted>> \o b ELSE b
  IN (IF vb THEN <<Vb(2)>> ELSE <<>>) \o <<At(Rnd(Self(Sub(f.ps[1], m))), d, FALSE)>>
     \o (IF vb THEN <<Old(2, "."), Old(2, f.n)>> ELSE <<K("."), K(f.n)>>) \o targs \o (IF vb THEN <<Old(2, "("), Plus(2, "[")>> ELSE <<K("(")>>)
     \o Join([j \in 1..(Len(f.ps) - 1) |-> LET u == f.ps[j + 1] IN <<G(Sub(u, m), d, ~vb /\ (x \/ Params(u) \subseteq own), x \/ Params(u) \subseteq own, FALSE)>>], Comma)
     \o (IF vb THEN <<Old(2, ")"), Plus(2, "]")>> ELSE <<K(")")>>)
\* patterns for the fields of a value: the tokens and the variables
Through(r, t) == IF r = "" THEN t ELSE <<r, t>>
FieldPat(n, t, pos, j) ==
  LET l == Local
      c == IF pos THEN Rnd(2..3) ELSE Rnd(1..3)
  IN CASE c = 1 -> [ts |-> <<[k |-> "t", x |-> <<"b", <<nx, j>>, n, "short">>]>>, bs |-> <<Bind(n, t, j)>>]
       [] c = 2 -> [ts |-> IF pos THEN <<New(l, j)>> ELSE IF l = n THEN <<Hint(j, "pat"), Old(j, n), Old(j, ":"), New(l, j), Hinted>> ELSE <<K(n), K(":"), New(l, j)>>,
                    bs |-> <<Bind(l, t, j)>>]
       [] OTHER -> [ts |-> (IF pos THEN <<>> ELSE <<K(n), K(":")>>) \o <<K("_")>>, bs |-> <<>>]
FieldPats(fs, pos, m, r, q) ==
  IF fs = <<>> THEN [ts |-> <<>>, bs |-> <<>>]
  ELSE LET p1 == FieldPat(fs[1][1], Through(r, Sub(fs[1][2], m)), pos, q + 1)
           p2 == IF Len(fs) = 2 THEN FieldPat(fs[2][1], Through(r, Sub(fs[2][2], m)), pos, q + 2) ELSE [ts |-> <<>>, bs |-> <<>>]
           two == Len(fs) = 2
           \* a name can be bound only once in a pattern
           clash == two /\ p1.bs # <<>> /\ p2.bs # <<>> /\ p1.bs[1].n = p2.bs[1].n
           c == IF ~two THEN 1 ELSE IF clash THEN Rnd({2, 3}) ELSE Rnd({2, 3, 4, 4, 5, 6})
           ts == CASE c = 1 -> p1.ts
                   [] c = 2 -> p1.ts \o <<K(","), K("..")>>
                   [] c = 3 -> IF pos THEN <<K(".."), K(",")>> \o p2.ts ELSE p2.ts \o <<K(","), K("..")>>
                   [] OTHER -> p1.ts \o <<K(",")>> \o p2.ts
           bs == CASE c \in {1, 2} -> p1.bs [] c = 3 -> p2.bs [] OTHER -> p1.bs \o p2.bs
       IN [ts |-> IF pos THEN <<K("(")>> \o ts \o <<K(")")>> ELSE <<K("{")>> \o ts \o <<K("}")>>, bs |-> bs]
Code == IF wr = "todo" /\ Chance(8) THEN LET w == Rnd({Bool, Addr, S0, U8, <<"i64">>}) IN <<[k |-> "wr"], Bad("any", w, w), Ex(w, -1, FALSE), Done>>
        ELSE IF Chance(3) THEN <<K("1")>> ELSE <<Ex(Rnd({U64, Bytes}), 0, FALSE)>>
Never == Rnd({<<K("abort")>> \o Code, <<K("abort"), K("1")>>} \cup (IF ret = <<>> THEN {} ELSE {<<K("return"), Ck(ret, 0)>>}))
Arm(pat, guard, body) == <<Push>> \o pat.ts \o pat.bs \o (IF guard THEN <<K("if"), K("("), Ex(Bool, 0, TRUE), K(")")>> ELSE <<>>) \o <<K("=>")>> \o body \o <<K(","), Pop>>
Mutable(t) == t[1] = "&" /\ t # Sig
MatchOf(t, d, p) ==
  LET c == Rnd(1..3)
      h == Rnd({"E", "O"})
      st == IF c = 3 THEN Rnd(Ints) ELSE IF h = "E" THEN E ELSE <<"O", DataOf(0)>>
      r == Rnd({"", "", "&", "&mut"})
      s == dec.en[h]
      m == TpMap(s.tps, st)
      weak == IF ~p /\ Mutable(t) /\ Chance(2) THEN Rnd(1..2) ELSE 0
      body(i) == IF i = 3 /\ Chance(4) THEN Never ELSE IF i = weak THEN <<Ex(Mut(t[2]), 0, FALSE)>> ELSE <<Ex(t, d, p \/ (i > 1 /\ weak # 1))>>
      wild == [ts |-> <<K("_")>>, bs |-> <<>>]
      bound == LET l == Local IN [ts |-> <<New(l, 1)>>, bs |-> <<Bind(l, st, 1)>>]
      enum(i) == LET v == s.vs[i]
                     f == FieldPats(v.fs, v.pos, m, r, 10 * i)
                 IN [ts |-> <<K(h), K("::"), K(v.n)>> \o f.ts, bs |-> f.bs]
      lit == IF wr = "todo" /\ Chance(4) THEN <<[k |-> "wr"], Bad("is", Bool, st), K("true"), Done>> ELSE <<K(LitOf(st, TRUE))>>
  IN IF c = 3
     THEN <<K("match"), K("("), Ex(st, d, FALSE), K(")"), K("{")>> \o Arm([ts |-> lit, bs |-> <<>>], Chance(5), body(1))
          \o Arm(IF Chance(2) THEN wild ELSE bound, FALSE, body(2)) \o <<K("}")>>
     ELSE <<K("match"), K("("), Ex(Through(r, st), d, FALSE), K(")"), K("{")>> \o Arm(enum(1), FALSE, body(1)) \o Arm(enum(2), Chance(5), body(2))
          \o Arm(IF Chance(3) THEN wild ELSE enum(3), FALSE, body(3)) \o <<K("}")>>
\* in which structs there is a field of this type: the struct, the field, what the type parameters stand for
Fielded(h) ==
  IF h \in DOMAIN dec.st THEN dec.st[h]
  ELSE [dec.en[h] EXCEPT !.tps = @] @@ [fs |-> dec.en[h].vs[IF h = "E" THEN 2 ELSE 3].fs \o dec.en[h].vs[IF h = "E" THEN 3 ELSE 2].fs]
FieldsOf(t) ==
  {<<h, i>> \in Heads \X (1..4) : i <= Len(Fielded(h).fs) /\ Fits(Match(Fielded(h).fs[i][2], t))}
FieldOf(x, t, d) ==
  LET s == Fielded(x[1])
      m == Match(s.fs[x[2]][2], t)
      a == [i \in DOMAIN s.tps |-> IF \E y \in m : y[1] = s.tps[i] THEN (CHOOSE y \in m : y[1] = s.tps[i])[2] ELSE DataOf(0)]
      st == <<x[1]>> \o a
  IN <<At(Rnd({st, Ref(st), Mut(st)}), d, FALSE), K("."), K(s.fs[x[2]][1])>>
\* a type a value of which cannot be used where one of type `t` is prescribed
Wrongs(t) == {w \in Base \cup {S0, S1, TS, E, Ref(Bool), Mut(U64)} \cup {Seen(n) : n \in Names} : w[1] \notin {"?", "fn"} /\ ~Compat(t, w)}
Others(t) == {w \in Base \cup {S0, S1, TS, E} : w # t}
Slip(k) == wr = "todo" /\ Chance(k)
Two(t, d, p) == IF p THEN <<TRUE, TRUE>> ELSE IF Chance(2) THEN <<FALSE, TRUE>> ELSE <<TRUE, FALSE>>

Flats(t, neg) ==
  (IF Vars(t) # {} THEN {"var"} ELSE {}) \cup (IF Consts(t) # {} THEN {"con"} ELSE {}) \cup (IF HasLit(t) THEN {"lit"} ELSE {})
  \cup (IF t[1] \in Heads THEN {"pack"} ELSE {}) \cup (IF IsRef(t) /\ t # Sig THEN {"bor"} ELSE {})
  \cup (IF t[1] = "vector" /\ t # Bytes THEN {"evec"} ELSE {}) \cup (IF t[1] = "tuple" THEN {"tup"} ELSE {})
Deeps(t) ==
  {"if", "blk", "match", "annot"} \cup (IF Calls(t) # {} THEN {"fcall"} ELSE {}) \cup (IF Vars(t) # {} THEN {"cvar"} ELSE {})
  \cup (IF t[1] \in {"S0", "B", "D", "E"} THEN {"res"} ELSE {}) \cup (IF Callable(dec.fs, t) # {} THEN {"call", "call2"} ELSE {}) \cup (IF Callable(dec.ss, t) # {} THEN {"smeth"} ELSE {})
  \cup (IF Callable(dec.ms, t) # {} THEN {"meth"} ELSE {})
  \cup (IF IsRef(t) /\ t # Sig THEN {"bor"} ELSE {}) \cup (IF t[1] = "tuple" THEN {"tup"} ELSE {"paren"})
  \cup (IF IsData(t) THEN {"deref", "index", "index2", "lam"} \cup (IF FieldsOf(t) # {} THEN {"field", "field2"} ELSE {}) ELSE {})
  \cup (IF t \in Ints THEN {"arith", "arith2", "bit", "shift", "cast"} ELSE {}) \cup (IF t \in Signed THEN {"neg"} ELSE {})
  \cup (IF t[1] = "vector" THEN {"vec"} ELSE {}) \cup (IF t[1] \in Heads THEN {"pack"} ELSE {})
  \cup (IF t = Bool THEN {"not", "logic", "eq", "eq2", "ord", "is"} ELSE {})
  \cup (IF t = dec.hi.r THEN {"hi"} ELSE {})
Atomic == {"var", "fcall", "res", "con", "lit", "pack", "evec", "vec", "tup", "call", "call2", "smeth", "meth", "field", "field2", "index", "index2", "paren", "annot", "cast", "hi", "lam"}
Body(prod, t, d, p, flat) ==
  LET e == Lower(d)
      two == Two(t, d, p)
  IN
  CASE prod = "var" -> <<Use(Rnd(Vars(t)))>>
    [] prod = "cvar" -> <<K(Rnd({"copy", "move"})), Use(Rnd(Vars(t)))>>
    [] prod = "fcall" -> LET n == Rnd(Calls(t))
                             f == Seen(n)
                         IN <<Use(n), K("(")>> \o List([i \in 1..(Len(f) - 2) |-> Ck(f[i + 1], e)]) \o <<K(")")>>
    [] prod = "res" -> <<K(t[1])>> \o (IF Len(t) = 1 THEN <<>> ELSE <<K("<")>> \o List([i \in 1..(Len(t) - 1) |-> Ty(t[i + 1])]) \o <<K(">")>>)
                       \o <<K("["), Ck(Addr, e), K("]")>>
    [] prod = "con" -> <<K(Rnd(Consts(t)))>>
    [] prod = "lit" -> <<K(LitOf(t, p /\ ~flat))>>
    [] prod = "pack" -> Pack(t, e, p, flat)
    [] prod = "bor" -> IF Slip(20) /\ p /\ ~flat
                       THEN LET w == Rnd({Ref(Bool), Mut(U64)}) IN <<[k |-> "wr"], K(IF t[1] = "&" THEN "&" ELSE "&mut "), Bad("borrow", w, w), G(w, -1, FALSE, FALSE, TRUE), Done>>
                       ELSE <<K(IF t[1] = "&" THEN "&" ELSE "&mut "), IF flat THEN G(t[2], -1, FALSE, FALSE, TRUE) ELSE At(t[2], e, p)>>
    [] prod = "evec" -> <<K("vector"), K("<"), Ty(t[2]), K(">"), K("["), K("]")>>
    [] prod = "vec" -> LET n == Rnd(1..3) IN
                       IF Chance(3) THEN <<K("vector"), K("<"), Ty(t[2]), K(">"), K("[")>> \o List([i \in 1..n |-> Ck(t[2], e)]) \o <<K("]")>>
                       ELSE <<K("vector"), K("[")>> \o List([i \in 1..n |-> Ex(t[2], e, p \/ i > 1)]) \o <<K("]")>>
    [] prod = "tup" -> <<K("(")>> \o List([i \in 1..(Len(t) - 1) |-> Ex(t[i + 1], e, p)]) \o <<K(")")>>
    [] prod = "paren" -> <<K("("), Ex(t, e, p), K(")")>>
    [] prod = "annot" -> <<K("("), Ex(t, e, TRUE), K(":"), Ty(t), K(")")>>
    [] prod = "if" -> LET c == Rnd(1..6)
                          \* one of the branches may be a mutable reference where the whole is not
                          weak == IF c > 3 /\ ~p /\ Mutable(t) /\ Chance(2) THEN Rnd(1..2) ELSE 0
                          ex(q, i) == IF i = weak THEN Ex(Mut(t[2]), 0, FALSE) ELSE Ex(t, e, IF weak # 0 THEN p ELSE q)
                          br(q, i) == IF c = 1 THEN <<ex(q, i)>> ELSE <<K("{"), Push, Sts(Rnd(0..1), e), ex(q, i), Pop, K("}")>>
                          nv == <<K("{")>> \o Never \o <<K("}")>>
                      IN <<K("if"), K("("), Ck(Bool, e), K(")")>>
                         \o (IF c = 2 THEN nv ELSE br(IF c = 3 THEN p ELSE two[1], 1)) \o <<K("else")>> \o (IF c = 3 THEN nv ELSE br(IF c = 2 THEN p ELSE two[2], 2))
    [] prod = "blk" -> LET l == Local IN
                       IF Chance(2) THEN <<K("{"), Push, Sts(Rnd(0..2), e), Ex(t, e, p), Pop, K("}")>>
                       ELSE <<K("{"), Push, Sts(Rnd(0..1), e), K("let"), New(l, 1), K("="), Ex(t, e, FALSE), K(";"), Bind(l, t, 1), Ex(t, 0, p), Pop, K("}")>>
    [] prod = "match" -> MatchOf(t, e, p)
    [] prod \in {"call", "call2"} -> CallOf(dec.fs, Rnd(Callable(dec.fs, t)), t, e, p)
    [] prod = "smeth" -> CallOf(dec.ss, Rnd(Callable(dec.ss, t)), t, e, p)
    [] prod = "meth" -> MethOf(Rnd(Callable(dec.ms, t)), t, e)
    [] prod \in {"field", "field2"} -> FieldOf(Rnd(FieldsOf(t)), t, e)
    [] prod = "deref" -> IF p /\ Slip(20) THEN LET w == Rnd(Others(t)) IN <<[k |-> "wr"], K("*"), Bad("deref", w, w), G(w, -1, FALSE, FALSE, TRUE), Done>>
                         ELSE <<Hint(5, "index"), Old(5, "*")>> \o (IF Chance(3) THEN <<Open(Ref(t))>> \o CallOf(dec.fs, CHOOSE i \in DOMAIN dec.fs : dec.fs[i].n = "std::vector::borrow", Ref(t), e, FALSE) \o <<Close>>
                                                                        ELSE <<At(Rnd({Ref(t), Mut(t)}), e, FALSE)>>) \o <<Hinted>>
    [] prod \in {"index", "index2"} ->
         <<At(Rnd({Vec(t), Vec(t), Ref(Vec(t))}), e, FALSE), K("[")>>
         \o (IF Slip(10) THEN LET w == Rnd(Others(U64) \ Ints) IN <<[k |-> "wr"], Bad("is", w, <<"integer">>), Ex(w, -1, FALSE), Done>>
             ELSE IF Chance(2) THEN <<K(Rnd({"0", "1"}))>> ELSE <<Ex(Rnd(Unsigned), e, FALSE)>>) \o <<K("]")>>
    [] prod = "cast" -> LET u == Rnd(Ints \cup {t})
                        IN IF u = t /\ Chance(2) THEN <<K("("), At(t, e, FALSE), Hint(1, "cast"), Old(1, "as"), Old(1, <<":", t>>), Hinted, K(")")>>
                           ELSE IF u = t THEN <<K("("), At(t, e, FALSE), Hint(1, "cast"), Old(1, "as"), Old(1, <<":", t>>), Hinted, K(Rnd({"+", "*"})), At(t, e, TRUE), K(")")>>
                           ELSE <<K("("), At(u, e, FALSE), K("as"), Ty(t), K(")")>>
    [] prod \in {"arith", "arith2"} ->
         LET op == Rnd({"+", "-", "*", "/", "%"})
             w == Rnd(Others(t) \ Ints)
             i == Rnd(Ints \ {t})
             c == Rnd(1..3)
         IN IF p /\ Slip(12)
            THEN CASE c = 1 -> <<[k |-> "wr"], Bad("op", <<op>>, w), G(w, -1, FALSE, FALSE, TRUE), Done, K(op), At(t, 0, FALSE)>>
                   [] c = 2 -> <<[k |-> "wr"], At(t, 0, FALSE), K(op), Bad("op", <<op>>, w), G(w, -1, FALSE, FALSE, TRUE), Done>>
                   [] OTHER -> <<[k |-> "wr"], [k |-> "t", x |-> <<"!", "abin", t, i, op>>], G(t, -1, FALSE, FALSE, TRUE), K(op), G(i, -1, FALSE, FALSE, TRUE), Done>>
            ELSE <<At(t, e, two[1]), K(op), At(t, e, two[2])>>
    [] prod = "bit" -> <<At(t, e, FALSE), K(Rnd({"&", "|", "^"})), CkA(t, e)>>
    [] prod = "shift" -> <<At(t, e, FALSE), K(Rnd({"<<", ">>"})), CkA(U8, e)>>
    [] prod = "neg" -> <<K("-"), At(t, e, FALSE)>>
    [] prod = "not" -> <<K("!"), At(Bool, e, TRUE)>>
    [] prod = "logic" -> <<CkA(Bool, e), K(Rnd({"&&", "||"})), CkA(Bool, e)>>
    [] prod \in {"eq", "eq2"} ->
         LET u == IF Chance(4) THEN Rnd({Ref(DataOf(1)), Mut(DataOf(0)), <<"T">>}) ELSE DataOf(1)
             w == Rnd(Others(u))
             q == Two(u, e, FALSE)
             op == Rnd({"==", "!="})
         IN IF Slip(8) THEN <<[k |-> "wr"], [k |-> "t", x |-> <<"!", "bin", u, w, op>>], G(u, -1, FALSE, FALSE, TRUE), K(op), G(w, -1, FALSE, FALSE, TRUE), Done>>
            ELSE <<At(u, e, q[1]), K(op), At(u, e, q[2])>>
    [] prod = "ord" -> LET u == Rnd(Ints) IN <<At(u, e, FALSE), K(Rnd({"<=", ">", ">="})), CkA(u, e)>>
    [] prod = "is" -> <<At(Rnd({E, Ref(E)}), e, FALSE), K("is"), K("E"), K("::"), K(Rnd({"V0", "V1", "V2"}))>>
    [] prod = "hi" -> LET l == Local IN
                      <<K("hi"), K("("), K("|"), NewParam(l, 1)>> \o (IF Chance(3) THEN <<K(":"), Ty(dec.hi.a)>> ELSE <<>>) \o
                      <<K("|"), Push, Ret(<<>>), Bind(l, dec.hi.a, 1), Ex(t, e, FALSE), Ret(ret), Pop, K(","), Ck(dec.hi.b, e), K(")")>>
    [] prod = "lam" -> LET l == Local
                           u == DataOf(1)
                       IN <<K("ap"), K("("), Ex(u, e, FALSE), K(","), K("|"), NewParam(l, 1), K(":"), Ty(u), K("|"), Push, Ret(<<>>), Bind(l, u, 1), Ex(t, e, FALSE), Ret(ret), Pop, K(")")>>
Expand(g) ==
  IF g.c /\ wr = "todo" /\ Wrongs(g.t) # {} /\ Chance(10)
  THEN LET w == Rnd(Wrongs(g.t)) IN [w |-> "done", s |-> <<Bad("is", w, g.t), G(w, -1, FALSE, FALSE, g.a), Done>>]
  ELSE LET flat == g.d = -1
           deep == g.d > 0 /\ ~Chance(4)
           fl == Flats(g.t, flat)
           ok == IF flat /\ "var" \in fl /\ (fl = {"var"} \/ Chance(2)) THEN {"var"} ELSE fl
           prod == IF deep THEN Rnd(Deeps(g.t)) ELSE Rnd(ok)
           b == <<Open(g.t)>> \o Body(prod, g.t, g.d, g.p, flat) \o <<Close>>
           w == IF \E i \in DOMAIN b : b[i].k = "wr" THEN "done" ELSE wr
           par == g.a /\ prod \notin Atomic
       IN [w |-> w, s |-> IF par THEN <<Open(g.t), K("(")>> \o b \o <<K(")"), Close>> ELSE b]

\* ------------------------------------------------------------------ statements
\* a number in parentheses, so that it is not a shorter way to write the assignment (this is what "selfop" is for)
Whole(g) == IF g.t \in Ints THEN <<K("("), [g EXCEPT !.c = FALSE], K(")")>> ELSE <<g>>
Kinds == {"let", "let2", "let3", "ann", "ann2", "tup", "pack", "late", "asg", "tasg", "sasg", "aeq", "letlam", "dasg", "fasg", "comp", "selfop", "if", "while", "loop", "for", "assert", "ret", "call", "match", "push", "move"}
Places(t) == Vars(t)
Owned == {n \in Names : Seen(n)[1] \notin {"?", "tuple", "fn"}}
Block(m, d) == <<K("{"), Push, Sts(m, d), Pop, K("}")>>
Stmt(kind, d) ==
  LET l == Local
      l2 == Local
      t == TypeOf(2)
      e == Lower(d)
  IN
  CASE kind \in {"let", "let2", "let3"} -> <<K("let"), New(l, 1), K("="), Ex(t, d, FALSE), K(";"), Bind(l, t, 1)>>
    [] kind \in {"ann", "ann2"} -> <<K("let"), New(l, 1), K(":"), Ty(t), K("="), Ck(t, d), K(";"), Bind(l, t, 1)>>
    [] kind = "tup" -> LET u == DataOf(1)
                           m == IF l = l2 THEN "_" ELSE l2
                       IN IF Slip(8) THEN LET w == Rnd(Base) IN <<[k |-> "wr"], K("let"), Bad("tuple", w, w), K("("), New(l, 1), K(","), K("_"), K(")"), Done, K("="), Ex(w, -1, FALSE), K(";"), Bind(l, <<"?">>, 1)>>
                          ELSE <<K("let"), K("("), New(l, 1), K(","), IF m = "_" THEN K(m) ELSE New(m, 2), K(")"), K("="), Ex(<<"tuple", t, u>>, d, FALSE), K(";"), Bind(l, t, 1)>> \o (IF m = "_" THEN <<>> ELSE <<Bind(m, u, 2)>>)
    [] kind = "pack" -> LET h == Rnd({"S0", "S1", "B", "D", "TS", "PB"})
                            s == dec.st[h]
                            r == Rnd({"", "", "&", "&mut"})
                            st == <<h>> \o [i \in DOMAIN s.tps |-> DataOf(1)]
                            f == FieldPats(s.fs, s.pos, TpMap(s.tps, st), r, 0)
                            w == Rnd({x \in {S0, S1, Bool, U64, E} : x[1] # h})
                        IN IF Slip(8) /\ ~s.pos THEN <<[k |-> "wr"], K("let"), Bad("struct", w, w), K(h), K("{"), K(".."), K("}"), Done, K("="), Ex(w, -1, FALSE), K(";")>>
                           ELSE <<K("let"), K(h)>> \o f.ts \o <<K("="), Ex(Through(r, st), d, FALSE), K(";")>> \o f.bs
    [] kind = "late" -> <<K("let"), New(l, 1), K(";"), Bind(l, <<"?">>, 1), Use(l), K("="), Ex(t, e, FALSE), K(";"), Bind(l, t, 1)>>
    [] kind = "asg" -> LET n == Rnd(Owned) IN <<Use(n), K("=")>> \o Whole(Ck(Seen(n), d)) \o <<K(";")>>
    [] kind = "tasg" -> LET n == Rnd(Owned)
                            m == Rnd(Owned \ {n})
                        IN <<K("("), Use(n), K(","), Use(m), K(")"), K("="), Ex(<<"tuple", Seen(n), Seen(m)>>, d, TRUE), K(";")>>
    [] kind = "sasg" -> LET h == Rnd({"S0", "S1"})
                            at(i) == LET x == Vars(dec.st[h].fs[i][2]) IN IF x = {} THEN K("_") ELSE OldUse(i, Rnd(x))
                        IN <<K(h), K("{"), Hint(1, "lit"), K(dec.st[h].fs[1][1]), Old(1, ":"), at(1), Hinted, K(","),
                                Hint(2, "lit"), K(dec.st[h].fs[2][1]), Old(2, ":"), at(2), Hinted, K("}"), K("="), Ck(<<h>>, d), K(";")>>
    [] kind = "aeq" -> LET u == DataOf(1)
                       IN <<K(Rnd({"assert_eq!", "assert_ne!"})), K("("), Ex(u, e, FALSE), K(","), Ck(u, e), K(")"), K(";")>>
    [] kind = "letlam" -> LET u == DataOf(1)
                              w == DataOf(1)
                              r == DataOf(1)
                          IN <<K("let"), New(l, 1), K("="), K("|"), NewParam("x", 2), K(":"), Ty(u), K(","), NewParam("y", 3), K(":"), Ty(w), K("|"), Push, Ret(<<>>), Bind("x", u, 2), Bind("y", w, 3),
                               Ex(r, e, FALSE), Ret(ret), Pop, K(";"), Bind(l, <<"fn", u, w, r>>, 1)>>
    [] kind = "dasg" -> LET u == DataOf(1) IN <<K("*"), At(Mut(u), e, FALSE), K("=")>> \o Whole(Ck(u, d)) \o <<K(";")>>
    [] kind = "fasg" -> LET h == Rnd({"S0", "S1"})
                            i == Rnd(1..2)
                        IN <<At(Rnd({<<h>>, Mut(<<h>>)}), 0, FALSE), K("."), K(dec.st[h].fs[i][1]), K("=")>> \o Whole(Ck(dec.st[h].fs[i][2], d)) \o <<K(";")>>
    [] kind = "comp" -> LET u == Rnd(Ints)
                            n == Rnd({x \in Names : Seen(x) \in Ints} \cup {""})
                            w == Rnd(Others(u) \ Ints)
                            op == Rnd({"+", "-", "*", "/", "%"})
                        IN IF n = "" THEN <<K("let"), New(l, 1), K("="), Ex(u, d, FALSE), K(";"), Bind(l, u, 1)>>
                           ELSE IF Slip(6) THEN <<[k |-> "wr"], Use(n), K(op \o "="), Bad("op", <<op>>, w), Ex(w, -1, FALSE), Done, K(";")>>
                           ELSE IF Chance(4) THEN <<Use(n), K(Rnd({"&=", "|=", "^="})), Ck(Seen(n), d), K(";")>>
                           ELSE IF Chance(4) THEN <<Use(n), K(Rnd({"<<=", ">>="})), Ck(U8, d), K(";")>>
                           ELSE <<Use(n), K(op \o "="), Ex(Seen(n), d, TRUE), K(";")>>
    [] kind = "selfop" ->
         \* x = x op e, where x may be a place made of parts
         LET u == Rnd(Ints)
             c == Rnd(1..7)
             ns == {x \in Names : Seen(x) \in Ints}
             ps == {x \in Names : Seen(x) # <<"?">> /\ Seen(x)[1] = "&mut" /\ Seen(x)[2] \in Ints}
             fl == {<<x, f>> \in Names \X {"f0", "f1"} : /\ Seen(x) # <<"?">>
                       /\ \E h \in {S0, S1} : Seen(x) \in {h, Mut(h)} /\ \E i \in 1..2 : dec.st[h[1]].fs[i][1] = f /\ dec.st[h[1]].fs[i][2] \in Ints}
             v == Rnd(ns \cup {""})
             w == Rnd(ps \cup {""})
             z == IF fl = {} THEN <<"", "">> ELSE Rnd(fl)
             y == IF c \in {2, 3} /\ w # "" THEN [o |-> <<K("*"), Use(w)>>, r |-> <<Old(1, "*"), OldUse(1, w)>>, t |-> Seen(w)[2]]
                  ELSE IF c \in {4, 5} /\ z[1] # ""
                  THEN [o |-> <<Use(z[1]), K("."), K(z[2])>>, r |-> <<OldUse(1, z[1]), Old(1, "."), Old(1, z[2])>>,
                        t |-> LET h == IF Seen(z[1])[1] = "&mut" THEN Seen(z[1])[2][1] ELSE Seen(z[1])[1]
                              IN (CHOOSE f \in Range(dec.st[h].fs) : f[1] = z[2])[2]]
                  ELSE IF v # "" THEN [o |-> <<Use(v)>>, r |-> <<OldUse(1, v)>>, t |-> Seen(v)]
                  ELSE [o |-> <<>>, r |-> <<>>, t |-> u]
             op == Rnd({"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"})
             b == Rnd(Vars(Bool) \cup {""})
             val == IF op \in {"<<", ">>"} THEN CkA(U8, e) ELSE At(y.t, e, TRUE)
         IN IF c = 1 /\ b # "" THEN <<Use(b), K("="), Use(b), K(Rnd({"&&", "||", "==", "!="})), At(Bool, e, TRUE), K(";")>>
            ELSE IF y.o = <<>> THEN <<K("let"), New(l, 1), K("="), Ex(u, d, FALSE), K(";"), Bind(l, u, 1)>>
            ELSE IF c = 6 THEN y.o \o <<K("=")>> \o y.o \o <<K(Rnd({"+", "-"})), At(y.t, e, TRUE), K(Rnd({"+", "-"})), At(y.t, e, TRUE), K(";")>>
            ELSE IF c = 7 THEN y.o \o <<K("="), K("("), Ex(y.t, e, FALSE), K(")"), K(Rnd({"+", "*"}))>> \o y.o \o <<K(";")>>
            ELSE <<Hint(1, "comp")>> \o y.o \o <<Old(1, "=")>> \o y.r \o <<Old(1, op), Plus(1, op \o "="), val>>
                 \o (IF op \in {"+", "-"} /\ Chance(3) THEN <<K(Rnd({"*", "/"})), At(y.t, e, TRUE)>> ELSE <<>>) \o <<Hinted, K(";")>>
    [] kind = "if" -> <<K("if"), K("("), Ck(Bool, d), K(")")>> \o Block(Rnd(1..2), e) \o (IF Chance(2) THEN <<K("else")>> \o Block(1, e) ELSE <<>>) \o <<K(";")>>
    [] kind = "while" -> <<K("while"), K("("), Ck(Bool, d), K(")"), K("{"), Push, Sts(1, e), K("if"), K("("), Ck(Bool, 0), K(")"), K(Rnd({"break", "continue"})), K(";"), Pop, K("}"), K(";")>>
    [] kind = "loop" -> IF Chance(2) THEN <<K("loop"), K("{"), Push, Sts(1, e), K("break"), K(";"), Pop, K("}"), K(";")>>
                        ELSE <<K("'a"), K(":"), K("loop"), K("{"), Push, Sts(1, e), K("break"), K("'a"), K(";"), Pop, K("}"), K(";")>>
    [] kind = "for" -> LET u == Rnd(Unsigned) IN <<K("for"), K("("), New(l, 1), K("in"), At(u, 0, FALSE), K(".."), CkA(u, 0), K(")"), Push, Bind(l, u, 1)>> \o Block(1, e) \o <<Pop, K(";")>>
    [] kind = "assert" -> <<K("assert!"), K("("), Ck(Bool, d)>> \o
                          (IF Chance(3) THEN <<>> ELSE <<K(",")>> \o Code) \o <<K(")"), K(";")>>
    [] kind = "ret" -> IF ret = <<>> THEN <<K("abort"), K("1"), K(";")>> ELSE <<K("if"), K("("), Ck(Bool, 0), K(")"), K("{"), K("return"), Ck(ret, d), K("}"), K(";")>>
    [] kind = "call" -> LET f == Rnd({x \in Range(dec.fs) : x.tps = {}}) IN <<K(f.n), K("(")>> \o Args(f.ps, <<>>, e, TRUE, f.r, TRUE) \o <<K(")"), K(";")>>
    [] kind = "match" -> MatchOf(Rnd(Base), e, FALSE) \o <<K(";")>>
    [] kind = "push" -> LET u == DataOf(1) IN <<At(Rnd({Vec(u), Mut(Vec(u))}), e, FALSE), K("."), K("push_back"), K("("), Ck(u, e), K(")"), K(";")>>
    [] kind = "move" -> LET u == Rnd({S0, S1, TS, E}) IN <<K("move_to"), K("("), Use("s"), K(","), Ex(u, e, FALSE), K(")"), K(";")>>

\* ------------------------------------------------------------------ behaviours
Init == /\ dec = <<>> /\ work = <<>> /\ env = <<>> /\ sc = <<>> /\ ret = <<>> /\ out = <<>> /\ wr = "no" /\ nx = 0
Start ==
  /\ nx = 0
  /\ \E d \in {Declare} :
       /\ dec' = d /\ env' = [i \in DOMAIN d.ps |-> [n |-> d.ps[i].n, t |-> d.ps[i].t, id |-> <<0, i>>]] /\ ret' = d.r
       /\ \E miss \in {Chance(25)} :
            LET r == d.r IN
            /\ work' = <<K("{")>> \o <<Push, Sts(Rnd(2..6), 3)>> \o
                       (IF miss THEN <<Pop, Bad("is", <<"()">>, r), K("}"), Done>> ELSE <<Ck(r, 3), Pop, K("}")>>)
            /\ wr' = IF miss THEN "done" ELSE IF Chance(2) THEN "todo" ELSE "no"
  /\ nx' = 1 /\ UNCHANGED <<sc, out>>
Step ==
  /\ nx > 0 /\ work # <<>>
  /\ nx' = nx + 1 /\ dec' = dec
  /\ LET g == Head(work)
         more == Tail(work)
     IN CASE g.k = "t" -> out' = Append(out, g.x) /\ work' = more /\ UNCHANGED <<env, sc, ret, wr>>
          [] g.k = "u" -> out' = Append(out, Append(g.x, IdOf(g.x[Len(g.x)]))) /\ work' = more /\ UNCHANGED <<env, sc, ret, wr>>
          [] g.k = "bind" -> env' = Append(env, [n |-> g.n, t |-> g.t, id |-> g.id]) /\ work' = more /\ UNCHANGED <<out, sc, ret, wr>>
          [] g.k = "push" -> sc' = Append(sc, Len(env)) /\ work' = more /\ UNCHANGED <<out, env, ret, wr>>
          [] g.k = "pop" -> env' = SubSeq(env, 1, sc[Len(sc)]) /\ sc' = SubSeq(sc, 1, Len(sc) - 1) /\ work' = more /\ UNCHANGED <<out, ret, wr>>
          [] g.k = "ret" -> ret' = g.t /\ work' = more /\ UNCHANGED <<out, env, sc, wr>>
          [] g.k = "wr" -> wr' = "done" /\ work' = more /\ UNCHANGED <<out, env, sc, ret>>
          [] g.k = "ss" -> /\ IF g.m = 0 THEN work' = more /\ wr' = wr
                              ELSE \E s \in {Stmt(Rnd(Kinds), g.d)} :
                                     /\ work' = s \o <<Sts(g.m - 1, g.d)>> \o more
                                     /\ wr' = IF \E i \in DOMAIN s : s[i].k = "wr" THEN "done" ELSE wr
                           /\ UNCHANGED <<out, env, sc, ret>>
          [] g.k = "g" -> /\ \E x \in {Expand(g)} : work' = x.s \o more /\ wr' = x.w
                          /\ UNCHANGED <<out, env, sc, ret>>
Finish == nx > 0 /\ work = <<>> /\ nx' = -1 /\ UNCHANGED <<dec, work, env, sc, ret, out, wr>>
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Scoped == Len(sc) = 0 \/ sc[Len(sc)] <= Len(env)
Emit == nx # -1 \/ PrintT(ToJson([dec |-> dec, out |-> out]))
=============================================================================
