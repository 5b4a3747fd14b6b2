------------------------------- MODULE Names -------------------------------
(* What the names in Move source refer to.
   A behaviour first chooses the outline of a few packages -- modules, their items, `use` and `friend` declarations --
   and then writes the sources from left to right.  The state carries the scopes which are open at the place where the
   next token goes; a declaration adds to the innermost of them, and a reference is written together with the set of
   declarations it may refer to, which follow from the open scopes and from the outline alone. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

L == <<"a", "b", "c">>
U == <<"S", "T", "R">>
Types == {"TYPE", "TUPLE", "ENUM"}
Range(s) == {s[i] : i \in DOMAIN s}
Pick(s, d) == s[(d % Len(s)) + 1]
One(S) == CHOOSE x \in S : TRUE

CONSTANT Offers \* whether to say what completion offers
VARIABLES mods, \* the outline
          at,   \* the module and the part of it which are written
          cur,  \* the part being written: open scopes, tokens
          sigs, \* the type parameters and parameters of the first functions of the modules
          out   \* the parts which have been written
vars == <<mods, at, cur, sigs, out>>

\* ------------------------------------------------------------------ randomness: a tuple of numbers for every step
R(x) == RandomElement(0..9999)
D8(x) == <<R(x), R(x), R(x), R(x), R(x), R(x), R(x), R(x)>>
Dice == D8(at) \o D8(at) \o D8(at) \o D8(at) \o D8(at)

\* ------------------------------------------------------------------ the outline
\* 1 and 2 are in package P, which depends on D, where 3 is; 4 is in U, of which nobody knows; 5 is a `spec` of 1 in a file of its own
Sees(p) == CASE p = "P" -> {1, 2, 3} [] p = "D" -> {3} [] OTHER -> {4}
LowerItem(i, j, name, d) ==
  [k |-> IF j = 2 /\ d[1] % 3 = 0 THEN "specfun" ELSE "fun", id |-> ToString(i) \o "." \o ToString(j), name |-> name,
   vis |-> Pick(<<"private", "public", "public", "friend", "package", "friend">>, d[2]), test |-> d[3] % 6 = 0,
   tp |-> Pick(<<"", "", "X", "S", "T">>, d[4]), ps |-> SubSeq(<<Pick(L, d[5]), Pick(L, d[5] + 1)>>, 1, d[6] % 3), fs |-> <<>>]
UpperItem(i, j, name, d) ==
  [k |-> Pick(<<"struct", "struct", "tuple", "enum", "const">>, d[1]), id |-> ToString(i) \o "." \o ToString(j), name |-> name,
   vis |-> Pick(<<"private", "private", "public", "package">>, d[2]), test |-> d[3] % 8 = 0, tp |-> "", ps |-> <<>>,
   fs |-> SubSeq(<<Pick(<<"a", "f">>, d[4]), "g">>, 1, (d[5] % 2) + 1)]
SchemaItem(i, j, name, d) ==
  [k |-> "schema", id |-> ToString(i) \o "." \o ToString(j), name |-> name, vis |-> "private", test |-> FALSE, tp |-> "", ps |-> <<>>, fs |-> SubSeq(<<Pick(L, d[1])>>, 1, d[2] % 2)]
Module(i, d) ==
  LET u == d[1]
      decoy == Pick(<<"mb", "mc">>, d[2])
      pkg == <<"P", "P", "D", "U", "P">>[i]
  IN [i |-> i, pkg |-> pkg, name |-> <<"ma", "mb", Pick(<<"mc", "mc", "mb">>, d[2]), decoy, "ma">>[i],
      addr |-> IF pkg = "P" \/ (i = 4 /\ decoy = "mb") THEN "5" ELSE "6",
      written |-> IF pkg = "P" THEN Pick(<<"pa", "0x5", "0x05">>, d[3]) ELSE IF pkg = "D" THEN Pick(<<"da", "0x6", "0x0006">>, d[3]) ELSE IF decoy = "mb" THEN "0x5" ELSE "0x6",
      test |-> i \in {2, 4} /\ d[4] % 6 = 0, spec |-> i = 5,
      items |-> IF i = 5 THEN <<[SchemaItem(i, 1, "Q", SubSeq(d, 5, 12)) EXCEPT !.k = "schema"],
                                [LowerItem(i, 2, "h", SubSeq(d, 13, 18)) EXCEPT !.k = "specfun", !.test = FALSE]>>
                ELSE <<LowerItem(i, 1, Pick(L, u), SubSeq(d, 5, 10)), LowerItem(i, 2, Pick(L, u + 1), SubSeq(d, 11, 16)),
                       UpperItem(i, 3, Pick(U, u), SubSeq(d, 17, 22)), UpperItem(i, 4, Pick(U, u + 1), SubSeq(d, 23, 28))>>
                     \o (IF d[29] % 2 = 0 THEN <<SchemaItem(i, 5, Pick(U, u + 2), SubSeq(d, 30, 31))>> ELSE <<>>),
      uses |-> <<>>, friends |-> <<>>]
\* a `use`: the module it names, what it takes from there (nothing: the module itself), and the name it gives to that
Use(i, d) ==
  LET j == Pick(<<1, 2, 3, 3, 2, 1, 4>>, d[1])
      m == mods[j]
      x == Pick(m.items, d[2])
      what == Pick(<<"module", "self", "item", "item", "item", "both">>, d[3])
      alias == Pick(<<"", "", "as">>, d[4])
      new == IF what \in {"module", "self"} THEN Pick(<<"n", "a", "b", "c">>, d[5]) ELSE IF x.k \in {"fun", "specfun"} THEN Pick(<<"z", "a", "b", "c">>, d[5]) ELSE Pick(<<"Z", "S", "T", "R">>, d[5])
  IN [mname |-> m.name, addr |-> m.addr, written |-> Pick(IF m.addr = "5" THEN <<"pa", "0x5", "0x005">> ELSE <<"da", "0x6">>, d[6]),
      what |-> what, item |-> IF d[8] % 9 = 0 THEN "nothing" ELSE x.name, alias |-> IF alias = "as" THEN new ELSE "", test |-> d[7] % 7 = 0]
Bound(u) == (IF u.what \in {"module", "self", "both"} THEN {IF u.alias # "" /\ u.what # "both" THEN u.alias ELSE u.mname} ELSE {})
            \cup (IF u.what \in {"item", "both"} THEN {IF u.alias # "" THEN u.alias ELSE u.item} ELSE {})
\* two things of one scope do not have the same name
RECURSIVE Distinct(_, _)
Distinct(us, taken) == IF us = <<>> THEN <<>> ELSE LET u == us[1] IN IF Bound(u) \cap taken # {} THEN Distinct(Tail(us), taken) ELSE <<u>> \o Distinct(Tail(us), taken \cup Bound(u))

\* ------------------------------------------------------------------ what a scope may have
\* ns: where the name lives; id: the declaration; k, m, vis, scope: what it is, of which module, who may use it and where
Ent(ns, name, id, k, m, vis, scope, fs) == [ns |-> ns, name |-> name, id |-> id, k |-> k, m |-> m, vis |-> vis, scope |-> scope, fs |-> fs]
Home(m) == IF mods[m].spec THEN 1 ELSE m
ItemScope(m, x) == IF mods[m].test \/ x.test THEN "test" ELSE IF x.k \in {"specfun", "schema"} THEN "verify" ELSE "main"
NsOf(k) == CASE k \in {"fun", "specfun"} -> "FUNCTION" [] k = "struct" -> "TYPE" [] k = "tuple" -> "TUPLE" [] k = "enum" -> "ENUM" [] k = "const" -> "NAME" [] k = "schema" -> "SCHEMA"
ItemEnt(m, x) == Ent(NsOf(x.k), x.name, x.id, x.k, m, x.vis, ItemScope(m, x), x.fs)
ItemEnts(m) == {ItemEnt(m, x) : x \in Range(mods[m].items)}
ModEnt(m) == Ent("MODULE", mods[m].name, ToString(m), "module", m, "public", IF mods[m].test THEN "test" ELSE "main", <<>>)
Local(name, id, ty) == Ent("NAME", name, id, "local", 0, "public", "main", ty)
TParam(name, id) == Ent("TYPE", name, id, "tparam", 0, "public", "main", <<>>)
HasSpec == Len(mods) = 5
\* the members of a module: its items and those of its `spec` elsewhere
Members(m) == ItemEnts(m) \cup (IF m = 1 /\ HasSpec THEN ItemEnts(5) ELSE {})
ModulesAt(pkg, addr) == {ModEnt(m) : m \in {m \in Sees(pkg) : mods[m].addr = addr}}
Variants(e) == {Ent("VARIANT", n, e.id \o "." \o n, "variant", e.m, "public", e.scope, e.fs) : n \in {"Va", "Vb"}}

\* ------------------------------------------------------------------ who may use what.  c: the module, the scope ("main", "test", "verify") and kind of the place
FriendsOf(m) == {f.to : f \in {f \in Range(mods[m].friends) : f.to # 0}}
Visible(e, c) ==
  \/ c.scope = "verify" \/ e.k \in {"local", "tparam"}
  \/ c.pos = "use" /\ \/ e.k \in {"module", "struct", "tuple", "enum"}
                      \/ e.vis # "private" /\ e.k \in {"fun", "const"}
                      \/ e.k \in {"specfun", "schema"}
                      \/ c.scope = "test" /\ e.ns = "NAME"
  \/ /\ e.scope = "main" \/ e.scope = c.scope
     /\ e.k \notin {"specfun", "schema"}
     /\ \/ e.k # "module" /\ e.m = c.m
        \/ c.pos = "type" /\ e.ns \in Types
        \/ e.vis = "public"
        \/ e.vis = "friend" /\ c.m \in FriendsOf(e.m)
        \/ e.vis = "package" /\ mods[e.m].pkg = mods[c.m].pkg

\* ------------------------------------------------------------------ looking a name up
UseEnts(us, i, scope) ==
  UNION {LET u == us[x]
             sc == IF u.test THEN "test" ELSE scope
             c == [m |-> i, scope |-> IF scope = "verify" THEN scope ELSE sc, pos |-> "use"]
             ms == {e \in ModulesAt(mods[i].pkg, u.addr) : e.name = u.mname}
             its == {e \in UNION {Members(e.m) : e \in ms} : e.name = u.item /\ Visible(e, c)}
             Bind(es, name) == {[e EXCEPT !.name = name, !.scope = IF @ = "main" THEN sc ELSE @] : e \in es}
         IN (IF u.what \in {"module", "self", "both"} THEN Bind(ms, IF u.alias # "" /\ u.what # "both" THEN u.alias ELSE u.mname) ELSE {})
            \cup (IF u.what \in {"item", "both"} THEN Bind(its, IF u.alias # "" THEN u.alias ELSE u.item) ELSE {}) : x \in DOMAIN us}
ModScope(m) == IF mods[m].spec THEN "verify" ELSE IF mods[m].test THEN "test" ELSE "main"
\* lets of a specification block: those before are known to a `let`, and all of them elsewhere; `let post`s only to one another; the last of a name counts
Plan(f, c) == LET ok == {k \in DOMAIN f.lets : c.inlet = "no" \/ (k <= f.done /\ (~f.lets[k].post \/ c.inlet = "post"))}
              IN {Local(f.lets[k].name, f.lets[k].id, <<"?">>) : k \in {k \in ok : \A l \in ok : f.lets[l].name = f.lets[k].name => l <= k}}
FrameEnts(f, c) ==
  CASE f.k = "module" -> ItemEnts(f.m) \cup UseEnts(mods[f.m].uses, f.m, ModScope(f.m))
    [] f.k = "msl" -> Plan(f, c)
    [] OTHER -> f.uses \cup {f.ents[k] : k \in {k \in DOMAIN f.ents : f.k # "block" \/ \A l \in DOMAIN f.ents : f.ents[l].name = f.ents[k].name => l <= k}}
\* the innermost scope which has the name in a namespace hides the others; the namespaces of types are one
RECURSIVE Walk(_, _, _, _, _)
Walk(fs, c, ns, name, seen) ==
  IF fs = <<>> THEN {}
  ELSE LET here == {e \in FrameEnts(fs[Len(fs)], c) : e.name = name /\ e.ns \in ns \ seen}
           more == {e.ns : e \in here} \cup (IF \E e \in here : e.ns \in Types THEN Types ELSE {})
       IN here \cup Walk(SubSeq(fs, 1, Len(fs) - 1), c, ns, name, seen \cup more)
\* through which imports a name leads where it does
Uid(i, at_, x) == ToString(i) \o at_ \o ToString(x)
Through(us, i, at_, scope, es) == {<<Uid(i, at_, x), ns>> : x \in {x \in DOMAIN us : UseEnts(<<us[x]>>, i, scope) \cap es # {}}, ns \in {IF e.ns = "MODULE" THEN "m" ELSE "i" : e \in es}}
RECURSIVE Via(_, _, _, _, _, _)
Via(fs, c, ns, name, es, seen) ==
  IF fs = <<>> THEN {}
  ELSE LET f == fs[Len(fs)]
           here == {e \in FrameEnts(f, c) : e.name = name /\ e.ns \in ns \ seen}
           more == {e.ns : e \in here} \cup (IF \E e \in here : e.ns \in Types THEN Types ELSE {})
       IN (IF f.k = "module" THEN Through(mods[f.m].uses, f.m, "u", ModScope(f.m), here \cap es) ELSE Through(f.us.us, c.m, f.us.at, f.us.sc, here \cap es))
          \cup Via(SubSeq(fs, 1, Len(fs) - 1), c, ns, name, es, seen \cup more)
Choose(es, c, pos) ==
  LET fs == {e \in es : e.ns = "FUNCTION"}
      chosen == IF pos = "call" THEN IF fs # {} THEN fs ELSE es
                ELSE IF Cardinality(es) > 1 /\ Cardinality(es \ fs) = 1 THEN es \ fs ELSE es
  IN {e \in chosen : Visible(e, [c EXCEPT !.pos = pos])}
Names(pos) == CASE pos = "val" -> {"NAME", "FUNCTION", "VARIANT"} [] pos = "call" -> {"NAME", "FUNCTION", "TUPLE", "VARIANT"}
                [] pos = "lit" -> Types \cup {"VARIANT"} [] pos = "type" -> Types [] pos = "schema" -> {"SCHEMA"}
\* ------------------------------------------------------------------ what may be written at a place
\* everything in the open scopes which nothing hides
RECURSIVE Scope(_, _, _, _)
Scope(fs, c, ns, seen) ==
  IF fs = <<>> THEN {}
  ELSE LET here == {e \in FrameEnts(fs[Len(fs)], c) : e.ns \in ns /\ <<e.name, e.ns>> \notin seen}
           more == {<<e.name, e.ns>> : e \in here} \cup {<<e.name, n>> : e \in {e \in here : e.ns \in Types}, n \in Types}
       IN here \cup Scope(SubSeq(fs, 1, Len(fs) - 1), c, ns, seen \cup more)
Offer(es, c, pos) == {<<e.name, e.k, e.id>> : e \in {e \in es : Visible(e, [c EXCEPT !.pos = pos])}}
Asked == Offers /\ (cur.n + Len(cur.toks)) % 3 = 0
With(toks, offer) == IF Asked THEN <<[off |-> offer] @@ toks[1]>> ELSE toks
AllNs == {"NAME", "FUNCTION", "TYPE", "TUPLE", "ENUM", "VARIANT", "SCHEMA", "MODULE"}
\* a name on its own may become the beginning of a path
Open(pos) == CASE pos = "val" -> AllNs [] pos = "type" -> Types \cup {"MODULE"} [] pos = "call" -> {"NAME", "FUNCTION", "TUPLE", "VARIANT"} [] pos = "schema" -> {"SCHEMA"} [] OTHER -> {}
Selfs(c, ns) == IF "MODULE" \in ns /\ ~mods[c.m].spec THEN {<<"Self", "module", ToString(c.m)>>} ELSE {}
OfferName(fs, c, pos) == Offer(Scope(fs, c, Open(pos), {}), c, pos) \cup Selfs(c, Open(pos))
\* what is not in scope, but may be brought there by an import
Others(c, pos) == LET es == {e \in UNION {{ModEnt(m)} \cup ItemEnts(m) : m \in Sees(mods[c.m].pkg)} : e.ns \in Open(pos) /\ Visible(e, [c EXCEPT !.pos = pos])
                                 /\ Visible(e, [c EXCEPT !.pos = "use", !.scope = IF @ = "verify" THEN "main" ELSE @])}
                  IN {<<e.name, e.k, e.id, e.m # Home(c.m), e.m # Home(c.m) /\ e.ns \in {"MODULE"} \cup Names(pos)>> : e \in es}
WithName(toks, fs, c, pos) == IF Asked THEN <<[off |-> OfferName(fs, c, pos), imp |-> Others(c, pos)] @@ toks[1]>> ELSE toks
OfferFirst(fs, c, pos) == Offer(Scope(fs, c, {"ENUM", "MODULE"}, {}), c, pos) \cup Selfs(c, {"MODULE"})
\* a path is a name, or a name in a module or an enum, or a name in a module (of an address), or a variant of an enum of a module
Qualifier(fs, c, pos, q) ==
  Choose(Walk(fs, c, {"ENUM", "MODULE"}, q, {}) \cup (IF q = "Self" /\ ~mods[c.m].spec THEN {[ModEnt(c.m) EXCEPT !.scope = @]} ELSE {}), c, IF pos = "call" THEN "val" ELSE pos)
Inside(es) == IF Cardinality(es) # 1 THEN {} ELSE LET e == One(es) IN IF e.k = "module" THEN Members(e.m) ELSE IF e.k = "enum" THEN Variants(e) ELSE {}
In(es, ns, name, c, pos) == Choose({e \in Inside(es) : e.ns \in ns /\ e.name = name}, c, pos)
T(s) == <<[k |-> "t", s |-> s]>>
Ref(s, es) == <<[k |-> "r", s |-> s, to |-> {e.id : e \in es}]>>
First(s, fs, c, ns, es, more) == <<[k |-> "r", s |-> s, to |-> {e.id : e \in es}, via |-> Via(fs, c, ns, s, es, {}), sc |-> c.scope, more |-> more]>>
OfferIn(q, ns, c, pos) == Offer({e \in Inside(q) : e.ns \in ns}, c, pos)
Name(fs, c, ns, s, pos) == WithName(First(s, fs, c, ns, Choose(Walk(fs, c, ns, s, {}), c, pos), FALSE), fs, c, pos)
Dec(s, id) == <<[k |-> "d", s |-> s, id |-> id]>>
Last(s, es, q, c, pos) == IF pos = "lit" THEN Ref(s, es) ELSE With(Ref(s, es), OfferIn(q, Open(pos) \ {"MODULE"}, c, pos))
PathOf(fs, c, pos, p) ==
  CASE p.form = "name" -> LET es == Choose(Walk(fs, c, Names(pos), p.n, {}), c, pos) IN [toks |-> IF pos = "lit" THEN First(p.n, fs, c, Names(pos), es, FALSE) ELSE WithName(First(p.n, fs, c, Names(pos), es, FALSE), fs, c, pos), es |-> es]
    [] p.form = "two" -> LET q == Qualifier(fs, c, pos, p.m)
                             es == In(q, Names(pos), p.n, c, pos)
                         IN [toks |-> (IF pos = "lit" THEN First(p.m, fs, c, {"ENUM", "MODULE"}, q, TRUE) ELSE With(First(p.m, fs, c, {"ENUM", "MODULE"}, q, TRUE), OfferFirst(fs, c, pos))) \o T("::") \o Last(p.n, es, q, c, pos), es |-> es]
    [] p.form = "full" -> LET q == {e \in ModulesAt(mods[c.m].pkg, p.addr) : e.name = p.m /\ Visible(e, [c EXCEPT !.pos = IF pos = "type" THEN "type" ELSE "val"])}
                              es == In(q, Names(pos), p.n, c, pos)
                          IN [toks |-> T(p.written) \o T("::") \o (IF pos = "lit" THEN Ref(p.m, q) ELSE With(Ref(p.m, q), Offer(ModulesAt(mods[c.m].pkg, p.addr), c, "val"))) \o T("::") \o Last(p.n, es, q, c, pos), es |-> es]
    [] p.form = "three" -> LET q == Qualifier(fs, c, pos, p.m)
                               e2 == In(q, {"ENUM", "MODULE"}, p.e, c, "val")
                               es == In(e2, Names(pos), p.n, c, pos)
                           IN [toks |-> First(p.m, fs, c, {"ENUM", "MODULE"}, q, TRUE) \o T("::") \o Ref(p.e, e2) \o T("::") \o Last(p.n, es, e2, c, pos), es |-> es]
\* what only some may use
RECURSIVE Guarded(_)
Guarded(j) == IF j > 3 THEN <<>> ELSE [k \in DOMAIN SelectSeq(mods[j].items, LAMBDA x : x.vis = "friend") |-> [j |-> j, x |-> SelectSeq(mods[j].items, LAMBDA x : x.vis = "friend")[k]]] \o Guarded(j + 1)
RandPath(pos, d, i) ==
  LET g == IF pos \in {"val", "call"} /\ d[i] % 12 \in 8..10 /\ d[i + 3] % 2 = 0 THEN Guarded(1) ELSE <<>>
      j == IF g # <<>> THEN Pick(g, d[i + 1]).j ELSE Pick(<<1, 2, 3, 3, 2, 1, 4>>, d[i + 1])
      m == mods[j]
      x == IF g # <<>> THEN Pick(g, d[i + 1]).x ELSE Pick(m.items, d[i + 2])
      lower == <<"a", "b", "c", "z", "a", "b", "c", "S", "Z">>
      upper == <<"S", "T", "R", "S", "T", "R", "Z", "X">>
      mname == Pick(<<m.name, m.name, "n", "a", "b", "Self", "S", "T", "R", "Z">>, d[i + 3])
      n == IF mname \in {"S", "T", "R", "Z"} THEN Pick(<<"Va", "Vb">>, d[i + 2]) ELSE x.name
      k == d[i] % 12
      Base == [form |-> "name", n |-> "", m |-> "", e |-> "", addr |-> "", written |-> ""]
  IN IF k <= 5 THEN [Base EXCEPT !.n = Pick(IF pos \in {"val", "call"} THEN lower ELSE upper, d[i + 1])]
     ELSE IF k <= 8 THEN [Base EXCEPT !.form = "two", !.m = mname, !.n = n]
     ELSE IF k <= 10 \/ pos = "type" \/ pos = "schema" THEN [Base EXCEPT !.form = "full", !.m = m.name, !.n = x.name, !.addr = m.addr, !.written = Pick(IF m.addr = "5" THEN <<"pa", "0x5", "0x00005">> ELSE <<"da", "0x6">>, d[i + 3])]
     ELSE [Base EXCEPT !.form = "three", !.m = Pick(<<m.name, "n", "Self">>, d[i + 3]), !.e = x.name, !.n = Pick(<<"Va", "Vb">>, d[i])]

\* ------------------------------------------------------------------ pieces of text, each with its references
Ty(fs, c, d, i) == IF d[i] % 3 = 0 THEN [toks |-> T("u64"), ty |-> <<"">>]
                   ELSE LET p == PathOf(fs, c, "type", RandPath("type", d, i + 1)) IN
                        [toks |-> p.toks, ty |-> IF Cardinality(p.es) = 1 /\ One(p.es).k \in {"struct", "enum"} THEN <<One(p.es).id \o (IF One(p.es).k = "enum" THEN ".Va" ELSE "")>> \o One(p.es).fs ELSE <<"">>]
FieldRef(es, f) == {[id |-> e.id \o "." \o f] : e \in {e \in es : Cardinality(es) = 1 /\ e.k \in {"struct", "variant"} /\ (e.k = "variant" => e.name = "Va") /\ f \in Range(e.fs)}}
OfferFields(es) == IF Cardinality(es) = 1 /\ One(es).k \in {"struct", "variant"} /\ (One(es).k = "variant" => One(es).name = "Va") THEN {<<f, "local">> : f \in Range(One(es).fs)} ELSE {}
\* the struct or enum whose fields these are
Adt(id) == One({e \in UNION {ItemEnts(m) : m \in DOMAIN mods} : id \in {e.id, e.id \o ".Va"}})
Atom(fs, c, d, i) ==
  LET k == d[i] % 14
      v == PathOf(fs, c, "val", [RandPath("val", d, i + 1) EXCEPT !.form = IF @ = "name" THEN "name" ELSE @])
      f == Pick(<<"a", "f", "g">>, d[i + 5])
  IN CASE k <= 5 -> PathOf(fs, c, "val", RandPath("val", d, i + 1)).toks
       [] k \in 6..8 -> LET p == PathOf(fs, c, "call", RandPath("call", d, i + 1)) IN p.toks \o T("(") \o Name(fs, c, Names("val"), f, "val") \o T(")")
       [] k \in 9..10 -> LET p == PathOf(fs, c, "lit", RandPath("lit", d, i + 1))
                             loc == Choose(Walk(fs, c, {"NAME"}, f, {}), c, "val") IN
                         p.toks \o T("{") \o (IF d[i + 6] % 2 = 0 THEN Ref(f, FieldRef(p.es, f)) \o T(":") \o Name(fs, c, Names("val"), "b", "val")
                                              ELSE With(<<[k |-> "sh", s |-> f, to |-> {e.id : e \in loc}, via |-> Via(fs, c, {"NAME"}, f, loc, {}), sc |-> c.scope, fl |-> {e.id : e \in FieldRef(p.es, f)}]>>, OfferFields(p.es))) \o T("}")
       [] k = 11 -> LET es == Choose(Walk(fs, c, {"NAME", "FUNCTION", "VARIANT"}, Pick(L, d[i + 4]), {}), c, "val") IN
                    IF Cardinality(es) = 1 /\ One(es).k = "local" /\ One(es).fs[1] \notin {"?"}
                    THEN LET ty == One(es).fs IN First(Pick(L, d[i + 4]), fs, c, {"NAME", "FUNCTION", "VARIANT"}, es, FALSE) \o T(".") \o With(Ref(f, IF ty[1] # "" /\ f \in Range(Tail(ty)) /\ Visible(Adt(ty[1]), [c EXCEPT !.pos = "val"]) THEN {[id |-> ty[1] \o "." \o f]} ELSE {}),
                                                                  IF ty[1] # "" THEN IF Visible(Adt(ty[1]), [c EXCEPT !.pos = "val"]) THEN {<<n, "local">> : n \in Range(Tail(ty))} ELSE {} ELSE {})
                    ELSE T("1")
       [] k = 12 -> T("(") \o PathOf(fs, c, "val", RandPath("val", d, i + 1)).toks \o T("as") \o T("u8") \o T(")")
       [] OTHER -> T("2")
Expr(fs, c, d, i) == IF d[i] % 3 = 0 THEN Atom(fs, c, d, i + 1) ELSE Atom(fs, c, d, i + 1) \o T("+") \o Atom(fs, c, d, i + 8)

\* ------------------------------------------------------------------ writing
Ctx == IF \E f \in Range(cur.fs) : f.k = "msl" THEN [cur.c EXCEPT !.scope = "verify"] ELSE cur.c
NewId == ToString(at.m) \o "." \o ToString(at.j) \o "." \o ToString(cur.n)
Put(toks) == [cur EXCEPT !.toks = @ \o toks, !.n = @ + 1]
Declare(c, es) == [c EXCEPT !.fs[Len(c.fs)].ents = @ \o es]
NoUses == [us |-> <<>>, at |-> "", sc |-> "main"]
Frame(k) == [k |-> k, m |-> 0, ents |-> <<>>, uses |-> {}, us |-> NoUses, lets |-> <<>>, plan |-> <<>>, done |-> 0, close |-> "", tie |-> FALSE]
Push(c, fs) == [c EXCEPT !.fs = @ \o fs]
Block(close) == [Frame("block") EXCEPT !.close = close]
Tie(ents) == [Frame("binding") EXCEPT !.ents = ents, !.tie = TRUE]
Top == cur.fs[Len(cur.fs)]
InBody == at.st = "body" /\ cur.fs # <<>> /\ Top.k = "block"
InSpec == at.st = "body" /\ cur.fs # <<>> /\ Top.k = "msl"
Depth == Len(cur.fs)
Limit == 14
\* the lets of a specification block are known when it opens
MslFrame(d, i, close, item) ==
  LET kinds == SubSeq(<<Pick(<<"let", "assert", "let", "quant">>, d[i]), Pick(<<"assert", "let", "quant", "post">>, d[i + 1]), Pick(<<"assert", "let", "quant", "post", "include">>, d[i + 2]), Pick(<<"assert", "post", "quant">>, d[i + 3])>>, 1, (d[i + 4] % 4) + 1)
      plan == [k \in DOMAIN kinds |-> IF kinds[k] = "post" /\ ~item THEN "let" ELSE IF kinds[k] = "include" /\ ~item THEN "assert" ELSE kinds[k]]
      lets == SelectSeq([k \in DOMAIN plan |-> [post |-> plan[k] = "post", is |-> plan[k] \in {"let", "post"}, name |-> Pick(<<"a", "b", "c", "d">>, d[i + 4 + k]), id |-> NewId \o ".l" \o ToString(k)]], LAMBDA x : x.is)
  IN [Frame("msl") EXCEPT !.plan = plan, !.lets = lets, !.close = close]

Pattern(p) == Cardinality(p.es) = 1 /\ One(p.es).k \in {"struct", "tuple", "variant"}

RECURSIVE SetToSeqNat(_)
SetToSeqNat(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetToSeqNat(S \ {x})
Stmt(d) ==
  LET x == Pick(<<"a", "b", "c", "d">>, d[1])
      y == Pick(<<"a", "b", "c", "d">>, d[1] + 1)
      id == NewId
      E(i) == Expr(cur.fs, Ctx, d, i)
      k == d[2] % 24
  IN CASE k \in 0..3 -> Declare(Put(T("let") \o Dec(x, id) \o T("=") \o E(3) \o T(";")), <<Local(x, id, <<"?">>)>>)
       [] k \in 4..6 -> LET t == Ty(cur.fs, Ctx, d, 20) IN Declare(Put(T("let") \o Dec(x, id) \o T(":") \o t.toks \o T("=") \o E(3) \o T(";")), <<Local(x, id, t.ty)>>)
       [] k = 7 -> Declare(Put(T("let") \o T("(") \o Dec(x, id) \o T(",") \o Dec(y, id \o "y") \o T(")") \o T("=") \o E(3) \o T(";")), <<Local(x, id, <<"?">>), Local(y, id \o "y", <<"?">>)>>)
       [] k \in 8..9 -> LET p == PathOf(cur.fs, Ctx, "lit", RandPath("lit", d, 20))
                            f == Pick(<<"a", "f", "g">>, d[26]) IN
                        IF ~Pattern(p) THEN Declare(Put(T("let") \o Dec(x, id) \o T(";")), <<Local(x, id, <<"?">>)>>)
                        ELSE IF d[27] % 2 = 0
                        THEN Declare(Put(T("let") \o p.toks \o T("{") \o Ref(f, FieldRef(p.es, f)) \o T(":") \o Dec(x, id) \o T("}") \o T("=") \o E(3) \o T(";")), <<Local(x, id, <<"?">>)>>)
                        ELSE Declare(Put(T("let") \o p.toks \o T("{") \o With(<<[k |-> "psh", s |-> f, id |-> id, fl |-> {e.id : e \in FieldRef(p.es, f)}]>>, OfferFields(p.es)) \o T("}") \o T("=") \o E(3) \o T(";")), <<Local(f, id, <<"?">>)>>)
       [] k \in 10..12 -> Put(E(3) \o T(";"))
       [] k = 13 -> Push(Put(T("{")), <<Block("} ;")>>)
       [] k = 14 -> Push(Put(T("if") \o T("(") \o E(3) \o T(")") \o T("{")), <<Block(IF d[20] % 2 = 0 THEN "} ;" ELSE "} else { 1 } ;")>>)
       [] k = 15 -> LET l == "'" \o "l" \o ToString(Depth) IN
                    Push(Put(<<[k |-> "d", s |-> l, id |-> id]>> \o T(":") \o (IF d[20] % 2 = 0 THEN T("loop") ELSE T("while") \o T("(") \o E(3) \o T(")")) \o T("{")), <<[Frame("label") EXCEPT !.close = l, !.lets = <<id>>, !.tie = TRUE], Block("} ;")>>)
       [] k \in 16..17 -> \* the bounds are not in the scope of the variable; the conditions of the loop are
                    LET b == <<Local(x, id, <<"?">>)>>
                        head == T("for") \o T("(") \o Dec(x, id) \o T("in") \o Atom(cur.fs, Ctx, d, 3) \o T("..") \o Atom(cur.fs, Ctx, d, 10)
                        inv == T("spec") \o T("{") \o T("invariant") \o Expr(cur.fs \o <<Tie(b)>>, [Ctx EXCEPT !.scope = "verify"], d, 20) \o T(";") \o T("}")
                    IN Push(Put(head \o (IF d[19] % 2 = 0 THEN inv ELSE <<>>) \o T(")") \o T("{")), <<Tie(b), Block("} ;")>>)
       [] k \in 18..19 -> LET p == PathOf(cur.fs, Ctx, "lit", RandPath("lit", d, 20))
                              f == Pick(<<"a", "f", "g">>, d[26])
                              kind == IF ~Pattern(p) THEN 0 ELSE d[27] % 3
                              b == IF kind = 0 THEN <<Local(x, id, <<"?">>)>> ELSE IF kind = 1 THEN <<Local(x, id, <<"?">>)>> ELSE <<Local(f, id, <<"?">>)>>
                              pat == IF kind = 0 THEN Dec(x, id) ELSE p.toks \o T("{") \o (IF kind = 1 THEN Ref(f, FieldRef(p.es, f)) \o T(":") \o Dec(x, id) ELSE With(<<[k |-> "psh", s |-> f, id |-> id, fl |-> {e.id : e \in FieldRef(p.es, f)}]>>, OfferFields(p.es))) \o T("}")
                              guard == IF d[28] % 3 = 0 THEN T("if") \o T("(") \o Atom(cur.fs \o <<Tie(b)>>, Ctx, d, 30) \o T(")") ELSE <<>>
                          IN Push(Put(T("match") \o T("(") \o E(3) \o T(")") \o T("{") \o pat \o guard \o T("=>") \o T("{")), <<Tie(b), Block("} , } ;")>>)
       [] k = 20 -> LET b == <<Local(x, id, <<"?">>), Local(y, id \o "y", <<"?">>)>>
                        p == T("|") \o Dec(x, id) \o T(",") \o Dec(y, id \o "y") \o T("|") IN
                    IF d[20] % 2 = 0 THEN Put(T("let") \o T("_") \o T("=") \o p \o Expr(cur.fs \o <<Tie(b)>>, Ctx, d, 3) \o T(";"))
                    ELSE Push(Put(T("let") \o T("_") \o T("=") \o p \o T("{")), <<[Tie(b) EXCEPT !.k = "lambda"], Block("} ;")>>)
       [] k = 21 -> Push(Put(T("spec") \o T("{")), <<MslFrame(d, 3, "} ;", FALSE)>>)
       [] OTHER -> \* break out of a loop
                   LET bar == {i \in DOMAIN cur.fs : cur.fs[i].k = "lambda"}
                       ls == {i \in DOMAIN cur.fs : cur.fs[i].k = "label" /\ \A j \in bar : j < i} IN
                   IF ls = {} THEN Put(E(3) \o T(";"))
                   ELSE LET i == Pick(SetToSeqNat(ls), d[3]) IN Put(T(IF d[4] % 2 = 0 THEN "break" ELSE "continue") \o With(<<[k |-> "r", s |-> cur.fs[i].close, to |-> {cur.fs[i].lets[1]}]>>, {<<cur.fs[j].close, "label">> : j \in ls}) \o T(";"))

MslStmt(d) ==
  LET f == Top
      k == f.done + 1
      kind == f.plan[k]
      nth == Cardinality({i \in 1..k : f.plan[i] \in {"let", "post"}})
      word == IF Depth > 1 /\ cur.fs[Depth - 1].k \in {"spec", "schema"} THEN cur.fs[Depth - 1].close ELSE "assert"
      fs == [cur.fs EXCEPT ![Depth].done = IF nth = 0 THEN 0 ELSE IF kind \in {"let", "post"} THEN nth - 1 ELSE nth]
      c == [Ctx EXCEPT !.inlet = IF kind \in {"let", "post"} THEN kind ELSE "no"]
      q == Pick(<<"a", "b", "c", "q">>, d[1])
      r == Pick(<<"a", "b", "c", "q">>, d[1] + 1)
      one == <<Local(q, NewId, <<"?">>)>>
      t == Ty(fs, c, d, 20)
      toks == CASE kind \in {"let", "post"} -> T("let") \o (IF kind = "post" THEN T("post") ELSE <<>>) \o Dec(f.lets[nth].name, f.lets[nth].id) \o T("=") \o Expr(fs, c, d, 3) \o T(";")
                [] kind = "include" -> T("include") \o PathOf(fs, c, "schema", RandPath("schema", d, 3)).toks \o T(";")
                [] kind = "quant" ->
                     T(word) \o (CASE d[2] % 4 = 0 -> T("forall") \o Dec(q, NewId) \o T(":") \o t.toks \o T(":") \o Expr(fs \o <<Tie(<<Local(q, NewId, t.ty)>>)>>, c, d, 3)
                                   [] d[2] % 4 = 1 -> T("exists") \o Dec(q, NewId) \o T("in") \o Atom(fs, c, d, 20) \o T(":") \o Expr(fs \o <<Tie(one)>>, c, d, 3)
                                   [] d[2] % 4 = 2 -> T("forall") \o Dec(q, NewId) \o T("in") \o Atom(fs, c, d, 20) \o T(",") \o Dec(r, NewId \o "r") \o T("in") \o Atom(fs \o <<Tie(one)>>, c, d, 27)
                                                      \o T(":") \o Expr(fs \o <<Tie(one \o <<Local(r, NewId \o "r", <<"?">>)>>)>>, c, d, 3)
                                   [] OTHER -> T("(") \o T("choose") \o Dec(q, NewId) \o T("in") \o Atom(fs, c, d, 20) \o T("where") \o Expr(fs \o <<Tie(one)>>, c, d, 3) \o T(")")) \o T(";")
                [] OTHER -> T(word) \o Expr(fs, c, d, 3) \o T(";")
  IN [Put(toks) EXCEPT !.fs[Depth].done = k]

\* ------------------------------------------------------------------ the parts of a module, and what is open where they begin
ModFrame(m) == [Frame("module") EXCEPT !.m = m]
ModFrames(m) == IF mods[m].spec THEN <<ModFrame(1), ModFrame(m)>> ELSE IF m = 1 /\ HasSpec THEN <<ModFrame(5), ModFrame(1)>> ELSE <<ModFrame(m)>>
C(m, scope) == [m |-> m, scope |-> scope, pos |-> "", inlet |-> "no"]
UseToks(m, us, at_, scope) ==
  LET One2(u, k) ==
        LET ms == {e \in ModulesAt(mods[m].pkg, u.addr) : e.name = u.mname}
            its == IF Cardinality(ms) # 1 THEN {} ELSE {e \in Members(One(ms).m) : e.name = u.item /\ Visible(e, [C(m, IF u.test /\ scope # "verify" THEN "test" ELSE scope) EXCEPT !.pos = "use"])}
            UC == C(m, IF u.test /\ scope # "verify" THEN "test" ELSE scope)
            as == IF u.alias = "" THEN <<>> ELSE T("as") \o T(u.alias)
        IN (IF u.test THEN T("#[test_only]") ELSE <<>>) \o <<[k |-> "use", s |-> "use", uid |-> Uid(m, at_, k), sc |-> IF u.test THEN "test" ELSE scope]>> \o T(u.written) \o T("::") \o With(Ref(u.mname, ms), {<<e.name, "module">> : e \in ModulesAt(mods[m].pkg, u.addr)})
           \o (CASE u.what = "module" -> as
                 [] u.what = "self" -> T("::") \o Ref("Self", ms) \o as
                 [] u.what = "item" -> T("::") \o With(Ref(u.item, its), OfferIn(ms, AllNs \ {"MODULE"}, UC, "use") \cup {<<"Self", "module">> : e \in ms}) \o as
                 [] OTHER -> T("::") \o T("{") \o Ref("Self", ms) \o T(",") \o With(Ref(u.item, its), OfferIn(ms, AllNs \ {"MODULE"}, UC, "use")) \o as \o T("}"))
           \o T(";")
      RECURSIVE All(_)
      All(k) == IF k > Len(us) THEN <<>> ELSE One2(us[k], k) \o All(k + 1)
  IN All(1)
RECURSIVE FriendToks(_)
FriendToks(fs) == IF fs = <<>> THEN <<>> ELSE T("friend") \o T(fs[1].written) \o T("::") \o Ref(fs[1].name, IF fs[1].to = 0 THEN {} ELSE {ModEnt(fs[1].to)}) \o T(";") \o FriendToks(Tail(fs))
Opening(m) == LET x == mods[m] IN
  (IF x.test THEN T("#[test_only]") ELSE <<>>)
  \o (IF x.spec THEN T("spec") \o T(x.written) \o T("::") \o Ref("ma", {ModEnt(1)}) ELSE T("module") \o T(x.written) \o T("::") \o Dec(x.name, ToString(m)))
  \o T("{") \o UseToks(m, x.uses, "u", ModScope(m)) \o FriendToks(x.friends)
VisToks(v) == CASE v = "private" -> <<>> [] v = "public" -> T("public") [] v = "friend" -> T("public(friend)") [] v = "package" -> T("public(package)")
\* what a specification block begins with besides its lets
SpecFrame(word, ents) == [Frame("spec") EXCEPT !.close = word, !.ents = ents, !.tie = TRUE]
New(c, fs, toks) == [c |-> c, fs |-> fs, toks |-> toks, n |-> 0]

ParamEnts(x, tys) == [k \in DOMAIN x.ps |-> Local(x.ps[k], x.id \o ".p" \o ToString(k), tys[k])]
TpEnts(x) == IF x.tp = "" THEN <<>> ELSE <<TParam(x.tp, x.id \o ".t")>>
Sig(m, x, fs, c, d) == \* type parameters and parameters with their types
  LET fs2 == fs \o <<[Frame("fun") EXCEPT !.ents = TpEnts(x)]>>
      tys == [k \in DOMAIN x.ps |-> Ty(fs2, c, d, 1 + (k - 1) * 6)]
      RECURSIVE P(_)
      P(k) == IF k > Len(x.ps) THEN <<>> ELSE (IF k > 1 THEN T(",") ELSE <<>>) \o Dec(x.ps[k], x.id \o ".p" \o ToString(k)) \o T(":") \o tys[k].toks \o P(k + 1)
  IN [toks |-> Dec(x.name, x.id) \o (IF x.tp = "" THEN <<>> ELSE T("<") \o Dec(x.tp, x.id \o ".t") \o T(">")) \o T("(") \o P(1) \o T(")")
               \o (IF d[14] % 3 = 0 THEN T(":") \o Ty(fs2, c, d, 15).toks ELSE <<>>),
      ents |-> TpEnts(x) \o ParamEnts(x, [k \in DOMAIN x.ps |-> tys[k].ty])]
RECURSIVE Fields(_, _, _, _, _, _)
Fields(id, names, fs, c, d, i) == IF names = <<>> THEN <<>> ELSE Dec(names[1], id \o "." \o names[1]) \o T(":") \o Ty(fs, c, d, i).toks \o (IF Len(names) = 1 THEN <<>> ELSE T(",")) \o Fields(id, Tail(names), fs, c, d, i + 6)
\* the types of the parameters of a function, as its own part gives them
Attr(x) == IF x.test THEN T("#[test_only]") ELSE <<>>

Parts(m) == Len(mods[m].items)
Begin(d) ==
  LET m == at.m
      x == mods[m].items[at.j]
      fs == ModFrames(m)
      c == C(m, IF x.k \in {"specfun", "schema"} \/ mods[m].spec THEN "verify" ELSE IF x.test \/ mods[m].test THEN "test" ELSE "main")
  IN CASE x.k = "fun" ->
            LET s == Sig(m, x, fs, c, d)
                us == IF d[22] % 4 # 0 \/ m = 4 THEN <<>> ELSE Distinct(<<[Use(m, SubSeq(d, 23, 30)) EXCEPT !.test = FALSE]>>, {})
            IN New(c, fs \o <<[Frame("fun") EXCEPT !.ents = s.ents, !.tie = TRUE], [Block("}") EXCEPT !.uses = UseEnts(us, m, c.scope), !.us = [us |-> us, at |-> ToString(at.j) \o "b", sc |-> c.scope]]>>,
                   Attr(x) \o VisToks(x.vis) \o T("fun") \o s.toks \o T("{") \o UseToks(m, us, ToString(at.j) \o "b", c.scope))
       [] x.k = "specfun" ->
            LET s == Sig(m, x, fs, c, d) IN
            New(c, <<>>, T("spec") \o T("fun") \o s.toks \o T("{") \o Expr(fs \o <<[Frame("fun") EXCEPT !.ents = s.ents]>>, c, d, 22) \o T("}"))
       [] x.k = "struct" -> New(c, <<>>, Attr(x) \o VisToks(x.vis) \o T("struct") \o Dec(x.name, x.id) \o T("{") \o Fields(x.id, x.fs, fs, c, d, 1) \o T("}"))
       [] x.k = "tuple" -> New(c, <<>>, Attr(x) \o VisToks(x.vis) \o T("struct") \o Dec(x.name, x.id) \o T("(") \o Ty(fs, c, d, 1).toks \o T(")") \o T(";"))
       [] x.k = "enum" -> New(c, <<>>, Attr(x) \o VisToks(x.vis) \o T("enum") \o Dec(x.name, x.id) \o T("{") \o Dec("Va", x.id \o ".Va") \o T("{") \o Fields(x.id \o ".Va", x.fs, fs, c, d, 1) \o T("}") \o T(",") \o Dec("Vb", x.id \o ".Vb") \o T("}"))
       [] x.k = "const" -> New(c, <<>>, Attr(x) \o VisToks(x.vis) \o T("const") \o Dec(x.name, x.id) \o T(":") \o T("u64") \o T("=") \o Atom(fs, c, d, 1) \o T(";"))
       [] x.k = "schema" ->
            LET ents == [k \in DOMAIN x.fs |-> Local(x.fs[k], x.id \o "." \o x.fs[k], <<"?">>)] IN
            New(c, fs \o <<SpecFrame("ensures", ents), MslFrame(d, 20, "}", FALSE)>>, T("spec") \o T("schema") \o Dec(x.name, x.id) \o T("{") \o (IF x.fs = <<>> THEN <<>> ELSE Fields(x.id, x.fs, fs, c, d, 1) \o T(";")))
\* after the items: a specification of the first function, and one of the struct
Spec1(d) ==
  LET m == at.m
      of == IF mods[m].spec THEN 1 ELSE m
      x == mods[of].items[1]
      tys == sigs[of]
  IN New(C(m, "verify"), ModFrames(m) \o <<SpecFrame("ensures", tys), MslFrame(d, 1, "}", TRUE)>>, T("spec") \o With(Ref(x.name, {ItemEnt(of, x)}), {<<y.name, y.k>> : y \in {y \in Range(mods[of].items) : y.k \in {"struct", "tuple", "enum", "fun"}}}) \o T("{"))
Spec2(d) ==
  LET m == at.m
      of == IF mods[m].spec THEN 1 ELSE m
      x == mods[of].items[3]
  IN IF x.k \notin {"struct", "enum"} THEN New(C(m, "verify"), <<>>, <<>>)
     ELSE New(C(m, "verify"), ModFrames(m) \o <<SpecFrame("invariant", [k \in DOMAIN x.fs |-> Local(x.fs[k], x.id \o (IF x.k = "enum" THEN ".Va." ELSE ".") \o x.fs[k], <<"?">>)]), MslFrame(d, 1, "}", FALSE)>>, T("spec") \o With(Ref(x.name, {ItemEnt(of, x)}), {<<y.name, y.k>> : y \in {y \in Range(mods[of].items) : y.k \in {"struct", "tuple", "enum", "fun"}}}) \o T("{"))

\* ------------------------------------------------------------------ behaviours
Init == mods = <<>> /\ at = [st |-> "outline", m |-> 1, j |-> 0] /\ cur = New(C(0, ""), <<>>, <<>>) /\ out = <<>> /\ sigs = <<>>
Outline ==
  /\ at.st = "outline"
  /\ \E d \in {Dice} :
       /\ mods' = Append(mods, Module(at.m, d))
       /\ at' = IF at.m = 5 \/ (at.m = 4 /\ d[40] % 2 = 0) THEN [st |-> "uses", m |-> 1, j |-> 0] ELSE [at EXCEPT !.m = @ + 1]
  /\ UNCHANGED <<cur, out, sigs>>
Uses ==
  /\ at.st = "uses"
  /\ \E d \in {Dice} :
       LET m == at.m
           us == Distinct(SubSeq(<<Use(m, SubSeq(d, 1, 8)), Use(m, SubSeq(d, 9, 16)), Use(m, SubSeq(d, 17, 24))>>, 1, d[25] % 4), {x.name : x \in Range(mods[m].items)} \cup (IF mods[m].spec THEN {x.name : x \in Range(mods[1].items)} ELSE {}))
           j == IF m = 1 /\ mods[3].name = "mb" /\ d[26] % 3 # 0 THEN 3 ELSE Pick(<<2, 1, 3, 4>>, d[26])
           t == mods[j]
           to == {e \in ModulesAt(mods[m].pkg, t.addr) : e.name = t.name /\ Visible(e, [C(m, ModScope(m)) EXCEPT !.pos = "val"])}
           fr == IF d[27] % 2 = 0 \/ j = m \/ mods[m].spec THEN <<>> ELSE <<[written |-> Pick(IF t.addr = "5" THEN <<"pa", "0x5">> ELSE <<"da", "0x6">>, d[28]), name |-> t.name, to |-> IF to = {} THEN 0 ELSE One(to).m]>>
       IN mods' = [mods EXCEPT ![m].uses = us, ![m].friends = fr]
  /\ at' = IF at.m = Len(mods) THEN [st |-> "part", m |-> 1, j |-> 0] ELSE [at EXCEPT !.m = @ + 1]
  /\ UNCHANGED <<cur, out, sigs>>
Start ==
  /\ at.st = "part"
  /\ IF at.j = 0 THEN cur' = New(C(at.m, ""), <<>>, Opening(at.m)) /\ UNCHANGED sigs
     ELSE \E d \in {Dice} :
       /\ cur' = IF at.j <= Parts(at.m) THEN Begin(d) ELSE IF at.j = Parts(at.m) + 1 THEN Spec1(d) ELSE Spec2(d)
       /\ sigs' = IF at.j # 1 THEN sigs ELSE Append(sigs, IF Len(cur'.fs) < 2 THEN <<>> ELSE cur'.fs[Len(cur'.fs) - 1].ents)
  /\ at' = [at EXCEPT !.st = "body"]
  /\ UNCHANGED <<mods, out>>
Write ==
  /\ at.st = "body" /\ cur.fs # <<>> /\ Top.k \in {"block", "msl"}
  /\ \E d \in {Dice} :
       cur' = IF Top.k = "msl" /\ Top.done < Len(Top.plan) THEN MslStmt(d)
              ELSE IF Top.k = "block" /\ cur.n < Limit /\ (Depth < 5 \/ d[40] % 4 # 0) THEN Stmt(d)
              ELSE LET rest == SubSeq(cur.fs, 1, Depth - 1) IN
                   [cur EXCEPT !.toks = @ \o T(Top.close), !.fs = IF rest # <<>> /\ rest[Len(rest)].tie THEN SubSeq(rest, 1, Len(rest) - 1) ELSE rest]
  /\ UNCHANGED <<mods, at, out, sigs>>
End ==
  /\ at.st = "body" /\ (IF cur.fs = <<>> THEN TRUE ELSE Top.k = "module")
  /\ LET last == at.j = (IF at.m = 4 THEN Parts(4) ELSE Parts(at.m) + 2)
         toks == cur.toks \o (IF last THEN T("}") ELSE <<>>)
     IN /\ out' = IF at.j = 0 THEN Append(out, toks) ELSE [out EXCEPT ![at.m] = @ \o toks]
        /\ at' = IF ~last THEN [at EXCEPT !.st = "part", !.j = @ + 1] ELSE IF at.m < Len(mods) THEN [st |-> "part", m |-> at.m + 1, j |-> 0] ELSE [at EXCEPT !.st = "done"]
  /\ UNCHANGED <<mods, cur, sigs>>
Next == Outline \/ Uses \/ Start \/ Write \/ End
Spec == Init /\ [][Next]_vars
Emit == at.st # "done" \/ PrintT(ToJson([files |-> out, decoy |-> mods[4].name]))
=============================================================================
