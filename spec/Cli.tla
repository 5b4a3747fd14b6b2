-------------------------------- MODULE Cli --------------------------------
(* `aptos-language-server diagnostics`: what is printed about the files of a workspace, how it exits, and what
   `--apply-fixes` makes of them.  A file is a module made of constructs of the catalogue, each of which has known
   problems at known places (between « and » in its text).  A history writes files and runs commands on them. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

P(sev, code) == [sev |-> sev, code |-> code]
Err(code) == P("error", code)
C(text) == [t |-> text, ps |-> <<>>, dep |-> <<>>, fix |-> "", fixed |-> ""]
Bad(text, ps) == [t |-> text, ps |-> ps, dep |-> ps, fix |-> "", fixed |-> ""]
Fixable(text, p, fix, fixed) == [t |-> text, ps |-> <<p>>, dep |-> <<p>>, fix |-> fix, fixed |-> fixed]
None == P("none", "")
\* other problems where the module 0xd::lib is not among the dependencies
Dep(text, there, missing, fix, fixed) == [t |-> text, ps |-> there, dep |-> missing, fix |-> fix, fixed |-> fixed]

Catalogue == <<
  C("fun f$() {}"),
  C("struct S$ has drop { x: u8 }"),
  C("public fun f$(a: u8, b: u8): u8 { if (a > b) { a } else { b } }"),
  C("spec fun g$(a: num): num { a + 1 }"),
  C("#[test_only] fun f$(v: vector<u8>): vector<u8> { v }"),
  Bad("fun f$() { «missing$»(); }", <<Err("unresolved-reference")>>),
  Bad("fun f$() { «x$» }", <<Err("unresolved-reference")>>),
  Bad("fun f$(a: «None$»): u8 { a.«b»; 1 }", <<Err("unresolved-reference"), None>>),
  Bad("fun f$(): u8 { «true» }", <<Err("type-error")>>),
  Bad("fun f$(): u8 { return «true» }", <<Err("type-error")>>),
  Bad("fun f$() { «g$()» } fun g$(): u8 { 1 }", <<Err("type-error")>>),
  Bad("fun f$(a: u8): bool { if (a > 1) { true } else { «a» } }", <<Err("type-error")>>),
  Bad("fun f$() { let «(a, b)» = (1, 2, 3); a; b; }", <<Err("type-error")>>),
  Bad("fun f$() { 1 + «true»; }", <<Err("type-error")>>),
  Bad("struct S$ { x: «S$» }", <<Err("type-error")>>),
  Bad("fun f$() { g$(«1», true) } fun g$(_a: bool, _b: bool) {}", <<Err("type-error")>>),
  Bad("fun f$() { g$(«1») } fun g$() {}", <<Err("arguments-number-mismatch")>>),
  Bad("fun f$<T>() {} fun g$() { «f$»(); }", <<Err("needs-type-annotation")>>),
  Bad("struct S$<T> {} fun f$(_a: «S$») {}", <<Err("type-arguments-number-mismatch")>>),
  Bad("struct S$ { x: u8 } fun f$(): S$ { «S$» {} }", <<Err("missing-lit-fields")>>),
  Bad("struct S$ has copy { «x: T$» } struct T$ {}", <<Err("missing-ability")>>),
  Bad("public entry fun f$()«: u8» { 1 }", <<Err("entry-fun-cannot-return-values")>>),
  Bad("fun f$() { 1 +«» ; }", <<Err("syntax-error")>>),
  Bad("const «E$»: u64 = 1; fun f$() { abort E$ }", <<P("warn", "missing-const-doc-comment")>>),
  Bad("fun f$() { «missing$»(); «true» + 1; «y$»; }", <<Err("unresolved-reference"), Err("type-error"), Err("unresolved-reference")>>),
  Fixable("fun f$() { let «x» = 1; }", P("warn", "unused-variable"), "rename-with-underscore-prefix", "fun f$() { let _x = 1; }"),
  Fixable("fun f$(«x»: u8) {}", P("warn", "unused-variable"), "rename-with-underscore-prefix", "fun f$(_x: u8) {}"),
  Fixable("fun f$(p: &mut u8) { «*p = *p + 1»; }", P("note", "replace-with-compound-expr"), "replace-with-compound-expr", "fun f$(p: &mut u8) { *p += 1; }"),
  Fixable("struct S$ { x: u8 } fun f$(x: u8): S$ { S$ { «x: x» } }", P("note", "lit-field-init-shorthand"), "use-struct-lit-field-shorthand", "struct S$ { x: u8 } fun f$(x: u8): S$ { S$ { x } }"),
  Fixable("struct S$ { x: u8 } fun f$(s: S$) { let S$ { «x: x» } = s; x; }", P("note", "pat-field-init-shorthand"), "use-struct-pat-field-shorthand", "struct S$ { x: u8 } fun f$(s: S$) { let S$ { x } = s; x; }"),
  Fixable("«public(friend)» fun f$() {}", P("note", "replace-with-friend"), "replace-with-friend", "friend fun f$() {}"),
  Fixable("«public(package)» fun f$() {}", P("note", "replace-with-package"), "replace-with-package", "package fun f$() {}"),
  Fixable("fun f$(a: u8): u8 { (a «as u8») }", P("hint", "redundant-cast"), "remove-redundant-cast", "fun f$(a: u8): u8 { (a) }"),
  Fixable("struct S$ has drop {} fun m$(self: &S$) {} fun f$(s: S$) { «m$(&s)»; }", P("note", "replace-with-method-call"), "replace-with-method-call", "struct S$ has drop {} fun m$(self: &S$) {} fun f$(s: S$) { s.m$(); }"),
  Fixable("struct S$ has key {} fun f$() «acquires S$» {}", P("note", "unused-acquires"), "remove-unused-acquires", "struct S$ has key {} fun f$() {}"),
  Dep("fun f$() { 0xd::«lib»::call(); }", <<None>>, <<Err("unresolved-reference")>>, "", ""),
  Dep("use 0xd::«lib»::call as c$; fun f$() { «c$»(); }", <<None, None>>, <<Err("unresolved-reference"), Err("unresolved-reference")>>, "", ""),
  Dep("«use 0xd::«lib» as l$;»", <<P("warn", "unused-import"), None>>, <<P("warn", "unused-import"), Err("unresolved-reference")>>, "remove-unused-import", "")
>>
FixIds == {Catalogue[i].fix : i \in DOMAIN Catalogue} \ {""}
Codes == {Catalogue[i].ps[j].code : <<i, j>> \in {<<i, j>> \in (DOMAIN Catalogue) \X (1..3) : j <= Len(Catalogue[i].ps)}} \ {""}

\* ------------------------------------------------------------------ the workspace: `p` depends on `d`, which has 0xd::lib; `x` is one of those which are skipped
Pkgs == {"d", "p", "p/q", "x/move-examples/scripts/too_large"}
Skipped == {"x/move-examples/scripts/too_large"}
SeesLib(pkg) == pkg \in {"d", "p"}
\* (q lies inside of p's folder, and is a package of its own)
FileSet == { <<"p", "sources/a.move">>, <<"p", "sources/in/b.move">>, <<"p", "scripts/s.move">>, <<"p", "tests/t.move">>, <<"d", "sources/c.move">>, <<"p/q", "sources/e.move">>,
             <<"x/move-examples/scripts/too_large", "sources/f.move">> }
Absent == [st |-> FALSE, items |-> <<>>, crlf |-> FALSE]
Item(k) == [k |-> k, done |-> FALSE]
VARIABLES files, log
vars == <<files, log>>

Probs(f, it) == IF it.done THEN <<>> ELSE IF SeesLib(f[1]) THEN Catalogue[it.k].ps ELSE Catalogue[it.k].dep

\* ------------------------------------------------------------------ commands
\* o.path: "ws", a package, a file; "empty" (no package there), "missing"; o.kinds, o.disable, o.only, o.fixes: sets
Targets(path) == {f \in FileSet : files[f].st /\ f[1] \notin Skipped /\
                    (path = "ws" \/ path = f[1] \/ (path = "p" /\ f[1] = "p/q") \/ path = f[1] \o "/" \o f[2])}
Shown(o, p) == /\ p.sev # "none"
               /\ IF o.only # {} THEN p.code \in o.only ELSE p.code \notin o.disable
               /\ o.kinds # {} => p.sev \in o.kinds
\* a fixing run repairs what it would show and is allowed to repair
Repairs(o, f, it) == /\ ~it.done /\ Catalogue[it.k].fix # "" /\ (o.fixes = {"all"} \/ Catalogue[it.k].fix \in o.fixes)
                     /\ \E j \in DOMAIN Probs(f, it) : Probs(f, it)[j].sev # "none" /\ j = 1 /\ Shown(o, Probs(f, it)[j])
Reported(o) == {<<f, i, j>> \in FileSet \X (1..6) \X (1..3) : f \in Targets(o.path) /\ i <= Len(files[f].items) /\ j <= Len(Probs(f, files[f].items[i]))
                   /\ Shown(o, Probs(f, files[f].items[i])[j])}
ProbAt(r) == Probs(r[1], files[r[1]].items[r[2]])[r[3]]
Fails(o) == o.path \in {"empty", "missing"} \/ \E r \in Reported(o) : ProbAt(r).sev = "error"
Report(o) ==
  /\ UNCHANGED files
  /\ log' = Append(log, [a |-> "report", o |-> o, ok |-> ~Fails(o),
                         out |-> {[f |-> r[1], i |-> r[2], j |-> r[3], sev |-> ProbAt(r).sev, code |-> ProbAt(r).code] : r \in {r \in Reported(o) : ProbAt(r).sev # "hint"}}])
Fixed(o) == [f \in FileSet |-> IF f \notin Targets(o.path) THEN files[f]
                               ELSE [files[f] EXCEPT !.items = [i \in DOMAIN @ |-> [@[i] EXCEPT !.done = @ \/ Repairs(o, f, files[f].items[i])]]]]
Fix(o) ==
  /\ files' = Fixed(o)
  /\ log' = Append(log, [a |-> "fix", o |-> o, ok |-> o.path \notin {"empty", "missing"}, files |-> {<<f, files'[f]>> : f \in {f \in FileSet : files[f].st}},
                         out |-> {[f |-> r[1], i |-> r[2], j |-> r[3], sev |-> ProbAt(r).sev, code |-> ProbAt(r).code] :
                                     r \in {r \in Reported(o) : r[3] = 1 /\ ProbAt(r).sev # "hint" /\ Repairs(o, r[1], files[r[1]].items[r[2]])}}])
Write(f, x) == /\ files' = [files EXCEPT ![f] = x] /\ log' = Append(log, [a |-> "write", f |-> f, x |-> x])

\* ------------------------------------------------------------------ random histories
R(S) == RandomElement(S)
Some(S, k) == IF k = 0 THEN {} ELSE IF k = 1 THEN {R(S)} ELSE {R(S), R(S), R(S)}
RandItems(n) == [i \in 1..n |-> Item(R(DOMAIN Catalogue))]
RandFile(k) == IF k = 0 THEN Absent ELSE [st |-> TRUE, items |-> RandItems(R({0, 1, 1, 2, 3, 4, 6})), crlf |-> k = 1]
RandPath(k) == IF k <= 4 THEN "ws" ELSE IF k <= 7 THEN R(Pkgs) ELSE IF k <= 9 THEN LET f == R({f \in FileSet : f[1] \notin Skipped}) IN IF files[f].st THEN f[1] \o "/" \o f[2] ELSE "ws"
               ELSE IF k = 10 THEN "empty" ELSE IF k = 11 THEN "missing" ELSE "ws"
RandO(fixes) == [path |-> RandPath(R(1..12)), quiet |-> R(BOOLEAN), verbose |-> R(1..4) = 1, kinds |-> Some({"error", "warn", "note"}, R({0, 0, 0, 1, 2})),
                 disable |-> Some(Codes \cup {"bogus"}, R({0, 0, 0, 1, 2})), only |-> Some(Codes, R({0, 0, 0, 0, 1, 2})), fixes |-> fixes]
Steps == 8
Init == files = [f \in FileSet |-> Absent] /\ log = <<>>
Next == /\ Len(log) < Steps
        /\ IF Len(log) < 3 THEN \E f \in {R(FileSet)} : \E x \in {RandFile(R(1..4))} : Write(f, x)
           ELSE \E c \in {R(1..6)} :
             IF c <= 3 THEN \E o \in {RandO({})} : Report(o)
             ELSE IF c <= 5 THEN \E o \in {RandO(IF R(BOOLEAN) THEN {"all"} ELSE Some(FixIds, 2))} : Fix(o)
             ELSE \E f \in {R(FileSet)} : \E x \in {RandFile(R(0..4))} : Write(f, x)
Spec == Init /\ [][Next]_vars
Emit == Len(log) < Steps \/ PrintT(ToJson([log |-> log]))
Table == log # <<>> \/ PrintT(ToJson([catalogue |-> Catalogue]))

\* ------------------------------------------------------------------ what holds of the commands whatever the workspace
Plain(path, fixes) == [path |-> path, quiet |-> TRUE, verbose |-> FALSE, kinds |-> {}, disable |-> {}, only |-> {}, fixes |-> fixes]
\* reporting on the workspace is reporting on every file of it
Additive == Len(log) < Steps \/ Reported(Plain("ws", {})) = UNION {Reported(Plain(f[1] \o "/" \o f[2], {})) : f \in FileSet}
\* a fixing run leaves nothing for the next one, and makes no errors
Idempotent == Len(log) < Steps \/ LET o == Plain("ws", {"all"}) IN \A f \in Targets("ws") : \A i \in DOMAIN files[f].items :
                 LET it == Fixed(o)[f].items[i] IN ~Repairs(o, f, it) /\ (\A j \in DOMAIN Probs(f, it) : Probs(f, it)[j] = Probs(f, files[f].items[i])[j])
=============================================================================
