----------------------------- MODULE Workspace -----------------------------
(* The project as the server sees it while folders are opened and closed, manifests written, broken
   and deleted, and sources created, rewritten and deleted.  `eff` is the package graph in effect,
   `known` the files the server has read.  After each step the server has settled. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Pkgs, Folder, Folders, Mods, MaxDeps, MaxSteps
VARIABLES man, mod, open, disc, eff, broken, known, log
disk == <<man, mod>>
vars == <<man, mod, open, disc, eff, broken, known, log>>

None == [st |-> "none", deps |-> {}]
Bad == [st |-> "bad", deps |-> {}]
Ok(D) == [st |-> "ok", deps |-> D]
Mans == {None, Bad} \cup {Ok(D) : D \in {D \in SUBSET Pkgs : Cardinality(D) <= MaxDeps}}
There(m, p) == m[p].st # "none"
Discoverable(m, o) == {p \in Pkgs : There(m, p) /\ Folder[p] \in o}
RECURSIVE Close(_, _)
Close(m, S) == LET T == S \cup {q \in Pkgs : There(m, q) /\ \E p \in S : q \in m[p].deps} IN IF T = S THEN S ELSE Close(m, T)
Reach(m, D) == Close(m, {p \in D : There(m, p)})
\* everything a package's manifest leads to
Deps(m, p) == {q \in Close(m, {d \in m[p].deps : There(m, d)}) : m[q].st = "ok"}
Valid(m, D) == LET R == {p \in Reach(m, D) : m[p].st = "ok"} IN [p \in R |-> Deps(m, p)]
Broken(m, D) == \E p \in Reach(m, D) : m[p].st = "bad"
\* loading: a broken manifest leaves a loaded workspace as it is
Loaded(m, D, e) == IF Broken(m, D) /\ DOMAIN e # {} THEN e ELSE Valid(m, D)

\* files: <<p, "man">> and <<p, "mod">>
FilesOf(m, md, e) == {<<p, k>> \in (DOMAIN e) \X {"man", "mod"} : IF k = "man" THEN There(m, p) ELSE md[p] # "absent"}
Load(m, md, D, k) == /\ eff' = Loaded(m, D, eff) /\ broken' = Broken(m, D)
                     /\ known' = k \cup FilesOf(m, md, eff')

Init == /\ man \in [Pkgs -> Mans] /\ mod \in [Pkgs -> Mods] /\ open \in SUBSET Folders
        /\ disc = Discoverable(man, open) /\ eff = Valid(man, disc) /\ broken = Broken(man, disc)
        /\ known = FilesOf(man, mod, eff) /\ log = <<>>
\* the client reports every change it sees
SetMan(p, x) == /\ x # man[p] /\ man' = [man EXCEPT ![p] = x] /\ UNCHANGED <<mod, open, disc>>
                /\ LET f == <<p, "man">> IN
                   IF x.st = "none" /\ f \notin known THEN UNCHANGED <<eff, broken, known>>
                   ELSE Load(man', mod, disc, IF x.st = "none" THEN known \ {f} ELSE known \cup {f})
SetMod(p, x) == /\ x # mod[p] /\ mod' = [mod EXCEPT ![p] = x] /\ UNCHANGED <<man, open, disc>>
                /\ LET f == <<p, "mod">> IN
                   IF (f \in known) = (x # "absent") THEN UNCHANGED <<eff, broken, known>>   \* unknown, or rewritten
                   ELSE Load(man, mod', disc, IF x = "absent" THEN known \ {f} ELSE known \cup {f})
SetOpen(o) == /\ o # open /\ open' = o /\ disc' = Discoverable(man, o) /\ UNCHANGED <<man, mod>>
              /\ Load(man, mod, disc', known)
Next == \/ \E p \in Pkgs : (\E x \in Mans : SetMan(p, x)) \/ (\E x \in Mods : SetMod(p, x))
        \/ \E f \in Folders : SetOpen(IF f \in open THEN open \ {f} ELSE open \cup {f})
Spec == Init /\ [][Next /\ UNCHANGED log]_vars
--------------------------------------------------------------------------------
\* what is seen in the file of p: the modules its package and dependencies provide
Names == Pkgs \cup {"x"}
Provides(p) == CASE mod[p] = "absent" -> {} [] mod[p] = "own" -> {p} [] OTHER -> {"x"}
Visible(p) == {p} \cup (IF There(man, p) THEN {d \in eff[p] : d \in DOMAIN eff /\ There(man, d)} ELSE {})
Providers(p, n) == {q \in Visible(p) : n \in Provides(q)}
\* not found, or (with a star) found in several packages
Unresolved(p) == {n \in Names \ Provides(p) : Providers(p, n) = {}}
                 \cup {n \o "*" : n \in {n \in Names \ Provides(p) : Cardinality(Providers(p, n)) > 1}}
Observed == {p \in DOMAIN eff : mod[p] # "absent" /\ There(man, p)}
Health == IF broken THEN "error" ELSE IF disc = {} THEN "warning" ELSE "ok"
--------------------------------------------------------------------------------
\* a server started now, and what this one must agree with
Fresh == Valid(man, Discoverable(man, open))
Converges == ~broken /\ Discoverable(man, open) \subseteq disc => eff = Fresh
\* a broken manifest never takes a package away
KeepsGoing == [][broken' /\ DOMAIN eff # {} => eff' = eff]_<<man, open, eff, broken>>
\* no package without a manifest, but for a workspace kept because of a broken one
Sound == ~broken => \A p \in DOMAIN eff : man[p].st = "ok" /\ \A d \in eff[p] : d \in DOMAIN eff
\* a package's answers depend on nothing outside its dependencies
Isolated == \A p \in DOMAIN eff : \A q \in Pkgs \ ({p} \cup eff[p]) : q \notin Visible(p)
--------------------------------------------------------------------------------
\* random histories, one successor per step
R(S) == RandomElement(S)
ManLike(k, D) == CASE k \in 1..2 -> None [] k \in 3..4 -> Bad [] OTHER -> Ok(D)
AsFresh == open # {} /\ ~broken /\ (disc = {} <=> Discoverable(man, open) = {}) /\ Discoverable(man, open) \subseteq disc
Act(a, p, x) == [a |-> a, p |-> p, x |-> x]
Note(a) == log' = Append(log, [act |-> a, reload |-> (a.a # "mod" \/ (<<a.p, "mod">> \in known) # (a.x # "absent"))
                                 /\ (a.a # "man" \/ a.x.st # "none" \/ <<a.p, "man">> \in known),
     health |-> Health', obs |-> {<<p, Unresolved(p)'>> : p \in Observed'}, pkgs |-> (DOMAIN eff)', fresh |-> AsFresh'])
SInit == /\ man = [p \in Pkgs |-> None] /\ mod = [p \in Pkgs |-> "absent"] /\ open = {} /\ disc = {} /\ eff = <<>>
         /\ broken = FALSE /\ known = {} /\ log = <<>>
Start(m, md, o) ==
  /\ man' = m /\ mod' = md /\ open' = o /\ disc' = Discoverable(m, o) /\ eff' = Valid(m, disc') /\ broken' = Broken(m, disc')
  /\ known' = FilesOf(m, md, eff')
  /\ log' = <<[act |-> [a |-> "start", man |-> {<<p, m[p]>> : p \in Pkgs}, mod |-> {<<p, md[p]>> : p \in Pkgs}, open |-> o], reload |-> TRUE,
               health |-> Health', obs |-> {<<p, Unresolved(p)'>> : p \in Observed'}, pkgs |-> (DOMAIN eff)', fresh |-> FALSE]>>
ModLike(k) == CASE k = 1 -> "absent" [] k = 2 -> "other" [] OTHER -> "own"
OpenLike(k) == CASE k = 1 -> {1} [] k = 2 -> {2} [] OTHER -> Folders
Try(k, p, x, m, f) ==
  IF k \in 1..9 /\ x # man[p] THEN SetMan(p, x) /\ Note(Act("man", p, x))
  ELSE IF k \in 10..15 /\ m # mod[p] THEN SetMod(p, m) /\ Note(Act("mod", p, m))
  ELSE LET o == IF f \in open THEN open \ {f} ELSE open \cup {f} IN SetOpen(o) /\ Note(Act("open", "", o))
SNext == IF log = <<>> THEN \E m \in {[p \in Pkgs |-> ManLike(R(1..14), R(SUBSET Pkgs))]}, md \in {[p \in Pkgs |-> ModLike(R(1..6))]}, o \in {OpenLike(R(1..9))} : Start(m, md, o)
         ELSE Len(log) <= MaxSteps /\ \E k \in {R(1..17)}, p \in {R(Pkgs)}, x \in {ManLike(R(1..12), R(SUBSET Pkgs))}, m \in {R(Mods)}, f \in {R(Folders)} : Try(k, p, x, m, f)
SSpec == SInit /\ [][SNext]_vars
EmitLog == Len(log) = MaxSteps + 1 => PrintT(ToJson([log |-> log]))
================================================================================
