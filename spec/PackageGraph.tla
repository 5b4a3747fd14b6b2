---------------------------- MODULE PackageGraph ----------------------------
(* From Move.toml files on disk to the package graph: discovery of manifests  *)
(* in the workspace folders, the manifests reachable from them, each          *)
(* package's transitive dependencies, and which package every file belongs to.*)
(* The file system changes by edits of manifests; what loading gives is a     *)
(* function of the file system.                                               *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS
  Pkgs,        \* package directories that may hold a manifest
  Dir,         \* Pkgs -> path (sequence of names)
  Order,       \* the packages in the order of their manifests' paths
  Names,       \* package names ("" = the manifest declares none)
  WsRoots,     \* sequence of workspace folders (paths)
  MaxDeps, MaxDev, Vias, Addrs

VARIABLES fs, aptos     \* manifests; whether the first workspace folder looks like aptos-core
vars == <<fs, aptos>>

NoManifest == [st |-> "none", name |-> "", deps |-> <<>>, dev |-> <<>>, addrs |-> {}]
IsPre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* "gone": a dependency on a folder that has no manifest in any state
Targets == Pkgs \cup {"gone"}
Dep == [t : Targets, via : Vias]

HasToml(p) == p # "gone" /\ fs[p].st # "none"
Ok(p) == fs[p].st = "ok"
Declared(p) == fs[p].deps \o fs[p].dev

\* ------------------------------------------------------------- discovery
IsAptos == aptos \/ \E p \in Pkgs : IsPre(WsRoots[1] \o <<"aptos-move", "framework">>, Dir[p]) /\ fs[p].st # "none"
FrameworkDir == WsRoots[1] \o <<"aptos-move", "framework">>
Under(r, p) == IsPre(r, Dir[p])
\* inside an aptos-core checkout only its framework folders get their dependencies resolved
Resolves(r, p) == ~(IsAptos /\ r = WsRoots[1]) \/ IsPre(FrameworkDir, Dir[p])
Found == {<<p, Resolves(WsRoots[i], p)>> : i \in DOMAIN WsRoots, p \in {q \in Pkgs : HasToml(q)}} 
         \cap {<<p, b>> \in Pkgs \X BOOLEAN : \E i \in DOMAIN WsRoots : Under(WsRoots[i], p) /\ Resolves(WsRoots[i], p) = b}
Idx(p) == CHOOSE i \in DOMAIN Order : Order[i] = p
\* by path, and for one path "not resolved" before "resolved"
Discovered == SetToSortSeq(Found, LAMBDA x, y : Idx(x[1]) < Idx(y[1]) \/ (x[1] = y[1] /\ ~x[2] /\ y[2]))

\* ------------------------------------------------------- reachable manifests
\* a git dependency without a revision names no folder and is ignored ("norev")
Kind(outer, via) == IF via = "git" \/ outer = "git" THEN "git" ELSE "local"
Entry(p, kind, res) ==
  IF fs[p].st = "bad" THEN [st |-> "error"]
  ELSE LET ds == IF res THEN Declared(p) ELSE <<>>
           okDs == SelectSeq(ds, LAMBDA d : d.via # "norev" /\ HasToml(d.t))
           miss == SelectSeq([i \in 1..Len(ds) |-> i], LAMBDA i : ds[i].via # "norev" /\ ~HasToml(ds[i].t))
       IN [st |-> "ok", name |-> fs[p].name, kind |-> kind, resolve |-> res,
           deps |-> [i \in 1..Len(okDs) |-> <<okDs[i].t, Kind(kind, okDs[i].via)>>],
           missing |-> miss, addrs |-> fs[p].addrs]
RECURSIVE Reach(_, _)
Reach(queue, acc) ==
  IF queue = <<>> THEN acc
  ELSE LET h == Head(queue) IN
       IF h[1] \in DOMAIN acc THEN Reach(Tail(queue), acc)
       ELSE LET e == Entry(h[1], h[2], h[3])
                next == IF e.st = "ok" /\ h[3] THEN [i \in 1..Len(e.deps) |-> <<e.deps[i][1], e.deps[i][2], TRUE>>] ELSE <<>>
            IN Reach(Tail(queue) \o next, acc @@ (h[1] :> e))
\* a manifest reached from several workspace manifests is described by the last of them
RECURSIVE AllFrom(_, _)
AllFrom(ms, acc) == IF ms = <<>> THEN acc
  ELSE AllFrom(Tail(ms), Reach(<<<<Head(ms)[1], "local", Head(ms)[2]>>>>, <<>>) @@ acc)
Entries == AllFrom(Discovered, <<>>)

\* ------------------------------------------------------ transitive dependencies
RECURSIVE Walk(_, _, _, _, _)
Walk(E, queue, seen, names, res) ==
  IF queue = <<>> THEN res
  ELSE LET d == Head(queue) IN
       IF d[1] \in seen THEN Walk(E, Tail(queue), seen, names, res)
       ELSE IF E[d[1]].st = "error" THEN Walk(E, Tail(queue), seen \cup {d[1]}, names, res)   \* not a package
       ELSE LET n == E[d[1]].name IN
            IF n # "" /\ n \in names THEN Walk(E, Tail(queue), seen \cup {d[1]}, names, res)
            ELSE Walk(E, Tail(queue) \o E[d[1]].deps, seen \cup {d[1]}, names \cup ({n} \ {""}), Append(res, d))
DepsOf(E, p) == Walk(E, E[p].deps, {}, {}, <<>>)

\* ------------------------------------------------------------ who owns a file
\* files probed: one in sources/tests/scripts of each folder, one beside them
Subdirs == {"sources", "tests", "scripts", "other"}
OwnerOfPath(E, path) ==
  LET cands == {p \in DOMAIN E : E[p].st = "ok" /\ IsPre(Dir[p], path)}
  IN IF cands = {} THEN "none" ELSE CHOOSE p \in cands : \A q \in cands : Len(Dir[q]) <= Len(Dir[p])
Probe(p, s) == Dir[p] \o <<s, "deep", "m.move">>
\* the manifest that answers for a file opened on its own: nearest folder with a manifest, if it is a source of it
NearestOf(path) ==
  LET cands == {p \in Pkgs : HasToml(p) /\ IsPre(Dir[p], path)}
  IN IF cands = {} THEN "none" ELSE CHOOSE p \in cands : \A q \in cands : Len(Dir[q]) <= Len(Dir[p])
ForFile(path) ==
  LET n == NearestOf(path) IN
  IF n = "none" THEN "none"
  ELSE IF Len(path) > Len(Dir[n]) /\ path[Len(Dir[n]) + 1] \in {"sources", "tests", "scripts"} THEN n ELSE "none"

\* ---------------------------------------------------------------- behaviour
Init == fs = [p \in Pkgs |-> NoManifest] /\ aptos \in BOOLEAN
Create(p, n) == fs[p].st = "none" /\ fs' = [fs EXCEPT ![p] = [NoManifest EXCEPT !.st = "ok", !.name = n]]
AddDep(p, d) == fs[p].st = "ok" /\ Len(fs[p].deps) < MaxDeps /\ fs' = [fs EXCEPT ![p].deps = Append(@, d)]
AddDev(p, d) == fs[p].st = "ok" /\ Len(fs[p].dev) < MaxDev /\ fs' = [fs EXCEPT ![p].dev = Append(@, d)]
AddAddr(p, a) == fs[p].st = "ok" /\ a \notin fs[p].addrs /\ fs' = [fs EXCEPT ![p].addrs = @ \cup {a}]
Break(p) == fs[p].st = "ok" /\ fs' = [fs EXCEPT ![p] = [NoManifest EXCEPT !.st = "bad"]]
Delete(p) == fs[p].st # "none" /\ fs' = [fs EXCEPT ![p] = NoManifest]
Next == /\ \/ \E p \in Pkgs : (\E n \in Names : Create(p, n)) \/ Break(p) \/ Delete(p)
           \/ \E p \in Pkgs, d \in Dep : AddDep(p, d) \/ AddDev(p, d)
           \/ \E p \in Pkgs, a \in Addrs : AddAddr(p, a)
        /\ UNCHANGED aptos
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
Succ(E, p) == IF E[p].st = "ok" THEN ToSet(E[p].deps) ELSE {}
RECURSIVE Closure(_, _)
Closure(E, S) == LET T == S \cup UNION {{d[1] : d \in Succ(E, p)} : p \in S} IN IF T = S THEN S ELSE Closure(E, T)
Reachable(E, p) == Closure(E, {d[1] : d \in Succ(E, p)})
DistinctNames(E, S) == \A p, q \in S : (p # q /\ E[p].st = "ok" /\ E[q].st = "ok") => (E[p].name # E[q].name \/ E[p].name = "")
RECURSIVE Dist(_, _, _, _)
Dist(E, frontier, target, k) == IF k > Cardinality(Pkgs) THEN k
  ELSE IF target \in frontier THEN k ELSE Dist(E, UNION {{d[1] : d \in Succ(E, p)} : p \in frontier}, target, k + 1)

Checked ==
  LET E == Entries IN
  \* every workspace manifest and everything it reaches is described
  /\ {x[1] : x \in ToSet(Discovered)} \subseteq DOMAIN E
  /\ \A p \in DOMAIN E : \A d \in Succ(E, p) : d[1] \in DOMAIN E
  /\ \A p \in DOMAIN E : E[p].st = "ok" =>
       LET ds == DepsOf(E, p)
           ids == {ds[i][1] : i \in DOMAIN ds}
           R == {q \in Reachable(E, p) : E[q].st = "ok"}
       IN /\ Cardinality(ids) = Len(ds)                                   \* each once
          /\ ids \subseteq R                                              \* only reachable ones
          /\ (DistinctNames(E, R) => ids = R)                             \* all of them
          /\ (DistinctNames(E, R) => \A i, j \in DOMAIN ds : i < j =>     \* nearest first
                Dist(E, {d[1] : d \in Succ(E, p)}, ds[i][1], 1) <= Dist(E, {d[1] : d \in Succ(E, p)}, ds[j][1], 1))
          /\ \A q \in ids : E[q].st = "ok" =>                             \* one package per name
               Cardinality({r \in ids : E[r].st = "ok" /\ E[r].name = E[q].name}) = 1 \/ E[q].name = ""
          /\ \A i \in DOMAIN E[p].deps : E[p].kind = "git" => E[p].deps[i][2] = "git"  \* git code stays git code
  /\ \A p \in Pkgs, s \in Subdirs :
       LET o == OwnerOfPath(E, Probe(p, s)) IN o # "none" => IsPre(Dir[o], Probe(p, s))

Emit ==
  LET E == Entries IN
  PrintT(ToJson([fs |-> fs, aptos |-> aptos,
    disc |-> Discovered,
    pkgs |-> [p \in DOMAIN E |-> IF E[p].st = "error" THEN [st |-> "error"] ELSE
        [st |-> "ok", name |-> E[p].name, kind |-> E[p].kind, resolve |-> E[p].resolve, missing |-> E[p].missing,
         addrs |-> E[p].addrs, deps |-> DepsOf(E, p)]],
    own |-> [p \in Pkgs |-> [s \in Subdirs |-> OwnerOfPath(E, Probe(p, s))]],
    for |-> [p \in Pkgs |-> [s \in Subdirs |-> ForFile(Probe(p, s))]]]))
=============================================================================
