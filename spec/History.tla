------------------------------ MODULE History ------------------------------
(* A workspace of four packages over time.  Everything the analysis says is a function of the workspace as it is now:
   what it was before, in which order the files came, and what was asked in between make no difference.
   The state is the workspace alone; what the packages and files mean to one another is derived from it below. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Steps

P == {"P", "M", "D", "U"}
Files == <<"P/sources/ma.move", "P/sources/mb.move", "D/sources/mc.move", "U/sources/decoy.move", "P/sources/ma.spec.move",
           "P/tests/ma.move", "D/sources/ma.spec.move", "M/sources/mx.move", "P/scripts/deep/mb.spec.move">>
Of == <<"P", "P", "D", "U", "P", "P", "D", "M", "P">>
Stem == <<"ma", "mb", "mc", "decoy", "ma", "ma", "ma", "mx", "mb">>
N == 1..Len(Files)
\* what the manifests of the packages may say: the dependencies, and the named addresses
Deps == [P |-> <<<<"M">>, <<>>, <<"M", "U">>, <<"D">>>>, M |-> <<<<"D">>, <<>>, <<"P">>, <<"U", "D">>>>, D |-> <<<<>>, <<>>, <<"U">>, <<"M">>>>, U |-> <<<<>>, <<"D">>, <<>>, <<"P">>>>]
Addrs == [P |-> <<<<"pa", "0x5">>, <<"pa", "0x5">>, <<"pa", "0x9">>, <<"", "">>>>, M |-> <<<<"", "">>, <<"", "">>, <<"ma", "0x7">>, <<"", "">>>>,
          D |-> <<<<"da", "0x6">>, <<"", "">>, <<"da", "0x6">>, <<"da", "0x5">>>>, U |-> <<<<"", "">>, <<"ua", "0x6">>, <<"", "">>, <<"", "">>>>]

VARIABLES ws,    \* the text of every file and of every manifest, 0: there is none
          trail  \* how it came to be so

Start == [file |-> [i \in N |-> IF i <= 5 THEN 1 ELSE 0], toml |-> [p \in P |-> 1]]
There(w, p) == w.toml[p] # 0
Names(w, p) == {Deps[p][w.toml[p]][k] : k \in DOMAIN Deps[p][w.toml[p]]}
Direct(w, p) == {q \in Names(w, p) : There(w, q)}
RECURSIVE Closure(_, _)
Closure(w, S) == LET T == S \cup UNION {Direct(w, p) : p \in S} IN IF T = S THEN S ELSE Closure(w, T)
FilesOf(w, S) == {Files[i] : i \in {i \in N : Of[i] \in S /\ w.file[i] # 0}}
Meaning(w, i) ==
  IF ~There(w, Of[i]) THEN [package |-> ""]
  ELSE LET p == Of[i]
           sees == Closure(w, {p})
           seen == {q \in P : There(w, q) /\ p \in Closure(w, {q})}
       IN [package |-> p,
           specs |-> {Files[j] : j \in {j \in N \ {i} : w.file[j] # 0 /\ Of[j] = p /\ Stem[j] = Stem[i]}},
           sees |-> FilesOf(w, sees), seen |-> FilesOf(w, seen),
           missing |-> UNION {Names(w, q) \ Direct(w, q) : q \in sees},
           addresses |-> {Addrs[q][w.toml[q]] : q \in {q \in P : There(w, q)}} \ {<<"", "">>}]
Means(w) == [i \in N |-> IF w.file[i] = 0 THEN [package |-> ""] ELSE Meaning(w, i)]

R(x) == RandomElement(0..9999)
Dice(x) == <<R(x), R(x), R(x), R(x), R(x), R(x), R(x), R(x)>>
Init == ws = Start /\ trail = <<[ws |-> Start, ask |-> TRUE, means |-> Means(Start)]>>
\* some texts change, some files or manifests come or go; or everything is as it was before
Becomes(d) ==
  LET i == (d[2] % Len(Files)) + 1
      j == (d[3] % Len(Files)) + 1
      p == <<"P", "M", "D", "U">>[(d[4] % 4) + 1]
      Text(w, k, x) == [w EXCEPT !.file[k] = IF x % 4 = 0 THEN 0 ELSE (x % 3) + 1]
      Toml(w, x) == [w EXCEPT !.toml[p] = IF p # "P" /\ x % 5 = 0 THEN 0 ELSE (x % 4) + 1]
  IN CASE d[1] % 10 <= 3 -> Text(ws, i, d[5])
       [] d[1] % 10 <= 5 -> Text(Text(ws, i, d[5]), j, d[6])
       [] d[1] % 10 <= 7 -> Toml(ws, d[6])
       [] d[1] % 10 = 8 -> Toml(Text(ws, i, d[5]), d[6])
       [] OTHER -> trail[(d[7] % Len(trail)) + 1].ws
Next == /\ Len(trail) < Steps
        /\ \E d \in {Dice(ws)} :
             /\ ws' = Becomes(d)
             /\ trail' = Append(trail, [ws |-> ws', ask |-> d[8] % 3 # 0 \/ Len(trail) = Steps - 1, means |-> Means(ws')])
Spec == Init /\ [][Next]_<<ws, trail>>
\* a file sees its own package; who sees a file is who is seen from there
Dual == \A i, j \in N : LET a == Means(ws)[i] b == Means(ws)[j] IN
          a.package # "" /\ b.package # "" => /\ Files[i] \in a.sees /\ (Files[j] \in a.sees <=> Files[i] \in b.seen)
                                            /\ (Files[j] \in a.specs <=> Files[i] \in b.specs)
\* the meaning of a workspace in the past is the meaning of the same workspace now
Timeless == \A k, l \in DOMAIN trail : trail[k].ws = trail[l].ws => trail[k].means = trail[l].means
Emit == Len(trail) < Steps \/ PrintT(ToJson([trail |-> trail]))
=============================================================================
