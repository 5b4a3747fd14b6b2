------------------------------ MODULE DocSync ------------------------------
(* Which text the server must be working on for a file, for every history of a client: files open
   with a text of their own, edited, saved and closed; files written and deleted on disk with a
   notification, and silently while open.  `Text` is what an observer must see once the server has
   settled, however the steps interleave with its loader. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Files, Contents, None
VARIABLES disk, opened, seen
v == <<disk, opened, seen>>
Text == [f \in Files |-> IF opened[f] # None THEN opened[f] ELSE seen[f]]
Init == /\ disk \in [Files -> Contents \cup {None}] /\ seen = disk /\ opened = [f \in Files |-> None]
Up(fn, f, c) == [fn EXCEPT ![f] = c]
Open(f, c) == opened[f] = None /\ opened' = Up(opened, f, c) /\ UNCHANGED <<disk, seen>>
Change(f, c) == opened[f] # None /\ opened' = Up(opened, f, c) /\ UNCHANGED <<disk, seen>>
\* a change for a file that is not open is ignored
Orphan(f, c) == opened[f] = None /\ UNCHANGED v
Close(f) == opened[f] # None /\ opened' = Up(opened, f, None) /\ seen' = Up(seen, f, disk[f]) /\ UNCHANGED disk
Save(f) == opened[f] # None /\ disk' = Up(disk, f, opened[f]) /\ UNCHANGED <<opened, seen>>
\* written or deleted by someone else, and the client reports it
Write(f, c) == /\ disk' = Up(disk, f, c) /\ UNCHANGED opened
               /\ seen' = IF opened[f] = None THEN Up(seen, f, c) ELSE seen
Delete(f) == /\ disk[f] # None /\ disk' = Up(disk, f, None) /\ UNCHANGED opened
             /\ seen' = IF opened[f] = None THEN Up(seen, f, None) ELSE seen
\* written without a report: only while open, the client must win and the close must notice
Silent(f, c) == opened[f] # None /\ disk' = Up(disk, f, c) /\ UNCHANGED <<opened, seen>>
Next == \E f \in Files :
          \/ \E c \in Contents : Open(f, c) \/ Change(f, c) \/ Orphan(f, c) \/ Write(f, c) \/ Silent(f, c)
          \/ Close(f) \/ Save(f) \/ Delete(f) \/ Silent(f, None)
Spec == Init /\ [][Next]_v
\* the client's text always wins, and a closed file shows what is on disk
Wins == \A f \in Files : opened[f] # None => Text[f] = opened[f]
Fresh == \A f \in Files : opened[f] = None => Text[f] = disk[f]
----------------------------------------------------------------------------
Act(a, f, c) == [a |-> a, f |-> f, c |-> c]
State == [disk |-> disk, opened |-> opened, seen |-> seen]
\* the labelled graph, one line per edge
VARIABLES last, log
LNext == UNCHANGED log /\ \E f \in Files :
          \/ \E c \in Contents : \/ Open(f, c) /\ last' = Act("open", f, c)
                                 \/ Change(f, c) /\ last' = Act("change", f, c)
                                 \/ Orphan(f, c) /\ last' = Act("orphan", f, c)
                                 \/ Write(f, c) /\ last' = Act("write", f, c)
                                 \/ Silent(f, c) /\ last' = Act("silent", f, c)
          \/ Close(f) /\ last' = Act("close", f, None)
          \/ Save(f) /\ last' = Act("save", f, None)
          \/ Delete(f) /\ last' = Act("delete", f, None)
          \/ Silent(f, None) /\ last' = Act("silent", f, None)
LInit == Init /\ log = 0 /\ last = Act("init", CHOOSE f \in Files : TRUE, None)
LSpec == LInit /\ [][LNext]_<<v, last, log>>
View == v
\* a function over files printed as a list of pairs keeps its keys
P(fn) == {<<f, fn[f]>> : f \in Files}
PrintEdge == PrintT(ToJson([from |-> [d |-> disk, o |-> opened, s |-> seen], act |-> last', to |-> [d |-> disk', o |-> opened', s |-> seen']]))
EmitInit == TLCGet("level") = 1 => PrintT(ToJson([start |-> [d |-> disk, o |-> opened, s |-> seen]]))
----------------------------------------------------------------------------
\* random histories for replay: single successor per step
R(S) == RandomElement(S)
SInit == /\ disk = [f \in Files |-> IF f = "O" THEN None ELSE CHOOSE c \in Contents : TRUE] /\ seen = disk
         /\ opened = [f \in Files |-> None] /\ log = <<>> /\ last = 0
Step(f, c, k) ==
   IF opened[f] = None
   THEN CASE k \in 1..5 -> Open(f, c) /\ log' = Append(log, [act |-> Act("open", f, c), text |-> Text'])
          [] k = 6 -> Orphan(f, c) /\ log' = Append(log, [act |-> Act("orphan", f, c), text |-> Text'])
          [] k \in 7..8 /\ disk[f] # None -> Delete(f) /\ log' = Append(log, [act |-> Act("delete", f, None), text |-> Text'])
          [] OTHER -> Write(f, c) /\ log' = Append(log, [act |-> Act("write", f, c), text |-> Text'])
   ELSE CASE k \in 1..3 -> Change(f, c) /\ log' = Append(log, [act |-> Act("change", f, c), text |-> Text'])
          [] k \in 4..7 -> Close(f) /\ log' = Append(log, [act |-> Act("close", f, None), text |-> Text'])
          [] k = 8 -> Save(f) /\ log' = Append(log, [act |-> Act("save", f, None), text |-> Text'])
          [] k = 9 /\ disk[f] # None -> Delete(f) /\ log' = Append(log, [act |-> Act("delete", f, None), text |-> Text'])
          [] k = 10 -> Write(f, c) /\ log' = Append(log, [act |-> Act("write", f, c), text |-> Text'])
          [] OTHER -> Silent(f, c) /\ log' = Append(log, [act |-> Act("silent", f, c), text |-> Text'])
SNext == \E f \in {R(Files)}, c \in {R(Contents)}, k \in {R(1..12)} : Step(f, c, k) /\ UNCHANGED last
SSpec == SInit /\ [][SNext]_<<v, last, log>>
EmitS == Len(log) = 30 => PrintT(ToJson([start |-> [d |-> [f \in Files |-> IF f = "O" THEN None ELSE CHOOSE c \in Contents : TRUE]], log |-> log]))
=============================================================================
