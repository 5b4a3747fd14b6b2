--------------------------- MODULE DocSyncMech ---------------------------
(* The server's mechanism for one file, step by step: the main loop's document store and virtual
   file system, the loader thread with its first-in-first-out queue, the package reload that rescans
   the folder.  Checked: whenever nothing is in flight, the analysed text is the one DocSync asks for;
   and it always gets there. *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Contents, None, MaxActs
VARIABLES disk, opened, seen,   \* DocSync
          vfs, db,              \* what the virtual file system and the analysis hold
          lq, mq,               \* loader's orders, loader's messages to the main loop
          syncing, reload, acts \* scan announced and not finished; reload wanted; client steps left
vars == <<disk, opened, seen, vfs, db, lq, mq, syncing, reload, acts>>
D == INSTANCE DocSync WITH Files <- {"f"}, disk <- [f \in {"f"} |-> disk], opened <- [f \in {"f"} |-> opened],
                           seen <- [f \in {"f"} |-> seen], last <- 0, log <- 0
C0 == Contents \cup {None}
Init == /\ disk \in C0 /\ seen = disk /\ opened = None /\ vfs = None /\ db = None
        /\ lq = <<"scan">> /\ mq = <<>> /\ syncing = FALSE /\ reload = FALSE /\ acts = MaxActs
\* after every main loop turn: changes reach the analysis unless a scan is running
After(nvfs, nsync) ==
  /\ vfs' = nvfs /\ syncing' = nsync
  /\ IF nsync THEN UNCHANGED <<db, reload>>
     ELSE /\ db' = nvfs
          /\ reload' = (reload \/ (db = None) # (nvfs = None))
Client == acts > 0 /\ acts' = acts - 1
Open(c) == Client /\ opened = None /\ opened' = c /\ After(c, syncing) /\ UNCHANGED <<disk, seen, lq, mq>>
Change(c) == Client /\ opened # None /\ opened' = c /\ After(c, syncing) /\ UNCHANGED <<disk, seen, lq, mq>>
Close == Client /\ opened # None /\ opened' = None /\ seen' = disk /\ lq' = Append(lq, "inv") /\ After(vfs, syncing) /\ UNCHANGED <<disk, mq>>
Write(c) == /\ Client /\ disk' = c /\ seen' = (IF opened = None THEN c ELSE seen) /\ lq' = Append(lq, "inv") /\ After(vfs, syncing)
            /\ UNCHANGED <<opened, mq>>
Silent(c) == Client /\ opened # None /\ disk' = c /\ UNCHANGED <<opened, seen, vfs, db, lq, mq, syncing, reload>>
\* a structural change restarts the scan (package reload, then a new loader configuration)
Reload == reload /\ reload' = FALSE /\ lq' = Append(lq, "scan") /\ UNCHANGED <<disk, opened, seen, vfs, db, mq, syncing, acts>>
Loader == /\ lq # <<>> /\ lq' = Tail(lq)
          /\ mq' = mq \o (IF Head(lq) = "inv" THEN <<<<"changed", disk>>>> ELSE <<<<"begin", None>>, <<"loaded", disk>>, <<"end", None>>>>)
          /\ UNCHANGED <<disk, opened, seen, vfs, db, syncing, reload, acts>>
Main == /\ mq # <<>> /\ mq' = Tail(mq) /\ UNCHANGED <<disk, opened, seen, lq, acts>>
        /\ LET k == Head(mq)[1]  c == Head(mq)[2] IN
           CASE k = "changed" -> After(IF opened = None THEN c ELSE vfs, syncing)
             [] k = "loaded" -> After(IF opened = None /\ vfs = None THEN c ELSE vfs, syncing)
             [] k = "begin" -> After(vfs, TRUE)
             [] k = "end" -> After(vfs, FALSE)
Next == \/ \E c \in Contents : Open(c) \/ Change(c) \/ Write(c)
        \/ Close \/ Write(None) \/ (\E c \in C0 : Silent(c)) \/ Reload \/ Loader \/ Main
Spec == Init /\ [][Next]_vars /\ WF_vars(Reload) /\ WF_vars(Loader) /\ WF_vars(Main)
Quiet == lq = <<>> /\ mq = <<>> /\ ~reload /\ ~syncing
Correct == Quiet => db = D!Text["f"]
Settles == <>[](Quiet /\ db = D!Text["f"])
\* every step is a step of DocSync or invisible to it
Refines == [][D!Next]_<<disk, opened, seen>>
==========================================================================
