-------------------------------- MODULE Lsp --------------------------------
(* Requests, edits, cancellations and shutdown: the server's main loop, its worker threads reading a
   snapshot, edits that cancel readers, retries.  `Allowed` says which answers a client may see;
   `Mech` is checked to give exactly one allowed answer to every request, always. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Kinds == {"sync", "pool", "retry", "diag", "fmt", "unknown", "bad", "badpool"}
\* h: what the client knows about the request.  at: edits sent before it; now: edits sent before the answer came
Allowed(h, o, v, now, downSent) ==
  IF h.down THEN o = "invalid" \/ (h.kind = "shutdown" /\ o = "null") ELSE
  CASE h.kind = "shutdown" -> o = "null"
    [] h.kind = "unknown" -> o = "nomethod"
    [] h.kind = "bad" -> o = "badparams" \/ (o = "default" /\ h.early)
    [] h.kind = "badpool" -> o = "badparams" \/ (o = "default" /\ h.early)
    [] h.kind = "identity" -> o = "same" \/ (o = "cancelled" /\ h.cancel) \/ (o = "modified" /\ (now > h.at \/ h.early))
    [] h.kind = "sync" -> (o = "ok" /\ v = h.at) \/ (o = "default" /\ h.early)
    [] h.kind = "slow" -> o = "cancelled" /\ h.cancel
    [] OTHER -> \/ o = "cancelled" /\ h.cancel
                \/ o = "default" /\ h.early
                \/ o = "ok" /\ v = h.at
                \/ h.kind = "retry" /\ o = "ok" /\ v \in h.at..now
                \/ h.kind = "retry" /\ o = "invalid" /\ downSent /\ (now > h.at \/ h.early)
                \/ h.kind \in {"pool", "fmt"} /\ o = "modified" /\ (now > h.at \/ h.early)  \* while the project is loading it changes by itself
                \/ h.kind = "diag" /\ o = "servercancelled" /\ (now > h.at \/ h.early)
----------------------------------------------------------------------------
CONSTANTS Ids, MaxVer
VARIABLES inbox, ver, reg, running, taskq, out, down, loaded, \* server
          hist, cver, cdown                                   \* client
vars == <<inbox, ver, reg, running, taskq, out, down, loaded, hist, cver, cdown>>
Init == /\ inbox = <<>> /\ ver = 0 /\ reg = {} /\ running = {} /\ taskq = <<>> /\ out = <<>> /\ down = FALSE /\ loaded \in {0, 2}   \* 1: answering, while the project still changes
        /\ hist = <<>> /\ cver = 0 /\ cdown = FALSE
\* client
Sent(i) == i \in DOMAIN hist
Req(i, k) == /\ ~Sent(i) /\ (\A j \in Ids : j < i => Sent(j))
             /\ hist' = hist @@ (i :> [kind |-> k, at |-> cver, cancel |-> FALSE, down |-> cdown, early |-> loaded < 2])
             /\ inbox' = Append(inbox, [m |-> "req", id |-> i, kind |-> k]) /\ cdown' = (cdown \/ k = "shutdown")
             /\ UNCHANGED <<ver, reg, running, taskq, out, down, loaded, cver>>
Edit == cver < MaxVer /\ cver' = cver + 1 /\ inbox' = Append(inbox, [m |-> "chg"]) /\ UNCHANGED <<ver, reg, running, taskq, out, down, loaded, hist, cdown>>
Cancel(i) == /\ Sent(i) /\ ~hist[i].cancel /\ hist' = [hist EXCEPT ![i].cancel = TRUE] /\ inbox' = Append(inbox, [m |-> "cancel", id |-> i])
             /\ UNCHANGED <<ver, reg, running, taskq, out, down, loaded, cver, cdown>>
\* server
Respond(i, o, v) == IF i \in reg THEN reg' = reg \ {i} /\ out' = Append(out, [id |-> i, o |-> o, v |-> v]) ELSE UNCHANGED <<reg, out>>
\* handling a request whose id is registered in `r`
Handle(i, k, r) ==
  LET ans(o, v) == reg' = r \ {i} /\ out' = (IF i \in r THEN Append(out, [id |-> i, o |-> o, v |-> v]) ELSE out) /\ UNCHANGED running IN
  IF k = "shutdown" THEN down' = TRUE /\ ans("null", 0)
  ELSE /\ UNCHANGED down
       /\ IF down THEN ans("invalid", 0)
          ELSE CASE k = "unknown" -> ans("nomethod", 0)
                 [] k = "bad" -> IF loaded > 0 THEN ans("badparams", 0) ELSE ans("default", 0)
                 [] k = "badpool" -> IF loaded > 0 THEN ans("badparams", 0) ELSE ans("default", 0)
                 [] k \in {"sync", "pool", "retry", "diag", "fmt"} /\ loaded = 0 -> ans("default", 0)
                 [] k = "sync" -> ans("ok", ver)
                 [] OTHER -> reg' = r /\ running' = running \cup {[id |-> i, kind |-> k, snap |-> ver]} /\ UNCHANGED out
\* an edit waits until every reader has finished or given up: each one ends one way or the other
Enders(k, i, s) == IF k = "retry" THEN {[m |-> "done", id |-> i, kind |-> k, o |-> "ok", v |-> s], [m |-> "again", id |-> i, kind |-> k, o |-> "", v |-> 0]}
                   ELSE {[m |-> "done", id |-> i, kind |-> k, o |-> "ok", v |-> s],
                         [m |-> "done", id |-> i, kind |-> k, o |-> IF k = "diag" THEN "servercancelled" ELSE "modified", v |-> 0]}
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => f[a] # f[b]}
Choices == IF running = {} THEN {<<>>}
           ELSE UNION {{[n \in DOMAIN p |-> e[p[n]]] : e \in {g \in [running -> UNION {Enders(r.kind, r.id, r.snap) : r \in running}] : \A r \in running : g[r] \in Enders(r.kind, r.id, r.snap)}} : p \in Perms(running)}
Main == /\ inbox # <<>> /\ inbox' = Tail(inbox) /\ UNCHANGED <<hist, cver, cdown, loaded>>
        /\ LET m == Head(inbox) IN
           CASE m.m = "req" -> Handle(m.id, m.kind, reg \cup {m.id}) /\ UNCHANGED <<ver, taskq>>
             [] m.m = "cancel" -> Respond(m.id, "cancelled", 0) /\ UNCHANGED <<ver, running, taskq, down>>
             [] m.m = "chg" -> ver' = ver + 1 /\ (\E c \in Choices : taskq' = taskq \o c) /\ running' = {} /\ UNCHANGED <<reg, out, down>>
Work == \E r \in running : /\ running' = running \ {r} /\ taskq' = Append(taskq, [m |-> "done", id |-> r.id, kind |-> r.kind, o |-> "ok", v |-> r.snap])
                           /\ UNCHANGED <<inbox, ver, reg, out, down, loaded, hist, cver, cdown>>
Task == /\ taskq # <<>> /\ taskq' = Tail(taskq) /\ UNCHANGED <<inbox, ver, loaded, hist, cver, cdown>>
        /\ LET t == Head(taskq) IN
           IF t.m = "done" THEN Respond(t.id, t.o, t.v) /\ UNCHANGED <<running, down>>
           ELSE IF t.id \in reg THEN Handle(t.id, t.kind, reg) ELSE UNCHANGED <<reg, out, running, down>>
Load == loaded = 0 /\ loaded' = 1 /\ UNCHANGED <<inbox, ver, reg, running, taskq, out, down, hist, cver, cdown>>
\* the last of the project's files and dependencies arrive, which cancels readers as an edit does
Settle == /\ loaded = 1 /\ loaded' = 2 /\ (\E c \in Choices : taskq' = taskq \o c) /\ running' = {}
          /\ UNCHANGED <<inbox, ver, reg, out, down, hist, cver, cdown>>
Next == \/ \E i \in Ids : Cancel(i) \/ \E k \in Kinds \cup {"shutdown"} : Req(i, k)
        \/ Edit \/ Main \/ Work \/ Task \/ Load \/ Settle
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(Work) /\ WF_vars(Task)
Once == \A a, b \in DOMAIN out : out[a].id = out[b].id => a = b
Good == \A a \in DOMAIN out : Allowed(hist[out[a].id], out[a].o, out[a].v, cver, cdown)
Answered(i) == \E a \in DOMAIN out : out[a].id = i
\* nobody is forgotten: with nothing in flight every request has its answer
Quiet == inbox = <<>> /\ taskq = <<>> /\ running = {}
None == Quiet => \A i \in DOMAIN hist : Answered(i)
EventuallyAll == \A i \in Ids : (i \in DOMAIN hist) ~> Answered(i)
----------------------------------------------------------------------------
(* Recorded sessions, event by event in the order the client saw them. *)
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, th, tv, td, bad
tvars == <<t, i, th, tv, td, bad>>
frozen == UNCHANGED vars
TInit == /\ Init /\ loaded = 0 /\ t \in DOMAIN Traces /\ i = 0 /\ th = <<>> /\ tv = 0 /\ td = FALSE /\ bad = ""
Ev == Traces[t][i + 1]
TNext == /\ frozen /\ bad = "" /\ i <= Len(Traces[t]) /\ i' = i + 1 /\ t' = t
         /\ IF i = Len(Traces[t])
            THEN /\ bad' = IF \E k \in DOMAIN th : ~th[k].answered THEN "unanswered" ELSE ""
                 /\ UNCHANGED <<th, tv, td>>
            ELSE CASE Ev.e = "req" -> /\ th' = th @@ (Ev.id :> [kind |-> Ev.kind, at |-> tv, cancel |-> FALSE, down |-> td, early |-> Ev.early, answered |-> FALSE])
                                      /\ td' = (td \/ Ev.kind = "shutdown") /\ UNCHANGED <<tv, bad>>
                   [] Ev.e = "chg" -> tv' = tv + 1 /\ UNCHANGED <<th, td, bad>>
                   [] Ev.e = "cancel" -> th' = (IF Ev.id \in DOMAIN th THEN [th EXCEPT ![Ev.id].cancel = TRUE] ELSE th) /\ UNCHANGED <<tv, td, bad>>
                   [] Ev.e = "resp" ->
                        /\ UNCHANGED <<tv, td>>
                        /\ IF Ev.id \notin DOMAIN th THEN bad' = "unasked" /\ UNCHANGED th
                           ELSE /\ th' = [th EXCEPT ![Ev.id].answered = TRUE]
                                /\ bad' = IF th[Ev.id].answered THEN "twice"
                                          ELSE IF Allowed(th[Ev.id], Ev.o, Ev.v, tv, td) THEN "" ELSE "not allowed"
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
Report == bad # "" => PrintT(ToJson([t |-> t, i |-> i, bad |-> bad]))
----------------------------------------------------------------------------
\* client scripts for the replay
R(S) == RandomElement(S)
SK == <<"sync", "pool", "pool", "retry", "retry", "retry", "diag", "diag", "fmt", "fmt", "unknown", "bad", "badpool", "identity">>
ScriptStep == /\ frozen /\ UNCHANGED <<t, tv, td, bad>> /\ i' = i + 1
              /\ \E k \in {R(1..20)}, a \in {R(1..14)}, b \in {R(1..6)}, c \in {R(1..8)} :
                   th' = Append(th, CASE k \in 1..11 -> [a |-> "req", kind |-> SK[a], var |-> b]
                                      [] k \in 12..15 -> [a |-> "edit", kind |-> "", var |-> b]
                                      [] k \in 16..17 -> [a |-> "cancel", kind |-> "", var |-> c]
                                      [] OTHER -> [a |-> "pause", kind |-> "", var |-> b])
SInit == Init /\ loaded = 0 /\ t = 0 /\ i = 0 /\ th = <<>> /\ tv = 0 /\ td = FALSE /\ bad = ""
SSpec == SInit /\ [][ScriptStep]_<<vars, tvars>>
EmitScript == i = 25 => PrintT(ToJson([script |-> th]))
=============================================================================
