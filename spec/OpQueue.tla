------------------------------ MODULE OpQueue ------------------------------
(* The queue in front of a long-running operation (reloading the packages).   *)
(* Callers request; the server loop starts at most one operation at a time    *)
(* and is told when it ends.  Requests made meanwhile coalesce into the       *)
(* newest one, which runs next.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Causes, Args, Results, MaxReq

VARIABLES
  req,      \* <<>> or the pending request <<cause, arg>>
  run,      \* set of operations started and not ended
  last,     \* result of the newest ended operation, 0 when none has ended
  asked,    \* number of requests made                     (history)
  served,   \* number of the newest request that started   (history)
  act
vars == <<req, run, last, asked, served, act>>
View == <<req, run, last, asked, served>>
Proj == [req |-> req # <<>>, run |-> run # {}, last |-> last]

Init == req = <<>> /\ run = {} /\ last = 0 /\ asked = 0 /\ served = 0 /\ act = [n |-> "init"]

Request(c, a) ==
  /\ asked < MaxReq
  /\ req' = <<c, a>> /\ asked' = asked + 1
  /\ act' = [n |-> "request", c |-> c, a |-> a]
  /\ UNCHANGED <<run, last, served>>

\* The loop polls the queue: what it gets is the pending request, and only when nothing runs.
StartOp ==
  /\ run = {} /\ req # <<>>
  /\ run' = {req} /\ req' = <<>> /\ served' = asked
  /\ act' = [n |-> "start", got |-> req]
  /\ UNCHANGED <<last, asked>>
PollNothing ==
  /\ run # {} \/ req = <<>>
  /\ act' = [n |-> "start", got |-> <<>>]
  /\ UNCHANGED <<req, run, last, asked, served>>

Complete(r) ==
  /\ run # {}
  /\ run' = {} /\ last' = r
  /\ act' = [n |-> "complete", r |-> r]
  /\ UNCHANGED <<req, asked, served>>

Next == (\E c \in Causes, a \in Args : Request(c, a)) \/ StartOp \/ PollNothing \/ (\E r \in Results : Complete(r))
Spec == Init /\ [][Next]_vars /\ WF_vars(StartOp) /\ WF_vars(\E r \in Results : Complete(r))

\* ------------------------------------------------------------- properties
AtMostOne == Cardinality(run) <= 1
NothingForgotten == (served < asked) <=> (req # <<>>)
NewestWins == [][ act'.n = "start" /\ act'.got # <<>> => served' = asked ]_vars
StartsOnlyIdle == [][ act'.n = "start" /\ act'.got # <<>> => run = {} ]_vars
EventuallyServed == (asked > served) ~> (asked = served)

St == [req |-> req, run |-> run, last |-> last, asked |-> asked, served |-> served]
Emit == PrintT(ToJson([from |-> St, act |-> act', to |-> [req |-> req', run |-> run', last |-> last', asked |-> asked', served |-> served']]))
=============================================================================
