------------------------------- MODULE LspMC -------------------------------
\* the mechanism alone: the variables of the trace part stay put
EXTENDS Lsp
Frozen == t = 0 /\ i = 0 /\ th = 0 /\ tv = 0 /\ td = 0 /\ bad = 0
MSpec == Init /\ Frozen /\ [][Next /\ UNCHANGED tvars]_<<vars, tvars>> /\ WF_vars(Main /\ UNCHANGED tvars) /\ WF_vars(Work /\ UNCHANGED tvars) /\ WF_vars(Task /\ UNCHANGED tvars)
=============================================================================
