------------------------------ MODULE DocText ------------------------------
(* A text document as a client edits it: characters with a different width in each of the three
   position encodings, two line terminators, edits given by line and column, batches in which every
   edit refers to the text the previous one left, whole-document replacements in the middle of a
   batch, and the full-document edit a formatter's answer becomes. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Enc == IOEnv.ENC
\* a: one byte; e: é; u: €; g: a character outside the BMP; n: LF; r: CR LF (never addressed inside)
Eol == {"n", "r"}
Units(c) == CASE c = "e" -> IF Enc = "utf-8" THEN 2 ELSE 1
              [] c = "u" -> IF Enc = "utf-8" THEN 3 ELSE 1
              [] c = "g" -> IF Enc = "utf-8" THEN 4 ELSE IF Enc = "utf-16" THEN 2 ELSE 1
              [] OTHER -> 1
RECURSIVE Pos(_, _)
\* the position before character i+1
Pos(t, i) == IF i = 0 THEN [l |-> 0, c |-> 0]
             ELSE LET p == Pos(t, i - 1) IN
                  IF t[i] \in Eol THEN [l |-> p.l + 1, c |-> 0] ELSE [l |-> p.l, c |-> p.c + Units(t[i])]
Replace(t, s, e, new) == SubSeq(t, 1, s) \o new \o SubSeq(t, e + 1, Len(t))
\* a column beyond the end of the last line means its end
Beyond(t, i) == IF i = Len(t) THEN {0, 3} ELSE {0}
Edit(t, s, e, new, x) == [s |-> Pos(t, s), e |-> [Pos(t, e) EXCEPT !.c = @ + x], t |-> new]
IsDos(t) == \E i \in DOMAIN t : t[i] = "r"
EndsAs(t, dos) == [i \in DOMAIN t |-> IF t[i] \in Eol THEN (IF dos THEN "r" ELSE "n") ELSE t[i]]
\* a formatter that puts one X in front of what it is given
Formatted(t) == [e |-> Pos(t, Len(t)), t |-> <<"X">> \o EndsAs(t, IsDos(t))]

VARIABLES text, cur, batch, log
vars == <<text, cur, batch, log>>
----------------------------------------------------------------------------
\* exhaustive: every short text, one edit
SmallChars == {"a", "g", "n", "r"}
Texts == UNION {[1..k -> SmallChars] : k \in 0..3}
News == {<<>>, <<"e">>, <<"n">>, <<"r">>, <<"g", "n", "a">>}
Init1 == /\ text \in Texts /\ log = <<>>
         /\ \E s \in 0..Len(text), e \in 0..Len(text), new \in News, x \in {0, 3} :
              /\ s <= e /\ x \in Beyond(text, e)
              /\ batch = <<Edit(text, s, e, new, x)>> /\ cur = Replace(text, s, e, new)
Next1 == FALSE /\ UNCHANGED vars
\* positions name places in the text one-to-one and in order; an edit can be undone by an edit
LT(p, q) == p.l < q.l \/ (p.l = q.l /\ p.c < q.c)
PosOk == \A i, j \in 0..Len(cur) : i < j => LT(Pos(cur, i), Pos(cur, j))
UndoOk == \A s \in 0..Len(text) : \A e \in s..Len(text) : \A new \in News :
            Replace(Replace(text, s, e, new), s, s + Len(new), SubSeq(text, s + 1, e)) = text
FmtOk == ~(\E i \in DOMAIN cur : cur[i] = "n") \/ ~IsDos(cur) => Replace(<<>>, 0, 0, Formatted(cur).t) = <<"X">> \o cur
Emit1 == PrintT(ToJson([init |-> text, batches |-> <<[ch |-> batch, text |-> cur, fmt |-> Formatted(cur)]>>]))
----------------------------------------------------------------------------
\* random: a document, K batches of one to four edits
K == 4
R(S) == RandomElement(S)
Chars == {"a", "e", "u", "g", "n", "r", "b"}
Bits == UNION {[1..k -> Chars] : k \in 0..3}
\* half the documents have uniform line ends
Uni(t, m) == IF m = 1 THEN EndsAs(t, FALSE) ELSE IF m = 2 THEN EndsAs(t, TRUE) ELSE t
InitR == /\ log = <<>> /\ batch = <<>> /\ text = <<>> /\ cur = <<>>
Start == /\ log = <<>> /\ text = <<>>
         /\ \E a \in {R(Bits)}, b \in {R(Bits)}, c \in {R(Bits)}, d \in {R(Bits)}, m \in {R(1..4)} :
              LET t == Uni(a \o b \o c \o d, m) IN text' = IF t = <<>> THEN <<"a">> ELSE t
         /\ cur' = text' /\ UNCHANGED <<batch, log>>
Part == /\ \E s \in {R(0..Len(cur))} : \E e \in {R(s..Len(cur))} : \E near \in {R(s..(IF s + 2 > Len(cur) THEN Len(cur) ELSE s + 2))}, k \in {R(1..3)}, new \in {R(Bits)} :
             LET f == IF k = 1 THEN e ELSE near IN
             \E x \in {R(Beyond(cur, f))} :
                /\ batch' = Append(batch, Edit(cur, s, f, new, x)) /\ cur' = Replace(cur, s, f, new)
Whole == \E a \in {R(Bits)}, b \in {R(Bits)} : batch' = Append(batch, [whole |-> a \o b]) /\ cur' = a \o b
Send == /\ log' = Append(log, [ch |-> batch, text |-> cur, fmt |-> Formatted(cur)]) /\ batch' = <<>>
NextR == IF text = <<>> THEN Start ELSE
         \E k \in {R(1..20)} :
           /\ UNCHANGED text
           /\ IF Len(batch) > 0 /\ (k < 7 \/ Len(batch) = 4) THEN Send /\ UNCHANGED cur
              ELSE IF k = 20 THEN Whole /\ UNCHANGED log ELSE Part /\ UNCHANGED log
EmitR == (Len(log) = K /\ batch = <<>>) => PrintT(ToJson([init |-> text, batches |-> log]))
ConR == Len(log) < K
Spec1 == Init1 /\ [][Next1]_vars
SpecR == InitR /\ [][NextR]_vars
=============================================================================
