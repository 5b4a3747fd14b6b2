------------------------------- MODULE Typing -------------------------------
(* A text under the hands of its author: tokens are deleted, repeated, moved, replaced and put in, most of it leaving
   something broken behind, and taken back again in the opposite order.  A behaviour starts with one of the given texts,
   of which only the number of tokens matters here; it ends with everything undone, so with the text of the start. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Sizes,  \* numbers of tokens of the texts to start with
          Junk,   \* how many words there are which can be put in anywhere
          Depth   \* how many edits at most

VARIABLES i,      \* which text it is
          size,   \* how many tokens it starts with
          text,   \* its tokens now: of the start (1..Sizes[i]), or put in (negative)
          todo,   \* how many edits are still to be made; then they are undone
          done,   \* the edits made: at which place, how many tokens were there, which are there now
          past,   \* the tokens which each of them replaced
          log     \* all edits, the undoing ones too
vars == <<i, size, text, todo, done, past, log>>

Start == [j \in 1..size |-> j]
Replace(t, e) == SubSeq(t, 1, e.at - 1) \o e.new \o SubSeq(t, e.at + e.len, Len(t))
Old(t, e) == SubSeq(t, e.at, e.at + e.len - 1)
Valid(t, e) == e.at >= 1 /\ e.len >= 0 /\ e.at + e.len - 1 <= Len(t)
E(at, len, new) == [at |-> at, len |-> len, new |-> new]
\* what an author does by mistake at place p
Edits(t, p, n, q, w, v) ==
  {E(p, 1, <<>>),                                     \* lost a token
   E(p, n, <<>>),                                     \* lost a few
   E(p, 0, SubSeq(t, p, IF p + n - 1 <= Len(t) THEN p + n - 1 ELSE Len(t))),  \* a few twice
   E(p, 0, <<w>>), E(p, 1, <<w>>), E(p, 0, <<w, v>>), \* something else put in
   E(p, 1, <<t[q]>>), E(p, 0, <<t[q]>>),              \* something from another place
   E(p, Len(t) - p + 1, <<>>)}                        \* not written yet
  \cup (IF p < Len(t) THEN {E(p, 2, <<t[p + 1], t[p]>>)} ELSE {})
Sound(t, p, n, q, w, v) == {e \in Edits(t, p, n, q, w, v) : Valid(t, e)}

Init == i = 0 /\ size = 0 /\ text = <<>> /\ todo = 0 /\ done = <<>> /\ past = <<>> /\ log = <<>>
Open == /\ i = 0
        /\ \E k \in DOMAIN Sizes : i' = k /\ size' = Sizes[k]
        /\ text' = [j \in 1..size' |-> j]
        /\ todo' \in 1..Depth
        /\ UNCHANGED <<done, past, log>>
Make(e) ==
  /\ text' = Replace(text, e)
  /\ done' = Append(done, e) /\ past' = Append(past, Old(text, e)) /\ log' = Append(log, e)
  /\ todo' = todo - 1 /\ UNCHANGED <<i, size>>
Undo ==
  /\ todo <= 0 /\ done # <<>>
  /\ LET k == Len(done)
         e == E(done[k].at, Len(done[k].new), past[k])
     IN /\ text' = Replace(text, e)
        /\ log' = Append(log, e)
        /\ done' = SubSeq(done, 1, k - 1) /\ past' = SubSeq(past, 1, k - 1)
  /\ UNCHANGED <<i, size, todo>>
Edit == i # 0 /\ todo > 0 /\ text # <<>>
        /\ \E p \in 1..Len(text), q \in 1..Len(text), n \in 2..4, w \in 1..Junk, v \in 1..Junk :
             \E e \in Sound(text, p, n, q, -w, -v) : Make(e)
Stop == i # 0 /\ todo > 0 /\ text = <<>> /\ todo' = 0 /\ UNCHANGED <<i, size, text, done, past, log>>
Next == Open \/ Edit \/ Stop \/ Undo

\* at random: one edit per step
Pick(S) == IF todo >= 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
EditAtRandom ==
  /\ i # 0 /\ todo > 0 /\ text # <<>>
  /\ \E e \in {LET p == Pick(1..Len(text)) IN Pick(Sound(text, p, Pick(2..9), Pick(1..Len(text)), -Pick(1..Junk), -Pick(1..Junk)))} : Make(e)
OpenAtRandom ==
  /\ i = 0
  /\ \E k \in {Pick(DOMAIN Sizes)} : i' = k /\ size' = Sizes[k]
  /\ text' = [j \in 1..size' |-> j]
  /\ todo' = Pick(1..Depth)
  /\ UNCHANGED <<done, past, log>>
NextAtRandom == OpenAtRandom \/ EditAtRandom \/ Stop \/ Undo
Spec == Init /\ [][Next]_vars
SpecAtRandom == Init /\ [][NextAtRandom]_vars

\* undoing leads back, edit by edit: what is there now is what the edits not yet undone make of the start
RECURSIVE After(_, _)
After(t, s) == IF s = <<>> THEN t ELSE After(Replace(t, Head(s)), Tail(s))
Restored == i = 0 \/ text = After(Start, done)
Ended == i # 0 /\ todo <= 0 /\ done = <<>>
BackAtStart == Ended => text = Start
AllOld == i = 0 \/ \A j \in DOMAIN text : text[j] # 0 /\ text[j] >= -Junk /\ text[j] <= size
Emit == ~Ended \/ log = <<>> \/ PrintT(ToJson([i |-> i, log |-> log]))

SizesMC == <<0, 1, 3>>
SizesSim == JsonDeserialize(IOEnv.SIZES)
=============================================================================
