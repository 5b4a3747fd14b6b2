---------------------------- MODULE LineEndings ----------------------------
(* How a file's line terminators are brought to the internal form and back.  *)
(* Text is a sequence of abstract characters: "CR", "LF", "a" (one byte),     *)
(* "u" (several bytes in UTF-8) and "w" (a long run without any terminator,   *)
(* which the replay expands past every block size of the byte searcher).      *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils, FiniteSets

CONSTANT Chars
N == atoi(IOEnv.N)

VARIABLE in
vars == <<in>>

\* A CR is dropped exactly when a LF follows it in the source.
Dropped(s, i) == s[i] = "CR" /\ i < Len(s) /\ s[i+1] = "LF"
HasCrLf(s) == \E i \in 1..Len(s) : Dropped(s, i)
Kept(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : ~Dropped(s, i))
Normal(s) == [k \in 1..Len(Kept(s)) |-> s[Kept(s)[k]]]
ToDos(s) == FlattenSeq([i \in 1..Len(s) |-> IF s[i] = "LF" THEN <<"CR", "LF">> ELSE <<s[i]>>])
Restore(s) == IF HasCrLf(s) THEN ToDos(Normal(s)) ELSE Normal(s)

Uniform(s) == \A i \in 1..Len(s) : s[i] = "LF" => (i > 1 /\ s[i-1] = "CR")

Init == in \in UNION {[1..n -> Chars] : n \in 0..N}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
NonCr(s) == SelectSeq(s, LAMBDA c : c # "CR")
Lossless == NonCr(Normal(in)) = NonCr(in)              \* only CRs ever go away
OnlyPairs == Len(in) - Len(Normal(in)) = Cardinality({i \in 1..Len(in) : Dropped(in, i)})
UnixUntouched == ~HasCrLf(in) => Normal(in) = in
RoundTripDos == (HasCrLf(in) /\ Uniform(in)) => Restore(in) = in
RoundTripUnix == ~HasCrLf(in) => Restore(in) = in
Stable == Normal(Restore(in)) = Normal(in)             \* writing the file back changes nothing a reader sees

Emit == PrintT(ToJson([s |-> in, text |-> Normal(in), dos |-> HasCrLf(in), back |-> Restore(in), asdos |-> ToDos(Normal(in))]))
=============================================================================
