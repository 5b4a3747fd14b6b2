------------------------------- MODULE Lexer -------------------------------
(* The lexical grammar of Move source as the language server reads it: how any *)
(* text at all is cut into tokens.  A text is a sequence of characters; those   *)
(* that TLA+ strings cannot carry have names: SP TAB NL CR, DQ and BS (quote    *)
(* and backslash), U2 U3 U4 (letters of 2, 3 and 4 bytes) and CM (a combining   *)
(* mark, which makes one cluster with the character before it).                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

N == atoi(IOEnv.N)
SetName == IOEnv.ALPHABET

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","F","Z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}
Alpha == Lower \cup Upper \cup {"_"}
AlNum == Alpha \cup Digit
Hex   == Digit \cup {"a","b","c","d","e","f","A","F","_"}
White == {"SP", "TAB", "NL"}

Punct == [x \in {"=","<",">","!","&","|","+","-","*","/","PCT","^",".",":",",",";","(",")","[","]","{","}","@","#"} |->
  CASE x = "=" -> "EQ" [] x = "<" -> "L_ANGLE" [] x = ">" -> "R_ANGLE" [] x = "!" -> "BANG" [] x = "&" -> "AMP"
    [] x = "|" -> "PIPE" [] x = "+" -> "PLUS" [] x = "-" -> "MINUS" [] x = "*" -> "STAR" [] x = "/" -> "SLASH"
    [] x = "PCT" -> "PERCENT" [] x = "^" -> "CARET" [] x = "." -> "DOT" [] x = ":" -> "COLON" [] x = "," -> "COMMA"
    [] x = ";" -> "SEMICOLON" [] x = "(" -> "L_PAREN" [] x = ")" -> "R_PAREN" [] x = "[" -> "L_BRACK"
    [] x = "]" -> "R_BRACK" [] x = "{" -> "L_CURLY" [] x = "}" -> "R_CURLY" [] x = "@" -> "AT" [] x = "#" -> "POUND"]
\* operators of several characters that are one token wherever they stand; `<` and `>` never join here,
\* because `Vec<Vec<u8>>` ends in two closing brackets
Long == << <<<<"=","=",">">>, "IMPLIES">>, <<<<"=",">">>, "FAT_ARROW">>, <<<<"=","=">>, "EQ_EQ">>, <<<<"!","=">>, "NOT_EQ">>,
           <<<<"&","=">>, "AMP_EQ">>, <<<<"|","=">>, "PIPE_EQ">>, <<<<"+","=">>, "PLUS_EQ">>, <<<<"-","=">>, "MINUS_EQ">>,
           <<<<"*","=">>, "STAR_EQ">>, <<<<"/","=">>, "SLASH_EQ">>, <<<<"PCT","=">>, "PERCENT_EQ">>, <<<<"^","=">>, "CARET_EQ">>,
           <<<<".",".">>, "DOT_DOT">>, <<<<":",":">>, "COLON_COLON">> >>
Suffixes == {<<"u","8">>, <<"i","8">>, <<"u","1","6">>, <<"u","3","2">>, <<"u","6","4">>, <<"i","1","6">>, <<"i","3","2">>,
             <<"i","6","4">>, <<"u","1","2","8">>, <<"u","2","5","6">>, <<"i","1","2","8">>, <<"i","2","5","6">>}
Keywords == {<<"i","f">>, <<"a","s">>, <<"l","e","t">>, <<"m","u","t">>, <<"f","u","n">>, <<"u","s","e">>, <<"m","o","v","e">>}
KwName(w) == CASE w = <<"i","f">> -> "IF_KW" [] w = <<"a","s">> -> "AS_KW" [] w = <<"l","e","t">> -> "LET_KW"
               [] w = <<"m","u","t">> -> "MUT_KW" [] w = <<"f","u","n">> -> "FUN_KW" [] w = <<"u","s","e">> -> "USE_KW"
               [] w = <<"m","o","v","e">> -> "MOVE_KW" [] w = <<"_">> -> "UNDERSCORE" [] OTHER -> "IDENT"

VARIABLES in, cnt, out      \* the text typed so far, in how many pieces, and the tokens it is cut into
vars == <<in, cnt, out>>

\* s has the characters w at position i
Has(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : s[i + k - 1] = w[k]
\* the first position from i on that is outside C
RECURSIVE Past(_, _, _)
Past(s, i, C) == IF i <= Len(s) /\ s[i] \in C THEN Past(s, i + 1, C) ELSE i
\* the first position from i on that holds c, or one past the end
RECURSIVE Find(_, _, _)
Find(s, i, c) == IF i > Len(s) \/ s[i] = c THEN i ELSE Find(s, i + 1, c)
\* where the line that i is on ends: before its NL, and before a CR that belongs to it
LineEnd(s, i) == LET n == Find(s, i, "NL") IN IF n <= Len(s) /\ n > i /\ s[n - 1] = "CR" THEN n - 1 ELSE n
\* characters that make one user-visible character
Cluster(s, i) == IF s[i] = "CR" /\ i < Len(s) /\ s[i+1] = "NL" THEN i + 2
                 ELSE IF s[i] \in {"CR", "NL", "TAB"} THEN i + 1
                 ELSE Past(s, i + 1, {"CM"})
\* past the end of the block comment whose inside starts at i, d comments deep
RECURSIVE Block(_, _, _)
Block(s, i, d) == IF i > Len(s) THEN i
                  ELSE IF Has(s, i, <<"/", "*">>) THEN Block(s, i + 2, d + 1)
                  ELSE IF Has(s, i, <<"*", "/">>) THEN (IF d = 1 THEN i + 2 ELSE Block(s, i + 2, d - 1))
                  ELSE Block(s, i + 1, d)
\* past the closing quote of a byte string whose inside starts at i and must end before e; 0 if it is not closed
RECURSIVE Quoted(_, _, _)
Quoted(s, i, e) == IF i >= e THEN 0
                   ELSE IF s[i] = "DQ" THEN i + 1
                   ELSE IF s[i] = "BS" THEN (IF i + 1 < e THEN Quoted(s, i + 2, e) ELSE 0)
                   ELSE Quoted(s, i + 1, e)
Suffix(s, i) == LET S == {w \in Suffixes : Has(s, i, w)} IN IF S = {} THEN i ELSE i + Len(CHOOSE w \in S : TRUE)

\* the token at position i: its kind and the position past it
Tok(s, i) ==
  LET c == s[i] IN
  IF Cluster(s, i) > i + 1 THEN <<"BAD_CHARACTER", Cluster(s, i)>>
  ELSE IF Has(s, i, <<"/", "/">>) THEN <<"COMMENT", LineEnd(s, i)>>
  ELSE IF Has(s, i, <<"/", "*">>) THEN <<"COMMENT", Block(s, i + 2, 1)>>
  ELSE IF c \in White THEN <<"WHITESPACE", Past(s, i, White)>>
  ELSE IF c \in Digit THEN
    IF Has(s, i, <<"0", "x">>) /\ Suffix(s, Past(s, i + 2, Hex)) > i + 2
    THEN <<"INT_NUMBER", Suffix(s, Past(s, i + 2, Hex))>>
    ELSE IF Has(s, i, <<"0", "x">>) /\ i + 2 <= Len(s) THEN <<"INT_NUMBER", i + 1>>
    ELSE <<"INT_NUMBER", Suffix(s, Past(s, i, Digit \cup {"_"}))>>
  ELSE IF Has(s, i, <<"x", "DQ">>) THEN
    LET e == Past(s, i + 2, AlNum \ {"_"}) IN <<"HEX_STRING", IF e <= Len(s) /\ s[e] = "DQ" THEN e + 1 ELSE e>>
  ELSE IF Has(s, i, <<"b", "DQ">>) THEN
    LET q == Quoted(s, i + 2, LineEnd(s, i)) IN <<"BYTE_STRING", IF q = 0 THEN LineEnd(s, i) ELSE q>>
  ELSE IF c \in Alpha THEN
    LET e == Past(s, i, AlNum) IN <<KwName(SubSeq(s, i, e - 1)), e>>
  ELSE IF c = "'" /\ i < Len(s) /\ s[i+1] \in Alpha THEN <<"QUOTE_IDENT", Past(s, i + 1, AlNum)>>
  ELSE LET L == {k \in 1..Len(Long) : Has(s, i, Long[k][1])} IN
    IF L # {} THEN LET k == CHOOSE k \in L : \A j \in L : Len(Long[k][1]) >= Len(Long[j][1]) IN <<Long[k][2], i + Len(Long[k][1])>>
    ELSE IF c \in DOMAIN Punct THEN <<Punct[c], i + 1>>
    ELSE <<"BAD_CHARACTER", i + 1>>

RECURSIVE Lex(_, _)
Lex(s, i) == IF i > Len(s) THEN <<>> ELSE LET t == Tok(s, i) IN <<<<t[1], t[2] - i>>>> \o Lex(s, t[2])

Alphabet ==
  CASE SetName = "comments" -> {<<"/">>, <<"*">>, <<"a">>, <<"NL">>, <<"U2">>, <<"CR">>}
    [] SetName = "clusters" -> {<<"/">>, <<"*">>, <<"a">>, <<"1">>, <<"SP">>, <<"NL">>, <<"CM">>, <<"U3">>, <<"CR">>, <<"'">>}
    [] SetName = "numbers"  -> {<<"0">>, <<"x">>, <<"1">>, <<"_">>, <<"u","8">>, <<"i","1","6">>, <<"f">>, <<".">>}
    [] SetName = "strings"  -> {<<"b">>, <<"x">>, <<"DQ">>, <<"BS">>, <<"NL">>, <<"a">>, <<"CR">>, <<"U2">>}
    [] SetName = "puncts"   -> {<<p>> : p \in DOMAIN Punct \ {"#"}} \cup {<<"'">>, <<"a">>}
    [] SetName = "mixed"    -> {<<p>> : p \in {"=","<",">","!","&","|","+","-","*","/","PCT","^",".",":",",",";","(","}","@","'",
                                   "a","b","x","0","7","_","SP","TAB","NL","CR","DQ","BS","U2","U3","U4","CM"}}
                               \cup Keywords \cup Suffixes \cup {<<"/","*">>, <<"*","/">>, <<"/","/">>, <<"0","x">>, <<"b","DQ">>, <<"x","DQ">>,
                                   <<"m","o","v","e","_","t","o">>, <<"i","f","0">>, <<"CR","NL">>, <<"$">>, <<"U4">>, <<"'","a">>}

Init == in = <<>> /\ cnt = 0 /\ out = <<>>
\* one more piece is typed at the end
Type(p) == cnt < N /\ cnt' = cnt + 1 /\ in' = in \o p /\ out' = Lex(in', 1)
Next == IF IOEnv.RANDOM = "0" THEN \E p \in Alphabet : Type(p) ELSE \E p \in {RandomElement(Alphabet)} : Type(p)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties of the lexical grammar
RECURSIVE Sum(_, _)
Sum(q, k) == IF k = 0 THEN 0 ELSE q[k][2] + Sum(q, k - 1)
Tiles == Sum(out, Len(out)) = Len(in) /\ \A k \in 1..Len(out) : out[k][2] >= 1     \* every character is in exactly one token
Separated == \A k \in 1..(Len(out) - 1) :                                           \* what lies next to each other was kept apart by the grammar
  /\ ~(out[k][1] = "WHITESPACE" /\ out[k+1][1] = "WHITESPACE")
  /\ ~(out[k][1] = "IDENT" /\ out[k+1][1] \in {"IDENT", "INT_NUMBER"})

Emit == cnt = 0 \/ PrintT(ToJson([s |-> in, t |-> out]))
=============================================================================
