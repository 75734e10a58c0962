-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* Scripts as sequences of octets and their tokens (RFC 5228, section 2).   *)
(*                                                                          *)
(* A token is [k, w, b, n, ln, v, pc]: kind "id", "tag", "num", "str", "p"  *)
(* (punctuation), "eof", "err" (lexical error, w its name) or "wild" (a     *)
(* spelling whose reading is left open: anything may follow); w its text,   *)
(* b the octets of a string, n the value of a number (-1: beyond the range  *)
(* of interest), ln the line it starts on, v whether the source has "${" or *)
(* "%{" in it, pc whether it has "%{".                                      *)
(***************************************************************************)
EXTENDS Uri

IsLet(c) == c \in 97..122 \/ c \in 65..90
IsDig(c) == c \in 48..57
IsWord(c) == IsLet(c) \/ IsDig(c) \/ c \in {95, 46, 36}
LowB(c) == IF c \in 65..90 THEN c + 32 ELSE c
Punct == {123, 125, 59, 44, 91, 93, 40, 41}
Blank == {32, 9, 13, 10}
StrOf(b) == JoinChars([i \in 1..Len(b) |-> CharOf(b[i])])
CountLF(b, i, j) == Cardinality({k \in i..j : b[k] = 10})

RECURSIVE WordEnd(_, _), FindB(_, _, _)
WordEnd(b, i) == IF i > Len(b) THEN i ELSE IF IsWord(b[i]) THEN WordEnd(b, i + 1) ELSE i
FindB(b, i, c) == IF i > Len(b) THEN 0 ELSE IF b[i] = c THEN i ELSE FindB(b, i + 1, c)
RECURSIVE CommentEnd(_, _)
CommentEnd(b, i) == \* index of the "/" that closes a comment whose text starts at i
    LET j == FindB(b, i, 42) IN
    IF j = 0 \/ j = Len(b) THEN 0 ELSE IF b[j + 1] = 47 THEN j + 1 ELSE CommentEnd(b, j + 1)
HasVar(b, i, j) == \E k \in i..(j - 1) : b[k] \in {36, 37} /\ b[k + 1] = 123
HasPc(b, i, j) == \E k \in i..(j - 1) : b[k] = 37 /\ b[k + 1] = 123

\* quoted string from i (after the quote): [e (index of the closing quote, 0 if none), s]
RECURSIVE Quoted(_, _, _, _)
Quoted(b, i, esc, acc) ==
    IF i > Len(b) THEN [e |-> 0, s |-> acc]
    ELSE LET c == b[i] IN
    IF esc THEN Quoted(b, i + 1, FALSE, Append(acc, CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c))
    ELSE IF c = 34 THEN [e |-> i, s |-> acc]
    ELSE IF c = 92 THEN Quoted(b, i + 1, TRUE, acc)
    ELSE Quoted(b, i + 1, FALSE, Append(acc, c))

\* lines of a text: block from i: [e (index of the last octet of the line ".", 0 if none), s, n (lines)]
RECURSIVE TextBlock(_, _, _, _)
TextBlock(b, i, acc, n) ==
    LET j == FindB(b, i, 10) IN
    IF j = 0 THEN [e |-> 0, s |-> acc, n |-> n]
    ELSE IF b[i] = 46 /\ (j = i + 1 \/ (j = i + 2 /\ b[i + 1] = 13)) THEN [e |-> j, s |-> acc, n |-> n + 1]
    ELSE TextBlock(b, j + 1, acc \o SubSeq(b, IF b[i] = 46 /\ b[i + 1] = 46 THEN i + 1 ELSE i, j), n + 1)

\* the value of a word that is a number, or <<>>
NumOf(w) ==
    LET mul == IF Len(w) > 1 /\ Last(w) \in {107, 109, 103} THEN Last(w) ELSE 0
        d == IF mul = 0 THEN w ELSE Front(w)
        nz == {i \in 1..Len(d) : d[i] # 48}
        z == IF nz = {} THEN <<>> ELSE SubSeq(d, CHOOSE i \in nz : \A j \in nz : i <= j, Len(d))
        v == IF Len(z) > 9 THEN 0 - 1 ELSE IF z = <<>> THEN 0 ELSE NatOf(StrOf(z))
    IN IF ~\A i \in 1..Len(d) : IsDig(d[i]) THEN <<>>
       ELSE IF Len(z) > 20 THEN <<>>
       ELSE <<[v |-> CASE v <= 0 \/ mul = 0 -> v [] mul = 107 /\ v < 2000000 -> v * 1024 [] mul = 109 /\ v < 2000 -> v * 1048576 [] mul = 103 /\ v = 1 -> 1073741824 [] OTHER -> 0 - 1,
               open |-> Len(z) >= 19 \/ (mul # 0 /\ Len(z) >= 9)]>>

Tok(k, w, ln) == [k |-> k, w |-> w, b |-> <<>>, n |-> 0, ln |-> ln, v |-> FALSE, pc |-> FALSE]
StrTok(s, ln, b, i, j) == [k |-> "str", w |-> "", b |-> s, n |-> 0, ln |-> ln, v |-> HasVar(b, i, j), pc |-> HasPc(b, i, j)]
WordTok(w, ln) ==
    LET n == NumOf(w) IN
    IF IsDig(w[1]) /\ n # <<>> THEN [Tok("num", IF n[1].open THEN "?" ELSE "", ln) EXCEPT !.n = n[1].v]
    ELSE Tok("id", StrOf(w), ln)

RECURSIVE Lex(_, _, _, _, _)
Lex(b, i, ln, acc, max) ==
    IF i > Len(b) THEN Append(acc, Tok("eof", "", ln))
    ELSE LET c == b[i]
             err(e, l) == Append(acc, Tok("err", e, l))
             \* a word ending before j: what stands there decides whether it is one
             ok(j) == j > Len(b) \/ b[j] \in Punct \cup Blank \cup {34, 35, 58} \/ (b[j] = 47 /\ j < Len(b) /\ b[j + 1] = 42)
    IN
    CASE IsWord(c) ->
           LET j == WordEnd(b, i)
               w == [k \in 1..(j - i) |-> LowB(b[i + k - 1])]
           IN IF ~ok(j) THEN err("InvalidCharacter", ln)
              ELSE IF j <= Len(b) /\ b[j] = 58
              THEN IF w = <<116, 101, 120, 116>>
                   THEN LET e == FindB(b, j, 10)
                            rest == SubSeq(b, j + 1, e - 1)
                            nb == {k \in 1..Len(rest) : rest[k] \notin Blank}
                            t == TextBlock(b, e + 1, <<>>, 0)
                        IN IF e = 0 THEN err("UnterminatedMultiline", ln)
                           ELSE IF nb # {} /\ rest[CHOOSE k \in nb : \A l \in nb : k <= l] # 35 THEN Append(acc, Tok("wild", "", ln))
                           ELSE IF t.e = 0 THEN err("UnterminatedMultiline", ln)
                           ELSE IF Len(t.s) >= max THEN err("StringTooLong", ln)
                           ELSE Lex(b, t.e + 1, ln + 1 + t.n, Append(acc, StrTok(t.s, ln, b, e + 1, t.e)), max)
                   ELSE Append(acc, Tok("wild", "", ln))
              ELSE Lex(b, j, ln, Append(acc, WordTok(w, ln)), max)
      [] c = 58 ->
           IF i < Len(b) /\ IsLet(b[i + 1])
           THEN LET j == WordEnd(b, i + 1)
                    w == StrOf([k \in 1..(j - i - 1) |-> LowB(b[i + k])])
                IN IF ~ok(j) THEN err("InvalidCharacter", ln)
                   ELSE IF j <= Len(b) /\ b[j] = 58 THEN Append(acc, Tok("wild", "", ln))
                   ELSE Lex(b, j, ln, Append(acc, Tok("tag", w, ln)), max)
           ELSE Lex(b, i + 1, ln, Append(acc, Tok("p", ":", ln)), max)
      [] c = 34 ->
           LET q == Quoted(b, i + 1, FALSE, <<>>) IN
           IF q.e = 0 THEN err("UnterminatedString", ln)
           ELSE IF Len(q.s) >= max THEN err("StringTooLong", ln)
           ELSE Lex(b, q.e + 1, ln + CountLF(b, i, q.e), Append(acc, StrTok(q.s, ln, b, i, q.e)), max)
      [] c \in Punct -> Lex(b, i + 1, ln, Append(acc, Tok("p", CharOf(c), ln)), max)
      [] c = 47 ->
           IF i < Len(b) /\ b[i + 1] = 42
           THEN LET e == CommentEnd(b, i + 2) IN
                IF e = 0 THEN err("UnterminatedComment", ln) ELSE Lex(b, e + 1, ln + CountLF(b, i, e), acc, max)
           ELSE err("InvalidCharacter", ln)
      [] c = 35 -> LET e == FindB(b, i, 10) IN
                   IF e = 0 THEN Append(acc, Tok("eof", "", ln)) ELSE Lex(b, e + 1, ln + 1, acc, max)
      [] c = 10 -> Lex(b, i + 1, ln + 1, acc, max)
      [] c \in {32, 9, 13} -> Lex(b, i + 1, ln, acc, max)
      [] OTHER -> err("InvalidCharacter", ln)
==============================================================================
