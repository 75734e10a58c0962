------------------------------- MODULE Reading -------------------------------
(***************************************************************************)
(* What the text of a script says: from its octets to the program that      *)
(* Sieve.tla runs (the record described in Lang.tla).                       *)
(*                                                                          *)
(* Reading is a walk over the tokens.  Its state rs is [i (next token), id  *)
(* (last identity given), blocks, decl, ev (see Lang), b (current block),   *)
(* cid (identity of the current command), have (capabilities declared, with *)
(* the block), bad].  bad # "" ends the reading: the text is outside of the *)
(* part of the language described here, or its meaning is left open.        *)
(*                                                                          *)
(* Strings: the octets between the quotes (or the lines of a text: block)   *)
(* are first freed of their escapes (Lexer), then encoded characters are    *)
(* replaced, then references to variables are found.                        *)
(***************************************************************************)
EXTENDS Lexer

Open(s, why) == [s EXCEPT !.bad = IF @ = "" THEN why ELSE @]
R0 == [i |-> 1, id |-> 0, blocks |-> <<[p |-> 0, c |-> <<>>]>>, decl |-> <<>>, ev |-> <<[k |-> "open", b |-> 1, id |-> 0, n |-> 0]>>,
       b |-> 1, cid |-> 0, have |-> {}, bad |-> ""]
NewId(s) == [s EXCEPT !.id = @ + 10]
Ev(s, k, id, n, b) == [s EXCEPT !.ev = Append(@, [k |-> k, b |-> b, id |-> id, n |-> n])]

------------------------------------------------------------------------------
(* Encoded characters (RFC 5228, 2.4.2.4): "${hex:" or "${unicode:", in any  *)
(* case, blanks and hexadecimal numbers, "}".  Anything else stands for      *)
(* itself.                                                                   *)
HexDig(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> 0 - 1
RECURSIVE HexEnd(_, _), HexNum(_, _, _, _)
HexEnd(b, i) == IF i <= Len(b) /\ HexDig(b[i]) >= 0 THEN HexEnd(b, i + 1) ELSE i
HexNum(b, i, j, n) == IF i >= j THEN n ELSE IF n > 1114111 THEN n ELSE HexNum(b, i + 1, j, n * 16 + HexDig(b[i]))
Utf8(n) == CASE n < 128 -> <<n>>
             [] n < 2048 -> <<192 + n \div 64, 128 + (n % 64)>>
             [] n < 65536 -> <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
             [] OTHER -> <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
\* numbers up to the closing brace, from i: [e (index of the brace, 0: not of this form), s, bad]
RECURSIVE EncSeq(_, _, _, _, _)
EncSeq(b, i, uni, acc, n) ==
    IF i > Len(b) THEN [e |-> 0, s |-> acc, bad |-> FALSE]
    ELSE IF b[i] \in Blank THEN EncSeq(b, i + 1, uni, acc, n)
    ELSE IF b[i] = 125 THEN [e |-> IF n = 0 THEN 0 ELSE i, s |-> acc, bad |-> FALSE]
    ELSE LET j == HexEnd(b, i)
             v == HexNum(b, i, j, 0)
             sep == j <= Len(b) /\ b[j] \in Blank \cup {125}
         IN IF j = i \/ ~sep THEN [e |-> 0, s |-> acc, bad |-> FALSE]
            ELSE IF ~uni THEN IF j - i > 2 THEN [e |-> 0, s |-> acc, bad |-> v < 256]
                              ELSE EncSeq(b, j, uni, Append(acc, v), n + 1)
            ELSE IF v > 1114111 \/ v \in 55296..57343 THEN [e |-> 0, s |-> acc, bad |-> TRUE]
            ELSE EncSeq(b, j, uni, acc \o Utf8(v), n + 1)
WordAt(b, i, w) == \* w: lower case
    i + Len(w) - 1 <= Len(b) /\ \A k \in 1..Len(w) : LowB(b[i + k - 1]) = w[k]
HexW == <<104, 101, 120, 58>>
UniW == <<117, 110, 105, 99, 111, 100, 101, 58>>
\* b with its encoded characters replaced: [s, bad]
RECURSIVE Decoded(_, _, _)
Decoded(b, i, acc) ==
    IF i > Len(b) THEN [s |-> acc, bad |-> FALSE]
    ELSE IF b[i] = 36 /\ i < Len(b) /\ b[i + 1] = 123 /\ (WordAt(b, i + 2, HexW) \/ WordAt(b, i + 2, UniW))
    THEN LET uni == WordAt(b, i + 2, UniW)
             e == EncSeq(b, i + 2 + Len(IF uni THEN UniW ELSE HexW), uni, <<>>, 0)
         IN IF e.bad THEN [s |-> acc, bad |-> TRUE]
            ELSE IF e.e = 0 THEN Decoded(b, i + 1, Append(acc, b[i]))
            ELSE Decoded(b, e.e + 1, acc \o e.s)
    ELSE Decoded(b, i + 1, Append(acc, b[i]))

(* Text: octets to characters.  Letters beyond ASCII are those of the table. *)
CodeTab == TLCEval([n \in {Extra[i].o : i \in 1..Len(Extra)} |-> Extra[CHOOSE i \in 1..Len(Extra) : Extra[i].o = n].c])
\* [ok, s]
RECURSIVE OctText(_, _, _)
OctText(b, i, acc) ==
    IF i > Len(b) THEN [ok |-> TRUE, s |-> JoinChars(acc)]
    ELSE LET c == b[i]
             n == CASE c < 128 -> 1 [] c \in 194..223 -> 2 [] c \in 224..239 -> 3 [] c \in 240..244 -> 4 [] OTHER -> 0
         IN IF n = 1 THEN IF c \in {9, 10, 13} \cup 32..126 THEN OctText(b, i + 1, Append(acc, CharOf(c))) ELSE [ok |-> FALSE, s |-> ""]
            ELSE IF n = 0 \/ i + n - 1 > Len(b) THEN [ok |-> FALSE, s |-> ""]
            ELSE LET cp == CASE n = 2 -> (c - 192) * 64 + (b[i + 1] - 128)
                             [] n = 3 -> (c - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)
                             [] OTHER -> (c - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)
                 IN IF (\A k \in 1..(n - 1) : b[i + k] \in 128..191) /\ cp \in DOMAIN CodeTab
                    THEN OctText(b, i + n, Append(acc, CodeTab[cp])) ELSE [ok |-> FALSE, s |-> ""]

(* References: ${name}, ${3}, ${global.name}, ${envelope.from}, ${env.name}. *)
IdC(c) == IsLet(c) \/ IsDig(c) \/ c = 95
EnvNames == [from |-> "from", to |-> "to", by_time_absolute |-> "bytimeabsolute", by_time_relative |-> "bytimerelative", by_mode |-> "bymode",
             by_trace |-> "bytrace", notify |-> "notify", orcpt |-> "orcpt", ret |-> "ret", envid |-> "envid"]
\* the reference with this name: [r |-> "none" | "open" | "ref", v]
RefOf(n) ==
    LET dot == FindB(n, 1, 46)
        low == StrOf([k \in 1..Len(n) |-> LowB(n[k])])
        num == NumOf(n)
        ns == Upto(low, Max(dot, 1) - 1)
        rest == From(low, dot + 1)
        open == [r |-> "open", v |-> <<>>]
        none == [r |-> "none", v |-> <<>>]
    IN IF n = <<>> THEN none
       ELSE IF \A k \in 1..Len(n) : IsDig(n[k]) THEN IF num = <<>> \/ num[1].v < 0 \/ num[1].v > 9 THEN open ELSE [r |-> "ref", v |-> [k |-> "m", n |-> num[1].v]]
       ELSE IF dot = 0
       THEN IF (\A k \in 1..Len(n) : IdC(n[k])) /\ ~IsDig(n[1]) THEN [r |-> "ref", v |-> [k |-> "v", n |-> low]]
            ELSE IF \E k \in 1..Len(n) : ~(IdC(n[k]) \/ n[k] \in {45, 91, 93, 42}) THEN none ELSE open
       ELSE IF ~\A k \in 1..Len(n) : IdC(n[k]) \/ n[k] \in {46, 45} THEN open
       ELSE IF rest = "" \/ (Contains(rest, ".") /\ ns # "env") THEN open
       ELSE CASE ns \in {"global", "t"} -> [r |-> "ref", v |-> [k |-> "g", n |-> rest]]
              [] ns = "env" -> [r |-> "ref", v |-> [k |-> "env", n |-> rest]]
              [] ns = "envelope" /\ rest \in DOMAIN EnvNames -> [r |-> "ref", v |-> [k |-> "e", n |-> EnvNames[rest]]]
              [] OTHER -> open
\* pieces of b from i; acc: octets of the text before
Flush(ps, acc) == IF acc = <<>> THEN ps ELSE Append(ps, [k |-> "b", s |-> acc])
RECURSIVE StrPieces(_, _, _, _)
StrPieces(b, i, ps, acc) ==
    IF i > Len(b) THEN [ps |-> Flush(ps, acc), open |-> FALSE]
    ELSE IF b[i] = 36 /\ i < Len(b) /\ b[i + 1] = 123
    THEN LET j == FindB(b, i + 2, 125)
             n == SubSeq(b, i + 2, j - 1)
             r == IF j = 0 THEN [r |-> "none", v |-> <<>>] ELSE RefOf(n)
         IN CASE r.r = "open" -> [ps |-> <<>>, open |-> TRUE]
              [] r.r = "none" -> StrPieces(b, i + 1, ps, Append(acc, b[i]))
              [] OTHER -> StrPieces(b, j + 1, Append(Flush(ps, acc), r.v), <<>>)
    ELSE StrPieces(b, i + 1, ps, Append(acc, b[i]))

(* A text that is written as a number is that number. *)
NumText(s) ==
    LET neg == s # "" /\ Ch(s, 1) = "-"
        d == IF neg THEN From(s, 2) ELSE s
        dot == IndexFrom(d, ".", 1)
        ip == IF dot = 0 THEN d ELSE Upto(d, dot - 1)
        fp == IF dot = 0 THEN "" ELSE From(d, dot + 1)
        dig(x) == x # "" /\ \A i \in 1..Len(x) : Ch(x, i) \in Digits
        int == dig(ip) /\ (ip = "0" \/ Ch(ip, 1) # "0")
    IN IF dot = 0 /\ int /\ Len(s) <= 9 /\ ~(neg /\ d = "0") THEN [k |-> "i", n |-> IF neg THEN 0 - NatOf(d) ELSE NatOf(d)]
       ELSE IF dot > 0 /\ int /\ dig(fp) /\ Len(s) <= 8 /\ Ch(fp, Len(fp)) # "0" THEN [k |-> "f", s |-> s]
       ELSE [k |-> "t", s |-> s]

\* the template of a string token: [s, v]
RECURSIVE Refs(_, _, _, _)
Refs(s, ps, i, acc) ==
    IF i > Len(ps) THEN [s |-> s, v |-> acc]
    ELSE LET p == ps[i] IN
    CASE p.k = "b" -> LET x == OctText(p.s, 1, <<>>) IN
                      IF ~x.ok THEN [s |-> Open(s, "text"), v |-> acc]
                      ELSE Refs(s, ps, i + 1, Append(acc, IF Len(ps) = 1 THEN NumText(x.s) ELSE [k |-> "t", s |-> x.s]))
      [] p.k = "m" -> LET s1 == NewId(s) IN Refs(Ev(s1, "ref", s1.id, p.n, 0), ps, i + 1, Append(acc, [k |-> "m", n |-> p.n, id |-> s1.id]))
      [] OTHER -> Refs(s, ps, i + 1, Append(acc, p))
Template(s, k) ==
    LET has == \E j \in 1..(Len(k.b) - 1) : k.b[j] = 36 /\ k.b[j + 1] = 123
        d == Decoded(k.b, 1, <<>>)
        p == StrPieces(d.s, 1, <<>>, <<>>)
    IN IF has # k.v /\ (has \/ ~k.pc) THEN [s |-> Open(s, "escaped brace"), v |-> <<>>]
       ELSE IF d.bad THEN [s |-> Open(s, "encoding"), v |-> <<>>]
       ELSE IF p.open THEN [s |-> Open(s, "reference"), v |-> <<>>]
       ELSE IF p.ps = <<>> THEN [s |-> s, v |-> <<[k |-> "t", s |-> ""]>>]
       ELSE Refs(s, p.ps, 1, <<>>)

------------------------------------------------------------------------------
(* Arguments *)
Tk(T, s) == T[Min(s.i, Len(T))]
IsP(k, w) == k.k = "p" /\ k.w = w
Skip(T, s, w) == IF s.bad = "" /\ IsP(Tk(T, s), w) THEN [s EXCEPT !.i = @ + 1] ELSE Open(s, "expected " \o w)
None(s, why) == [s |-> Open(s, why), v |-> <<>>]
Str1(T, s) == IF s.bad # "" \/ Tk(T, s).k # "str" THEN None(s, "expected string")
              ELSE Template([s EXCEPT !.i = @ + 1], Tk(T, s))
RECURSIVE StrsFrom(_, _, _)
StrsFrom(T, s, acc) ==
    LET x == Str1(T, s) IN
    IF x.s.bad # "" THEN x
    ELSE IF IsP(Tk(T, x.s), ",") THEN StrsFrom(T, Skip(T, x.s, ","), Append(acc, x.v))
    ELSE [s |-> Skip(T, x.s, "]"), v |-> Append(acc, x.v)]
Strs(T, s) == IF IsP(Tk(T, s), "[") THEN StrsFrom(T, Skip(T, s, "["), <<>>)
              ELSE LET x == Str1(T, s) IN [s |-> x.s, v |-> <<x.v>>]
\* a string without references, as text
Const(T, s) ==
    LET x == Str1(T, s) IN
    IF x.s.bad # "" THEN x
    ELSE IF Len(x.v) # 1 \/ Tk(T, s).v THEN None(s, "constant") ELSE [s |-> x.s, v |-> OctText(Tk(T, s).b, 1, <<>>).s]
RECURSIVE ConstsFrom(_, _, _)
ConstsFrom(T, s, acc) ==
    LET x == Const(T, s) IN
    IF x.s.bad # "" THEN x
    ELSE IF IsP(Tk(T, x.s), ",") THEN ConstsFrom(T, Skip(T, x.s, ","), Append(acc, x.v))
    ELSE [s |-> Skip(T, x.s, "]"), v |-> Append(acc, x.v)]
Consts(T, s) == IF IsP(Tk(T, s), "[") THEN ConstsFrom(T, Skip(T, s, "["), <<>>)
                ELSE LET x == Const(T, s) IN [s |-> x.s, v |-> <<x.v>>]
(* Expressions: the characters of a string (freed of its escapes).  Operators *)
(* of equal rank group to the left; a prefix operator binds closest but for   *)
(* an index.  A result is [ok, v, i]: the tree and where the rest begins.     *)
Rank == [x \in {"*", "/"} |-> 7] @@ [x \in {"+", "-"} |-> 6] @@ [x \in {">", ">=", "<", "<="} |-> 5] @@ [x \in {"==", "!="} |-> 4]
        @@ ("^" :> 3) @@ ("&&" :> 2) @@ ("||" :> 1)
\* functions registered by the host, and those of the harness: arguments, number of an external one
Fns == [f_cat |-> <<2, 0 - 1>>, f_id |-> <<1, 0 - 1>>, f_len |-> <<1, 0 - 1>>, f_one |-> <<0, 0 - 1>>, f_four |-> <<4, 0 - 1>>,
        xa |-> <<1, 0>>, xb |-> <<2, 1>>, xc |-> <<0, 2>>, xd |-> <<4, 3>>]
ETok(k, w, i) == [k |-> k, w |-> w, i |-> i]
EWordC(c) == IdC(c) \/ c = 46
RECURSIVE EWordEnd(_, _), EString(_, _, _, _, _), EScan(_, _)
EWordEnd(b, i) == IF i <= Len(b) /\ EWordC(b[i]) THEN EWordEnd(b, i + 1) ELSE i
EString(b, i, q, esc, acc) ==
    IF i > Len(b) THEN ETok("bad", "", i)
    ELSE IF esc THEN EString(b, i + 1, q, FALSE, Append(acc, CASE b[i] = 110 -> 10 [] b[i] = 114 -> 13 [] b[i] = 116 -> 9 [] OTHER -> b[i]))
    ELSE IF b[i] = q THEN LET x == OctText(acc, 1, <<>>) IN IF x.ok THEN ETok("str", x.s, i + 1) ELSE ETok("bad", "", i)
    ELSE IF b[i] = 92 THEN EString(b, i + 1, q, TRUE, acc)
    ELSE EString(b, i + 1, q, FALSE, Append(acc, b[i]))
EScan(b, i) ==
    IF i > Len(b) THEN ETok("end", "", i)
    ELSE LET c == b[i]
             d == IF i < Len(b) THEN b[i + 1] ELSE 0
             two(w) == ETok("op", w, i + 2)
             one(w) == ETok("op", w, i + 1)
         IN CASE c \in {32, 13, 10} -> EScan(b, i + 1)
              [] EWordC(c) -> LET j == EWordEnd(b, i) IN
                              IF j <= Len(b) /\ b[j] \in {58, 125} THEN ETok("bad", "", i) ELSE ETok("word", SubSeq(b, i, j - 1), j)
              [] c \in {34, 39} -> EString(b, i + 1, c, FALSE, <<>>)
              [] c = 38 -> IF d = 38 THEN two("&&") ELSE one("&&")
              [] c = 124 -> IF d = 124 THEN two("||") ELSE one("||")
              [] c = 33 -> IF d = 61 THEN two("!=") ELSE one("!")
              [] c = 61 /\ d = 61 -> two("==")
              [] c = 62 -> IF d = 61 THEN two(">=") ELSE one(">")
              [] c = 60 -> IF d = 61 THEN two("<=") ELSE one("<")
              [] c \in {94, 40, 41, 43, 42, 47, 45, 44, 91, 93} -> one(CharOf(c))
              [] OTHER -> ETok("bad", "", i)
ENumber(w) == \* the value of a word of digits and dots, or <<>>
    LET dot == FindB(w, 1, 46)
        ip == IF dot = 0 THEN w ELSE SubSeq(w, 1, dot - 1)
        fp == IF dot = 0 THEN <<>> ELSE SubSeq(w, dot + 1, Len(w))
        nz == {i \in 1..Len(fp) : fp[i] # 48}
        fs == SubSeq(fp, 1, IF nz = {} THEN 0 ELSE CHOOSE i \in nz : \A j \in nz : j <= i)
        n == NatOf(StrOf(ip))
    IN IF ip = <<>> \/ ~(\A i \in 1..Len(ip) : IsDig(ip[i])) \/ ~(\A i \in 1..Len(fp) : IsDig(fp[i])) THEN <<>>
       ELSE IF dot = 0 THEN IF Len(ip) > 9 THEN <<>> ELSE <<[t |-> "i", v |-> n]>>
       ELSE IF fp = <<>> \/ Len(ip) > 5 \/ Len(fs) > 3 THEN <<>>
       ELSE <<[t |-> "f", v |-> ToString(n) \o (IF fs = <<>> THEN "" ELSE "." \o StrOf(fs))]>>
EBad == [ok |-> FALSE, v |-> <<>>, i |-> 0]
EOk(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
EOp(t, w) == t.k = "op" /\ t.w = w
ELit(v) == [k |-> "lit", v |-> v]
\* N: the variables declared
RECURSIVE EExp(_, _, _, _), EBin(_, _, _, _), EUn(_, _, _), EIndex(_, _, _), EList(_, _, _, _, _), EPrim(_, _, _)
EExp(b, i, N, min) == EBin(b, EUn(b, i, N), N, min)
EBin(b, l, N, min) ==
    LET t == IF l.ok THEN EScan(b, l.i) ELSE ETok("end", "", 0) IN
    IF ~l.ok \/ t.k # "op" THEN l
    ELSE IF t.w \notin DOMAIN Rank THEN l
    ELSE IF Rank[t.w] < min THEN l
    ELSE LET r == EExp(b, t.i, N, Rank[t.w] + 1) IN
         IF ~r.ok THEN r ELSE EBin(b, EOk([k |-> "bin", op |-> t.w, l |-> l.v, r |-> r.v], r.i), N, min)
EUn(b, i, N) ==
    LET t == EScan(b, i) IN
    IF EOp(t, "!") \/ EOp(t, "-") THEN LET x == EUn(b, t.i, N) IN IF x.ok THEN EOk([k |-> "un", op |-> t.w, x |-> x.v], x.i) ELSE x
    ELSE EPrim(b, i, N)
EIndex(b, x, N) ==
    LET t == IF x.ok THEN EScan(b, x.i) ELSE ETok("end", "", 0) IN
    IF ~x.ok \/ ~EOp(t, "[") THEN x
    ELSE LET y == EExp(b, t.i, N, 1)
             e == IF y.ok THEN EScan(b, y.i) ELSE t
         IN IF EOp(e, "]") THEN EIndex(b, EOk([k |-> "idx", a |-> x.v, i |-> y.v], e.i), N) ELSE EBad
EList(b, i, N, close, acc) == \* at least one
    LET x == EExp(b, i, N, 1)
        t == IF x.ok THEN EScan(b, x.i) ELSE ETok("end", "", 0)
    IN IF ~x.ok THEN x
       ELSE IF EOp(t, ",") THEN EList(b, t.i, N, close, Append(acc, x.v))
       ELSE IF EOp(t, close) THEN EOk(Append(acc, x.v), t.i) ELSE EBad
EPrim(b, i, N) ==
    LET t == EScan(b, i)
        num == ENumber(t.w)
        w == StrOf(t.w)
        nx == EScan(b, t.i)
        r == RefOf(t.w)
    IN CASE t.k = "str" -> EOk(ELit([t |-> "s", v |-> t.w]), t.i)
         [] t.k = "word" ->
              IF \A j \in 1..Len(t.w) : IsDig(t.w[j]) \/ t.w[j] = 46 THEN IF num = <<>> THEN EBad ELSE EOk(ELit(num[1]), t.i)
              ELSE IF w \in {"true", "false"} THEN EOk(ELit([t |-> "i", v |-> IF w = "true" THEN 1 ELSE 0]), t.i)
              ELSE IF EOp(nx, "(")
              THEN IF w \notin DOMAIN Fns \/ Lower(w) \in N THEN EBad
                   ELSE LET f == Fns[w]
                            z == EScan(b, nx.i)
                            a == IF f[1] = 0 THEN IF EOp(z, ")") THEN EOk(<<>>, z.i) ELSE EBad ELSE EList(b, nx.i, N, ")", <<>>)
                        IN IF ~a.ok THEN a ELSE IF Len(a.v) # f[1] THEN EBad
                           ELSE EIndex(b, EOk([k |-> "call", fn |-> w, ext |-> f[2], as |-> a.v], a.i), N)
              ELSE IF r.r # "ref" THEN EBad
              ELSE IF r.v.k = "v" /\ r.v.n \notin N THEN EBad
              ELSE EIndex(b, EOk([k |-> "var", p |-> r.v], t.i), N)
         [] EOp(t, "(") -> LET x == EExp(b, t.i, N, 1)
                               e == IF x.ok THEN EScan(b, x.i) ELSE t
                           IN IF EOp(e, ")") THEN EIndex(b, EOk(x.v, e.i), N) ELSE EBad
         [] EOp(t, "[") -> LET x == EList(b, t.i, N, "]", <<>>) IN IF x.ok THEN EIndex(b, EOk([k |-> "arr", xs |-> x.v], x.i), N) ELSE x
         [] OTHER -> EBad
\* the expression in the next string
Expression(T, s) ==
    IF s.bad # "" \/ Tk(T, s).k # "str" THEN None(s, "expected expression")
    ELSE LET b == Tk(T, s).b
             N == {s.decl[i].n : i \in 1..Len(s.decl)}
             x == EExp(b, 1, N, 1)
         IN IF ~x.ok THEN None(s, "expression")
            ELSE IF EScan(b, x.i).k # "end" THEN None(s, "expression")
            ELSE [s |-> [s EXCEPT !.i = @ + 1], v |-> x.v]
Numb(T, s) == IF s.bad = "" /\ Tk(T, s).k = "num" /\ Tk(T, s).w # "?" /\ Tk(T, s).n >= 0 THEN [s |-> [s EXCEPT !.i = @ + 1], v |-> Tk(T, s).n] ELSE None(s, "number")
\* of a number beyond the integers of TLC only that it is large is known
Size(T, s) == IF s.bad = "" /\ Tk(T, s).k = "num" /\ Tk(T, s).w # "?" THEN [s |-> [s EXCEPT !.i = @ + 1], v |-> IF Tk(T, s).n < 0 THEN 2147483647 ELSE Tk(T, s).n] ELSE None(s, "number")
Arg(T, s, ty) == CASE ty = "str" -> Str1(T, s) [] ty = "strs" -> Strs(T, s) [] ty = "const" -> Const(T, s) [] ty = "consts" -> Consts(T, s)
                   [] ty = "num" -> Numb(T, s) [] ty = "exp" -> Expression(T, s) [] ty = "size" -> Size(T, s) [] OTHER -> [s |-> s, v |-> TRUE]
RECURSIVE ArgList(_, _, _, _, _), Tags(_, _, _, _)
ArgList(T, s, tys, i, acc) ==
    IF i > Len(tys) \/ s.bad # "" THEN [s |-> s, v |-> acc]
    ELSE LET x == Arg(T, s, tys[i]) IN ArgList(T, x.s, tys, i + 1, Append(acc, x.v))
\* tags in any order, each at most once: v = tag -> values; "replace" may be repeated
Tags(T, s, G, acc) ==
    IF s.bad # "" \/ Tk(T, s).k # "tag" THEN [s |-> s, v |-> acc]
    ELSE LET w == Tk(T, s).w IN
         IF w \notin DOMAIN G THEN None(s, "tag " \o w)
         ELSE LET x == ArgList(T, [s EXCEPT !.i = @ + 1], G[w], 1, <<>>) IN
              Tags(T, x.s, G, Append(acc, [t |-> w, v |-> x.v]))
Tagged(r, t) == \E i \in 1..Len(r) : r[i].t = t
TagV(r, t) == r[CHOOSE i \in 1..Len(r) : r[i].t = t].v
Repeats(r) == \E i, j \in 1..Len(r) : i < j /\ r[i].t = r[j].t
Opt(r, t) == IF Tagged(r, t) THEN <<TagV(r, t)[1]>> ELSE <<>>
OptL(r, t) == IF Tagged(r, t) THEN TagV(r, t)[1] ELSE <<>>

\* Regular expressions: the text of a pattern, freed of its escapes.  x = [i, n, ok, v]: where it ends, groups so far, items
RSpecial == {".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "|", "^", "$", "\\"}
RBad(x) == [x EXCEPT !.ok = FALSE]
RECURSIVE RItems(_, _), RAlts(_, _, _), RSet(_, _, _)
RSet(q, i, acc) == IF i > Len(q) THEN [i |-> 0, v |-> acc]
                   ELSE IF Ch(q, i) = "]" THEN [i |-> i + 1, v |-> acc]
                   ELSE IF Ch(q, i) \in Alnum \cup {"@"} THEN RSet(q, i + 1, acc \o Ch(q, i)) ELSE [i |-> 0, v |-> acc]
RAlts(q, x, acc) ==
    LET a == RItems(q, [x EXCEPT !.v = <<>>]) IN
    IF ~a.ok \/ a.v = <<>> THEN RBad(a)
    ELSE IF a.i <= Len(q) /\ Ch(q, a.i) = "|" THEN RAlts(q, [a EXCEPT !.i = @ + 1], Append(acc, a.v))
    ELSE IF a.i <= Len(q) /\ Ch(q, a.i) = ")" THEN [a EXCEPT !.i = @ + 1, !.v = Append(acc, a.v)]
    ELSE RBad(a)
RItems(q, x) ==
    IF ~x.ok \/ x.i > Len(q) \/ Ch(q, x.i) \in {"|", ")"} THEN x
    ELSE LET c == Ch(q, x.i)
             one(v) == [x EXCEPT !.i = @ + 1, !.v = <<v>>]
             st == LET neg == x.i < Len(q) /\ Ch(q, x.i + 1) = "^" y == RSet(q, x.i + (IF neg THEN 2 ELSE 1), "") IN
                   IF y.i = 0 \/ y.v = "" THEN RBad(x) ELSE [x EXCEPT !.i = y.i, !.v = <<[k |-> "set", neg |-> neg, cs |-> y.v]>>]
             gr == LET y == RAlts(q, [x EXCEPT !.i = @ + 1, !.n = @ + 1], <<>>) IN
                   IF ~y.ok THEN y ELSE [y EXCEPT !.v = <<[k |-> "grp", alts |-> y.v, n |-> x.n + 1]>>]
             it == CASE c = "." -> one([k |-> "any"])
                     [] c = "^" -> one([k |-> "bol"])
                     [] c = "$" -> one([k |-> "eol"])
                     [] c = "[" -> st
                     [] c = "(" -> gr
                     [] c = "\\" -> IF x.i < Len(q) /\ Ch(q, x.i + 1) \in RSpecial THEN [x EXCEPT !.i = @ + 2, !.v = <<[k |-> "c", c |-> Ch(q, x.i + 1)]>>] ELSE RBad(x)
                     [] c \in RSpecial -> RBad(x)
                     [] OTHER -> one([k |-> "c", c |-> c])
             j == it.i
             h == IF ~it.ok \/ j > Len(q) THEN "" ELSE Ch(q, j)
             braced == h = "{" /\ j + 4 <= Len(q) /\ Ch(q, j + 1) \in Digits /\ Ch(q, j + 2) = "," /\ Ch(q, j + 3) \in Digits /\ Ch(q, j + 4) = "}"
             w == IF h \in {"*", "+", "?"} THEN 1 ELSE IF braced THEN 5 ELSE 0
             lo == IF h = "+" THEN 1 ELSE IF braced THEN NatOf(Ch(q, j + 1)) ELSE 0
             hi == IF h = "?" THEN 1 ELSE IF braced THEN NatOf(Ch(q, j + 3)) ELSE 99
             lazy == w > 0 /\ j + w <= Len(q) /\ Ch(q, j + w) = "?"
             y == IF ~it.ok \/ w = 0 THEN it
                  ELSE IF c \in {"^", "$"} \/ lo > hi THEN RBad(it)
                  ELSE [it EXCEPT !.i = j + w + (IF lazy THEN 1 ELSE 0), !.v = <<[k |-> "rep", x |-> it.v[1], lo |-> lo, hi |-> hi, lazy |-> lazy]>>]
             z == y.i <= Len(q) /\ Ch(q, y.i) \in {"*", "+", "?", "{"}
         IN IF ~y.ok \/ (w > 0 /\ z) THEN RBad(y) ELSE RItems(q, [y EXCEPT !.v = x.v \o @])
RKey(v) == IF Len(v) # 1 \/ v[1].k # "t" THEN <<>>
           ELSE LET x == RItems(v[1].s, [i |-> 1, n |-> 0, ok |-> TRUE, v |-> <<>>]) IN
                IF ~x.ok \/ x.i <= Len(v[1].s) \/ x.v = <<>> THEN <<>> ELSE <<[k |-> "rx", s |-> v[1].s, ast |-> x.v, ng |-> x.n]>>
\* the keys of a test, as its match type has them
Keys(m, ks) == IF m.mt # "regex" THEN ks ELSE [i \in 1..Len(ks) |-> RKey(ks[i])]
KeysOk(m, ks) == m.mt # "regex" \/ \A i \in 1..Len(ks) : RKey(ks[i]) # <<>>

MatchTags == [is |-> <<>>, contains |-> <<>>, matches |-> <<>>, value |-> <<"const">>, count |-> <<"const">>, comparator |-> <<"const">>, regex |-> <<>>, list |-> <<>>]
Clause(r) ==
    LET mts == SelectSeq(r, LAMBDA x : x.t \in {"is", "contains", "matches", "value", "count", "regex", "list"})
        cmp == IF Tagged(r, "comparator") THEN Lower(TagV(r, "comparator")[1]) ELSE "i;ascii-casemap"
        mt == IF mts = <<>> THEN "is" ELSE mts[1].t
    IN [ok |-> Len(mts) <= 1 /\ cmp \in {"i;octet", "i;ascii-casemap", "i;ascii-numeric"},
        m |-> [mt |-> mt, rel |-> IF mt \in {"value", "count"} THEN Lower(mts[1].v[1]) ELSE "eq", cmp |-> cmp]]
Parts == [all |-> <<>>, localpart |-> <<>>, domain |-> <<>>, user |-> <<>>, detail |-> <<>>]
MimeParts == [type |-> <<>>, subtype |-> <<>>, contenttype |-> <<>>, param |-> <<"strs">>]
MimePart(r) == LET p == SelectSeq(r, LAMBDA x : x.t \in DOMAIN MimeParts) IN
               IF p = <<>> THEN [k |-> "", ps |-> <<>>] ELSE [k |-> p[1].t, ps |-> IF p[1].t = "param" THEN p[1].v[1] ELSE <<>>]
PartOf(r) == LET p == SelectSeq(r, LAMBDA x : x.t \in DOMAIN Parts) IN IF p = <<>> THEN "all" ELSE p[1].t
IdxTags == [index |-> <<"num">>, last |-> <<>>]
IdxOf(r) == IF ~Tagged(r, "index") THEN 0 ELSE IF Tagged(r, "last") THEN 0 - TagV(r, "index")[1] ELSE TagV(r, "index")[1]

\* where a name is assigned
Target(s, name, local) ==
    LET n == Lower(name) d == IndexFrom(n, ".", 1) ns == Upto(n, Max(d, 1) - 1) rest == From(n, d + 1)
        ident == \A i \in 1..Len(rest) : Ch(rest, i) \in Alnum \cup {"_", "-"}
    IN IF d = 0 THEN IF n # "" /\ (\A i \in 1..Len(n) : Ch(n, i) \in Alnum \cup {"_"}) /\ Ch(n, 1) \notin Digits
                     THEN [s |-> [s EXCEPT !.decl = Append(@, [k |-> IF local THEN "l" ELSE "b", n |-> n, id |-> s.cid, b |-> s.b])], v |-> [ns |-> "", n |-> n]]
                     ELSE None(s, "name")
       ELSE IF ns \in {"global", "t"} /\ rest # "" /\ ident THEN [s |-> s, v |-> [ns |-> "global", n |-> rest]]
       ELSE IF ns = "envelope" /\ rest \in DOMAIN EnvNames THEN [s |-> s, v |-> [ns |-> "envelope", n |-> EnvNames[rest]]]
       ELSE None(s, "name")
RECURSIVE Targets(_, _, _, _, _)
Targets(s, ns, local, i, acc) ==
    IF i > Len(ns) \/ s.bad # "" THEN [s |-> s, v |-> acc]
    ELSE LET x == Target(s, ns[i], local) IN Targets(x.s, ns, local, i + 1, Append(acc, x.v))

------------------------------------------------------------------------------
(* Tests *)
Plain(t, id, f) == [t |-> t, id |-> id] @@ f
MimeTags == [mime |-> <<>>, anychild |-> <<>>]
TestSig == [
    size |-> [g |-> [over |-> <<"size">>, under |-> <<"size">>], p |-> <<>>],
    string |-> [g |-> MatchTags, p |-> <<"strs", "strs">>],
    environment |-> [g |-> MatchTags, p |-> <<"consts", "strs">>],
    header |-> [g |-> MatchTags @@ IdxTags @@ [mime |-> <<>>, anychild |-> <<>>] @@ MimeParts, p |-> <<"strs", "strs">>],
    address |-> [g |-> MatchTags @@ IdxTags @@ Parts @@ MimeTags, p |-> <<"strs", "strs">>],
    envelope |-> [g |-> MatchTags @@ Parts, p |-> <<"consts", "strs">>],
    exists |-> [g |-> [mime |-> <<>>, anychild |-> <<>>], p |-> <<"strs">>],
    mailboxexists |-> [g |-> [x \in {} |-> <<>>], p |-> <<"strs">>],
    duplicate |-> [g |-> [header |-> <<"str">>, uniqueid |-> <<"str">>, handle |-> <<"str">>, seconds |-> <<"num">>, last |-> <<>>], p |-> <<>>],
    mailboxidexists |-> [g |-> [x \in {} |-> <<>>], p |-> <<"strs">>],
    metadata |-> [g |-> MatchTags, p |-> <<"str", "str", "strs">>],
    servermetadata |-> [g |-> MatchTags, p |-> <<"str", "strs">>],
    metadataexists |-> [g |-> [x \in {} |-> <<>>], p |-> <<"str", "strs">>],
    servermetadataexists |-> [g |-> [x \in {} |-> <<>>], p |-> <<"strs">>],
    spamtest |-> [g |-> MatchTags @@ [percent |-> <<>>], p |-> <<"str">>],
    virustest |-> [g |-> MatchTags, p |-> <<"str">>],
    valid_ext_list |-> [g |-> [x \in {} |-> <<>>], p |-> <<"strs">>],
    valid_notify_method |-> [g |-> [x \in {} |-> <<>>], p |-> <<"strs">>],
    notify_method_capability |-> [g |-> MatchTags, p |-> <<"str", "str", "strs">>],
    body |-> [g |-> MatchTags @@ [raw |-> <<>>, text |-> <<>>, content |-> <<"strs">>, subject |-> <<>>], p |-> <<"strs">>],
    date |-> [g |-> MatchTags @@ IdxTags @@ MimeTags @@ [zone |-> <<"const">>, originalzone |-> <<>>], p |-> <<"str", "const", "strs">>],
    currentdate |-> [g |-> MatchTags @@ [zone |-> <<"const">>], p |-> <<"const", "strs">>],
    convert |-> [g |-> [x \in {} |-> <<>>], p |-> <<"str", "str", "strs">>],
    eval |-> [g |-> [x \in {} |-> <<>>], p |-> <<"exp">>],
    ihave |-> [g |-> [x \in {} |-> <<>>], p |-> <<"consts">>]]
DateParts == {"year", "month", "day", "date", "julian", "hour", "minute", "second", "time", "iso8601", "std11", "zone", "weekday"}
ZoneOk(z) == Len(z) = 5 /\ Ch(z, 1) \in {"+", "-"} /\ IsDigits(From(z, 2))
Zone(r) == IF Tagged(r, "originalzone") THEN 99999 ELSE IF ~Tagged(r, "zone") THEN 0
           ELSE LET z == TagV(r, "zone")[1] n == NatOf(SubSeq(z, 2, 3)) * 60 + NatOf(SubSeq(z, 4, 5)) IN IF Ch(z, 1) = "-" THEN 0 - n ELSE n
EnvItems == {"from", "to", "bytimeabsolute", "bytimerelative", "bymode", "bytrace", "notify", "orcpt", "ret", "envid"}

Matched == {"string", "environment", "header", "address", "envelope", "metadata", "servermetadata", "spamtest", "virustest", "notify_method_capability", "body",
            "date", "currentdate"}
RECURSIVE Test(_, _), TestsFrom(_, _, _)
TestsFrom(T, s, acc) ==
    LET x == Test(T, s) IN
    IF x.s.bad # "" THEN x
    ELSE IF IsP(Tk(T, x.s), ",") THEN TestsFrom(T, Skip(T, x.s, ","), Append(acc, x.v))
    ELSE [s |-> Skip(T, x.s, ")"), v |-> Append(acc, x.v)]
HasFlag(T, s, id) ==
    LET g == Tags(T, s, MatchTags, <<>>)
        \* the names of the variables may be left out
        a == Consts(T, g.s)
        two == a.s.bad = "" /\ (Tk(T, a.s).k = "str" \/ IsP(Tk(T, a.s), "["))
        tg == IF two THEN Targets(a.s, a.v, FALSE, 1, <<>>) ELSE [s |-> g.s, v |-> <<>>]
        k == Strs(T, tg.s)
        c == Clause(g.v)
    IN IF g.s.bad # "" THEN g
       ELSE IF k.s.bad # "" \/ ~c.ok \/ c.m.mt = "list" \/ ~KeysOk(c.m, k.v) THEN None(k.s, "hasflag")
       ELSE [s |-> IF c.m.mt \in {"matches", "regex"} THEN Ev(k.s, "test", id, 0, 0) ELSE k.s,
             v |-> Plain("hasflag", id, [m |-> c.m, vars |-> tg.v, keys |-> Keys(c.m, k.v)])]
Test(T, s0) ==
    LET k == Tk(T, s0)
        s1 == NewId([s0 EXCEPT !.i = @ + 1])
        id == s1.id
    IN IF s0.bad # "" \/ k.k # "id" THEN None(s0, "test")
       ELSE CASE k.w \in {"true", "false"} -> [s |-> s1, v |-> [t |-> k.w, id |-> id]]
              [] k.w = "not" -> LET x == Test(T, s1) IN [s |-> x.s, v |-> [t |-> "not", id |-> id, x |-> x.v]]
              [] k.w \in {"allof", "anyof"} -> LET x == TestsFrom(T, Skip(T, s1, "("), <<>>) IN [s |-> x.s, v |-> [t |-> k.w, id |-> id, ts |-> x.v]]
              [] k.w = "hasflag" -> HasFlag(T, s1, id)
              [] k.w = "specialuse_exists" ->
                   LET two == Tk(T, s1).k = "str" /\ (LET n == Tk(T, [s1 EXCEPT !.i = @ + 1]) IN n.k = "str" \/ IsP(n, "["))
                       m == IF two THEN Str1(T, s1) ELSE [s |-> s1, v |-> <<>>]
                       a == Strs(T, m.s)
                   IN IF a.s.bad # "" THEN a ELSE [s |-> a.s, v |-> [t |-> "specialuse_exists", id |-> id, mbox |-> IF two THEN <<m.v>> ELSE <<>>, attrs |-> a.v]]
              [] k.w \in DOMAIN TestSig ->
                   LET sig == TestSig[k.w]
                       g == Tags(T, s1, sig.g, <<>>)
                       p == ArgList(T, g.s, sig.p, 1, <<>>)
                       c == Clause(g.v)
                       matched == k.w \in Matched
                       putAs(w, f) == [s |-> IF matched /\ c.m.mt \in {"matches", "regex"} THEN Ev(p.s, "test", id, 0, 0) ELSE p.s, v |-> Plain(w, id, f)]
                       put(f) == putAs(k.w, f)
                       trs == SelectSeq(g.v, LAMBDA x : x.t \in {"raw", "text", "content"})
                       dp == Lower(p.v[IF k.w = "date" THEN 2 ELSE 1])
                       zoned == (~Tagged(g.v, "zone") \/ ZoneOk(TagV(g.v, "zone")[1])) /\ ~(Tagged(g.v, "zone") /\ Tagged(g.v, "originalzone"))
                       any == Tagged(g.v, "anychild")
                   IN IF p.s.bad # "" THEN None(p.s, "arguments")
                      ELSE IF Repeats(g.v) \/ (matched /\ ~c.ok) \/ (k.w # "duplicate" /\ Tagged(g.v, "last") /\ ~Tagged(g.v, "index"))
                              \/ (Tagged(g.v, "header") /\ Tagged(g.v, "uniqueid")) \/ (any /\ ~Tagged(g.v, "mime"))
                              \/ Tagged(g.v, "mime") # (any \/ (k.w = "header" /\ MimePart(g.v).k # ""))
                              \/ Cardinality({i \in 1..Len(g.v) : g.v[i].t \in DOMAIN MimeParts}) > 1
                              \/ Cardinality({i \in 1..Len(g.v) : g.v[i].t \in DOMAIN Parts}) > 1 THEN None(p.s, "tags")
                      ELSE IF matched /\ (IF k.w \in {"spamtest", "virustest"} THEN c.m.mt \in {"regex", "list"} ELSE ~KeysOk(c.m, p.v[Len(p.v)])) THEN None(p.s, "regex")
                      ELSE CASE k.w = "size" -> IF Len(g.v) # 1 THEN None(p.s, "size") ELSE put([over |-> g.v[1].t = "over", lim |-> g.v[1].v[1]])
                             [] k.w = "string" -> put([m |-> c.m, src |-> p.v[1], keys |-> Keys(c.m, p.v[2])])
                             [] k.w = "environment" -> put([m |-> c.m, src |-> [i \in 1..Len(p.v[1]) |-> <<[k |-> "env", n |-> Lower(p.v[1][i])]>>], keys |-> Keys(c.m, p.v[2])])
                             [] k.w = "header" -> put([m |-> c.m, idx |-> IdxOf(g.v), any |-> any, mo |-> MimePart(g.v), names |-> p.v[1], keys |-> Keys(c.m, p.v[2])])
                             [] k.w = "address" -> put([m |-> c.m, idx |-> IdxOf(g.v), any |-> any, part |-> PartOf(g.v), names |-> p.v[1], keys |-> Keys(c.m, p.v[2])])
                             [] k.w = "envelope" -> IF ~\A i \in 1..Len(p.v[1]) : Lower(p.v[1][i]) \in EnvItems THEN None(p.s, "envelope")
                                                    ELSE put([m |-> c.m, part |-> PartOf(g.v), fields |-> [i \in 1..Len(p.v[1]) |-> Lower(p.v[1][i])], keys |-> Keys(c.m, p.v[2])])
                             [] k.w = "exists" -> put([any |-> any, names |-> p.v[1]])
                             [] k.w \in {"mailboxexists", "mailboxidexists"} -> put([names |-> p.v[1]])
                             [] k.w = "metadata" -> putAs("metadata", [m |-> c.m, mbox |-> <<p.v[1]>>, ann |-> p.v[2], keys |-> Keys(c.m, p.v[3])])
                             [] k.w = "servermetadata" -> putAs("metadata", [m |-> c.m, mbox |-> <<>>, ann |-> p.v[1], keys |-> Keys(c.m, p.v[2])])
                             [] k.w = "metadataexists" -> putAs("metadataexists", [mbox |-> <<p.v[1]>>, anns |-> p.v[2]])
                             [] k.w = "servermetadataexists" -> putAs("metadataexists", [mbox |-> <<>>, anns |-> p.v[1]])
                             [] k.w = "spamtest" -> put([m |-> c.m, pct |-> Tagged(g.v, "percent"), key |-> p.v[1]])
                             [] k.w = "virustest" -> put([m |-> c.m, key |-> p.v[1]])
                             [] k.w = "valid_ext_list" -> putAs("validextlist", [names |-> p.v[1]])
                             [] k.w = "valid_notify_method" -> putAs("validnotify", [uris |-> p.v[1]])
                             [] k.w = "notify_method_capability" -> putAs("notifycap", [m |-> c.m, uri |-> p.v[1], cap |-> p.v[2], keys |-> Keys(c.m, p.v[3])])
                             [] k.w = "body" -> IF Len(trs) > 1 THEN None(p.s, "body")
                                                ELSE put([m |-> c.m, tr |-> IF trs = <<>> THEN "text" ELSE trs[1].t, cts |-> OptL(g.v, "content"), subj |-> Tagged(g.v, "subject"), keys |-> Keys(c.m, p.v[1])])
                             [] k.w = "date" -> IF dp \notin DateParts \/ ~zoned THEN None(p.s, "date")
                                                ELSE put([m |-> c.m, idx |-> IdxOf(g.v), any |-> any, zone |-> Zone(g.v), name |-> p.v[1], dp |-> dp, keys |-> Keys(c.m, p.v[3])])
                             [] k.w = "currentdate" -> IF dp \notin DateParts \/ ~zoned THEN None(p.s, "date")
                                                       ELSE put([m |-> c.m, zone |-> Zone(g.v), dp |-> dp, keys |-> Keys(c.m, p.v[2])])
                             [] k.w = "convert" -> put([from |-> p.v[1], to |-> p.v[2]])
                             [] k.w = "eval" -> put([e |-> p.v[1]])
                             [] k.w = "duplicate" -> put([by |-> IF Tagged(g.v, "header") THEN "header" ELSE IF Tagged(g.v, "uniqueid") THEN "uniqueid" ELSE "default",
                                                          v |-> IF Tagged(g.v, "header") THEN TagV(g.v, "header")[1] ELSE IF Tagged(g.v, "uniqueid") THEN TagV(g.v, "uniqueid")[1] ELSE <<>>,
                                                          handle |-> Opt(g.v, "handle"), expiry |-> Opt(g.v, "seconds"), last |-> Tagged(g.v, "last")])
                             [] OTHER -> put([caps |-> p.v[1]])
              [] OTHER -> None(s1, "test " \o k.w)

------------------------------------------------------------------------------
(* Commands *)
NoTags == [x \in {} |-> <<>>]
Mods == [lower |-> <<>>, upper |-> <<>>, lowerfirst |-> <<>>, upperfirst |-> <<>>, quotewildcard |-> <<>>, quoteregex |-> <<>>, encodeurl |-> <<>>,
         length |-> <<>>, replace |-> <<"str", "str">>]
FccTags == [fcc |-> <<"str">>, create |-> <<>>, flags |-> <<"strs">>, mailboxid |-> <<"str">>, specialuse |-> <<"str">>]
FccOf(r) == IF ~Tagged(r, "fcc") THEN [on |-> FALSE]
            ELSE [on |-> TRUE, mailbox |-> TagV(r, "fcc")[1], create |-> Tagged(r, "create"), flags |-> OptL(r, "flags"), mbid |-> Opt(r, "mailboxid"), su |-> Opt(r, "specialuse")]
FccBad(r) == ~Tagged(r, "fcc") /\ \E t \in {"create", "flags", "mailboxid", "specialuse"} : Tagged(r, t)
\* a time as in RFC 3339, 1971 to 2036: its seconds, <<>> if it is no such text
DayNum(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        yoe == yy % 400
        doy == (153 * (m + (IF m > 2 THEN 0 - 3 ELSE 9)) + 2) \div 5 + d - 1
    IN (yy \div 400) * 146097 + yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy - 719468
Instant(x) ==
    LET n(a, b) == NatOf(SubSeq(x, a, b))
        dig(a, b) == b <= Len(x) /\ IsDigits(SubSeq(x, a, b))
        at(a, c) == a <= Len(x) /\ Ch(x, a) = c
        nd == {i \in 21..(Len(x) + 1) : ~dig(i, i)}
        z == IF at(20, ".") THEN CHOOSE i \in nd : \A j \in nd : i <= j ELSE 20
        zone == CASE at(z, "Z") /\ Len(x) = z -> <<0>>
                  [] (at(z, "+") \/ at(z, "-")) /\ Len(x) = z + 5 /\ dig(z + 1, z + 2) /\ at(z + 3, ":") /\ dig(z + 4, z + 5) ->
                       <<(n(z + 1, z + 2) * 60 + n(z + 4, z + 5)) * (IF at(z, "-") THEN 0 - 1 ELSE 1)>>
                  [] OTHER -> <<>>
    IN IF ~(dig(1, 4) /\ at(5, "-") /\ dig(6, 7) /\ at(8, "-") /\ dig(9, 10) /\ at(11, "T") /\ dig(12, 13) /\ at(14, ":") /\ dig(15, 16) /\ at(17, ":") /\ dig(18, 19)) THEN <<>>
       ELSE IF zone = <<>> \/ (at(20, ".") /\ z = 21) THEN <<>>
       ELSE IF n(1, 4) \notin 1971..2036 \/ n(6, 7) \notin 1..12 \/ n(9, 10) \notin 1..28 \/ n(12, 13) > 23 \/ n(15, 16) > 59 \/ n(18, 19) > 59 THEN <<>>
       ELSE <<DayNum(n(1, 4), n(6, 7), n(9, 10)) * 86400 + n(12, 13) * 3600 + n(15, 16) * 60 + n(18, 19) - zone[1] * 60>>
FlagArg == [flags |-> <<"strs">>]
CmdSig == [
    keep |-> [g |-> FlagArg, p |-> <<>>], discard |-> [g |-> NoTags, p |-> <<>>], stop |-> [g |-> NoTags, p |-> <<>>], return |-> [g |-> NoTags, p |-> <<>>],
    fileinto |-> [g |-> FlagArg @@ [copy |-> <<>>, create |-> <<>>, mailboxid |-> <<"str">>, specialuse |-> <<"str">>], p |-> <<"str">>],
    redirect |-> [g |-> [copy |-> <<>>, list |-> <<>>, notify |-> <<"const">>, ret |-> <<"const">>, bytimerelative |-> <<"num">>, bytimeabsolute |-> <<"const">>, bymode |-> <<"const">>, bytrace |-> <<>>], p |-> <<"str">>],
    reject |-> [g |-> NoTags, p |-> <<"str">>], ereject |-> [g |-> NoTags, p |-> <<"str">>], error |-> [g |-> NoTags, p |-> <<"str">>],
    set |-> [g |-> Mods @@ [local |-> <<>>], p |-> <<"const", "str">>],
    addheader |-> [g |-> [last |-> <<>>], p |-> <<"str", "str">>],
    replace |-> [g |-> [mime |-> <<>>, subject |-> <<"str">>, from |-> <<"str">>], p |-> <<"str">>],
    convert |-> [g |-> NoTags, p |-> <<"str", "str", "strs">>],
    enclose |-> [g |-> [subject |-> <<"str">>, headers |-> <<"strs">>], p |-> <<"str">>],
    extracttext |-> [g |-> Mods @@ [local |-> <<>>, first |-> <<"num">>], p |-> <<"const">>],
    vacation |-> [g |-> FccTags @@ [days |-> <<"num">>, seconds |-> <<"num">>, subject |-> <<"str">>, from |-> <<"str">>, handle |-> <<"str">>, addresses |-> <<"strs">>, mime |-> <<>>], p |-> <<"str">>],
    notify |-> [g |-> FccTags @@ [from |-> <<"str">>, importance |-> <<"str">>, message |-> <<"str">>, options |-> <<"strs">>], p |-> <<"str">>],
    eval |-> [g |-> NoTags, p |-> <<"exp">>], continue |-> [g |-> NoTags, p |-> <<>>],
    include |-> [g |-> [global |-> <<>>, personal |-> <<>>, once |-> <<>>, optional |-> <<>>], p |-> <<"str">>],
    global |-> [g |-> NoTags, p |-> <<"consts">>]]
Simple == {"keep", "discard", "stop", "return", "fileinto", "redirect", "reject", "ereject", "error", "addheader", "include"}
Caps1(c) == IF c = "spamtestplus" THEN <<c, "spamtest">> ELSE <<c>>

Put(s, c) == [s EXCEPT !.blocks[s.b].c = Append(@, c)]
\* commands of one block in one require are carried out together, at the first of them
RECURSIVE NewCaps(_, _, _, _)
NewCaps(s, cs, i, acc) ==
    IF i > Len(cs) THEN acc
    ELSE NewCaps(s, cs, i + 1, acc \o SelectSeq(Caps1(cs[i]), LAMBDA c : c \notin Range(acc)
            /\ ~\E h \in s.have : h.c = c /\ (h.b = s.b \/ h.b \in s.up)))
RECURSIVE Up(_, _)
Up(s, b) == IF b = 0 THEN {} ELSE {b} \cup Up(s, s.blocks[b].p)
Require(s, cs) ==
    LET up == Up(s, s.b)
        nw == NewCaps([have |-> s.have, b |-> s.b, up |-> up], cs, 1, <<>>)
        c == s.blocks[s.b].c
        j == FirstIdx(c, LAMBDA x : x.c = "require")
        s1 == [s EXCEPT !.have = @ \cup {[c |-> x, b |-> s.b] : x \in Range(nw)}]
    IN IF nw = <<>> THEN s1
       ELSE IF j > 0 THEN [s1 EXCEPT !.blocks[s.b].c[j].caps = @ \o nw]
       ELSE Put(s1, [c |-> "require", caps |-> nw, id |-> s.cid])
RECURSIVE ModList(_, _, _)
ModList(g, i, acc) ==
    IF i > Len(g) THEN acc
    ELSE IF g[i].t \notin DOMAIN Mods \/ (g[i].t # "replace" /\ \E j \in 1..Len(acc) : acc[j].m = g[i].t) THEN ModList(g, i + 1, acc)
    ELSE ModList(g, i + 1, Append(acc, [m |-> g[i].t, f |-> IF g[i].t = "replace" THEN g[i].v[1] ELSE <<>>, r |-> IF g[i].t = "replace" THEN g[i].v[2] ELSE <<>>]))
FlagCmd(T, s, w) ==
    LET g == Tags(T, s, [local |-> <<>>], <<>>)
        local == Tagged(g.v, "local")
        a == Const(T, g.s)
        two == a.s.bad = "" /\ (Tk(T, a.s).k = "str" \/ IsP(Tk(T, a.s), "["))
        tg == IF two THEN Target(a.s, a.v, local) ELSE [s |-> g.s, v |-> <<>>]
        f == Strs(T, tg.s)
        e == Skip(T, f.s, ";")
    IN IF g.s.bad # "" THEN g.s
       ELSE IF e.bad # "" THEN e
       ELSE Put(e, [c |-> w, id |-> e.cid, var |-> IF two THEN <<tg.v>> ELSE <<>>, flags |-> f.v])

DelHeader(T, s) ==
    LET g == Tags(T, s, MatchTags @@ IdxTags @@ [mime |-> <<>>, anychild |-> <<>>], <<>>)
        n == Str1(T, g.s)
        more == n.s.bad = "" /\ ~IsP(Tk(T, n.s), ";")
        p == IF more THEN Strs(T, n.s) ELSE [s |-> n.s, v |-> <<>>]
        e == Skip(T, p.s, ";")
        c == Clause(g.v)
    IN IF g.s.bad # "" THEN g.s
       ELSE IF e.bad # "" \/ ~c.ok \/ c.m.mt = "list" \/ ~KeysOk(c.m, p.v) \/ Repeats(g.v) \/ Tagged(g.v, "anychild") # Tagged(g.v, "mime") \/ (Tagged(g.v, "last") /\ ~Tagged(g.v, "index")) THEN Open(e, "deleteheader")
       ELSE Put(e, [c |-> "deleteheader", id |-> e.cid, n |-> n.v, idx |-> IdxOf(g.v), any |-> Tagged(g.v, "anychild"), m |-> c.m, pats |-> Keys(c.m, p.v)])
\* the optional ":name" of a loop or a break: [s, v]
Label(T, s) == IF Tk(T, s).k = "tag" /\ Tk(T, s).w = "name" THEN Const(T, [s EXCEPT !.i = @ + 1]) ELSE [s |-> s, v |-> ""]

OpenBlock(s) == LET b == Len(s.blocks) + 1 IN Ev([s EXCEPT !.blocks = Append(@, [p |-> s.b, c |-> <<>>]), !.b = b], "open", 0, 0, b)
CloseBlock(s, outer) == [Ev(s, "close", 0, 0, s.b) EXCEPT !.b = outer]

RECURSIVE Cmd(_, _), Cmds(_, _), Block(_, _), Branches(_, _, _, _)
\* a block: v its number
Block(T, s) ==
    LET o == OpenBlock(Skip(T, s, "{"))
        x == Cmds(T, o)
    IN IF s.bad # "" THEN None(s, "block") ELSE [s |-> CloseBlock(Skip(T, x, "}"), s.b), v |-> o.b]
Branches(T, s, id, br) ==
    LET t == Test(T, s)
        b == IF t.s.bad # "" THEN t ELSE Block(T, t.s)
        br1 == Append(br, [t |-> t.v, b |-> b.v])
        k == Tk(T, b.s)
        s1 == [b.s EXCEPT !.i = @ + 1, !.cid = id]
        el == Block(T, s1)
        done(s2, e) == Put(s2, [c |-> "if", id |-> id, br |-> br1, el |-> e])
    IN IF b.s.bad # "" THEN b.s
       ELSE IF k.k = "id" /\ k.w = "elsif" THEN Branches(T, s1, id, br1)
       ELSE IF k.k = "id" /\ k.w = "else" THEN IF el.s.bad # "" THEN el.s ELSE done([el.s EXCEPT !.cid = id], <<el.v>>)
       ELSE done([b.s EXCEPT !.cid = id], <<>>)
Cmd(T, s0) ==
    LET k == Tk(T, s0)
        s1 == NewId([s0 EXCEPT !.i = @ + 1])
        s == [s1 EXCEPT !.cid = s1.id]
        id == s1.id
    IN IF k.k # "id" THEN Open(s0, "command")
       ELSE CASE k.w = "if" -> Branches(T, s, id, <<>>)
              [] k.w = "require" -> LET x == Consts(T, s) e == Skip(T, x.s, ";") IN IF e.bad # "" THEN e ELSE Require(e, x.v)
              [] k.w \in {"setflag", "addflag", "removeflag"} -> FlagCmd(T, s, k.w)
              [] k.w = "deleteheader" -> DelHeader(T, s)
              [] k.w = "foreverypart" -> LET l == Label(T, s) b == IF l.s.bad # "" THEN l ELSE Block(T, l.s) IN
                                         IF b.s.bad # "" THEN b.s ELSE Put([b.s EXCEPT !.cid = id], [c |-> "fep", id |-> id, b |-> b.v, label |-> l.v])
              [] k.w = "while" -> LET x == Expression(T, s) b == IF x.s.bad # "" THEN x ELSE Block(T, x.s) IN
                                  IF b.s.bad # "" THEN b.s ELSE Put([b.s EXCEPT !.cid = id], [c |-> "while", id |-> id, e |-> x.v, b |-> b.v])
              [] k.w = "let" -> LET n == Const(T, s)
                                    t == IF n.s.bad # "" THEN n ELSE Target(n.s, n.v, FALSE)
                                    x == IF t.s.bad # "" THEN t ELSE Expression(T, t.s)
                                    e == IF x.s.bad # "" THEN x.s ELSE Skip(T, x.s, ";")
                                IN IF e.bad # "" THEN e ELSE Put(e, [c |-> "let", id |-> id, name |-> t.v, e |-> x.v])
              [] k.w = "break" -> LET l == Label(T, s) e == Skip(T, l.s, ";") IN IF e.bad # "" THEN e ELSE Put(e, [c |-> "break", id |-> id, label |-> l.v])
              [] k.w \in DOMAIN CmdSig ->
                   LET sig == CmdSig[k.w]
                       g == Tags(T, s, sig.g, <<>>)
                       p == ArgList(T, g.s, sig.p, 1, <<>>)
                       e == Skip(T, p.s, ";")
                       has(t) == Tagged(g.v, t)
                       rec(f) == [c |-> k.w, id |-> id] @@ f
                   IN IF e.bad # "" THEN e
                      ELSE IF (k.w \notin {"set", "extracttext"} /\ Repeats(g.v)) \/ (has("global") /\ has("personal")) THEN Open(e, "tags")
                      ELSE CASE k.w = "keep" -> Put(e, rec([flags |-> OptL(g.v, "flags")]))
                             [] k.w \in {"discard", "stop", "return", "continue"} -> Put(e, [c |-> k.w, id |-> id])
                             [] k.w = "fileinto" -> Put(e, rec([folder |-> p.v[1], copy |-> has("copy"), create |-> has("create"), flags |-> OptL(g.v, "flags"),
                                                              mbid |-> Opt(g.v, "mailboxid"), su |-> Opt(g.v, "specialuse")]))
                             [] k.w = "redirect" -> LET dsn == IF has("notify") THEN [i \in 1..Len(SplitOn(OptL(g.v, "notify"), ",")) |-> Lower(Trim(SplitOn(OptL(g.v, "notify"), ",")[i]))] ELSE <<>>
                                                      ret == IF has("ret") THEN Lower(OptL(g.v, "ret")) ELSE "default"
                                                      abs == IF has("bytimeabsolute") THEN Instant(OptL(g.v, "bytimeabsolute")) ELSE <<>>
                                                      mode == IF has("bymode") THEN Lower(OptL(g.v, "bymode")) ELSE "default"
                                                  IN IF ~(\/ dsn \in {<<>>, <<"never">>}
                                                          \/ (Range(dsn) \subseteq {"success", "failure", "delay"} /\ Cardinality(Range(dsn)) = Len(dsn)))
                                                        \/ ret \notin {"default", "full", "hdrs"} \/ mode \notin {"default", "notify", "return"}
                                                        \/ (~has("bytimerelative") /\ ~has("bytimeabsolute") /\ (has("bymode") \/ has("bytrace")))
                                                        \/ (has("bytimeabsolute") /\ (has("bytimerelative") \/ abs = <<>>)) THEN Open(e, "redirect")
                                                     ELSE Put(e, rec([addr |-> p.v[1], copy |-> has("copy"), list |-> has("list"), notify |-> dsn, ret |-> ret,
                                                                      bytime |-> IF has("bytimerelative") THEN [t |-> "rel", limit |-> ToString(TagV(g.v, "bytimerelative")[1]), mode |-> mode, trace |-> has("bytrace")]
                                                                                 ELSE IF has("bytimeabsolute") THEN [t |-> "abs", limit |-> ToString(abs[1]), mode |-> mode, trace |-> has("bytrace")]
                                                                                 ELSE [t |-> "none"]]))
                             [] k.w \in {"reject", "ereject"} -> Put(e, [c |-> "reject", id |-> id, ext |-> k.w = "ereject", reason |-> p.v[1]])
                             [] k.w = "error" -> Put(e, rec([msg |-> p.v[1]]))
                             [] k.w = "addheader" -> Put(e, rec([n |-> p.v[1], v |-> p.v[2], last |-> has("last")]))
                             [] k.w = "include" -> Put(e, rec([name |-> p.v[1], global |-> has("global"), once |-> has("once"), opt |-> has("optional")]))
                             [] k.w = "replace" -> Put(e, rec([mime |-> has("mime"), subject |-> Opt(g.v, "subject"), from |-> Opt(g.v, "from"), v |-> p.v[1]]))
                             [] k.w = "convert" -> Put(e, rec([from |-> p.v[1], to |-> p.v[2]]))
                             [] k.w = "enclose" -> Put(e, rec([subject |-> Opt(g.v, "subject"), headers |-> OptL(g.v, "headers"), v |-> p.v[1]]))
                             [] k.w = "extracttext" -> LET t == Target(e, p.v[1], has("local")) IN
                                                       IF t.s.bad # "" THEN t.s ELSE Put(t.s, rec([name |-> t.v, mods |-> ModList(g.v, 1, <<>>), first |-> Opt(g.v, "first")]))
                             [] k.w = "vacation" ->
                                  LET secs == IF has("days") THEN IF OptL(g.v, "days") > 20000 THEN 0 - 2 ELSE OptL(g.v, "days") * 86400 ELSE IF has("seconds") THEN OptL(g.v, "seconds") ELSE 0 - 1
                                  IN IF FccBad(g.v) \/ (has("days") /\ has("seconds")) \/ secs = 0 - 2 THEN Open(e, "vacation")
                                     ELSE Put(e, rec([expiry |-> secs, subject |-> Opt(g.v, "subject"), from |-> Opt(g.v, "from"), handle |-> Opt(g.v, "handle"), addresses |-> OptL(g.v, "addresses"),
                                                      mime |-> has("mime"), fcc |-> FccOf(g.v), reason |-> p.v[1]]))
                             [] k.w = "notify" -> IF FccBad(g.v) THEN Open(e, "notify")
                                                  ELSE Put(e, rec([from |-> Opt(g.v, "from"), importance |-> Opt(g.v, "importance"), message |-> Opt(g.v, "message"), options |-> OptL(g.v, "options"),
                                                                   fcc |-> FccOf(g.v), method |-> p.v[1]]))
                             [] k.w = "eval" -> Put(e, rec([e |-> p.v[1]]))
                             [] k.w = "set" -> LET t == Target(e, p.v[1], has("local")) IN
                                               IF t.s.bad # "" THEN t.s ELSE Put(t.s, rec([name |-> t.v, mods |-> ModList(g.v, 1, <<>>), v |-> p.v[2]]))
                             [] OTHER -> Put([e EXCEPT !.decl = @ \o [i \in 1..Len(p.v[1]) |-> [k |-> "g", n |-> Lower(p.v[1][i]), id |-> id, b |-> e.b]]], [c |-> "global", id |-> id])
              [] OTHER -> Open(s0, "command " \o k.w)
Cmds(T, s) ==
    IF s.bad # "" \/ Tk(T, s).k = "eof" \/ IsP(Tk(T, s), "}") THEN s
    ELSE Cmds(T, Cmd(T, s))

\* the program of the text with these octets
Program(b) ==
    LET T == Lex(b, 1, 1, <<>>, 4096)
        s == IF Last(T).k # "eof" THEN Open(R0, "lexical") ELSE Cmds(T, R0)
    IN IF s.bad = "" /\ Tk(T, s).k # "eof" THEN Open(s, "brace")
       ELSE Ev(s, "close", 0, 0, 1)
==============================================================================
