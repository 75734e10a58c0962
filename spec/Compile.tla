------------------------------- MODULE Compile -------------------------------
(***************************************************************************)
(* Which scripts the compiler accepts.  Compiling is a walk over the tokens *)
(* of the script, one command at a time; the state is the position, the     *)
(* enclosing blocks with the capabilities required and the variables        *)
(* introduced in each, the global variables and what has been counted.      *)
(*                                                                          *)
(* A command either parses (Step gives the next state), is rejected for one *)
(* of a set of reasons, or is left open: where RFC 5228 and the code allow  *)
(* different readings both outcomes are allowed.                            *)
(***************************************************************************)
EXTENDS Lexer

EmptyF == [x \in {} |-> 0]
MaxMatchVars == 63
MaxLocal == 256

\* parse state of a command: i next token, rs reasons to reject it, op: may be rejected or not,
\* st "ok" | "syn" (rejected here) | "err" (lexical error met) | "wild" (anything goes), regs: variables
\* introduced, got: tokens of the last argument, tags seen, rx: keys are regular expressions
A0(i) == [i |-> i, rs |-> {}, op |-> FALSE, st |-> "ok", regs |-> <<>>, got |-> <<>>, tags |-> {}, rx |-> FALSE]
Adv(a, n) == [a EXCEPT !.i = @ + n]
Syn(a) == [a EXCEPT !.st = "syn"]
Bad(a, r) == [a EXCEPT !.rs = @ \cup r]
Opn(a, b) == [a EXCEPT !.op = @ \/ b]
Fail(a, k) == CASE k.k = "err" -> [a EXCEPT !.st = "err", !.rs = @ \cup {k.w, "UnexpectedToken", "InvalidArguments"}]
                [] k.k = "wild" -> [a EXCEPT !.st = "wild"]
                [] OTHER -> Syn(a)

\* X: what the command sees: caps (visible capabilities), names (visible variables, lower case), glob, o (options)
UseCap(c, X) == IF c = "" \/ c \in X.caps \/ (X.o.nocap /\ c # "ihave") THEN {} ELSE {"UndeclaredCapability"}
VisNames(X, a) == X.names \cup {a.regs[i].n : i \in 1..Len(a.regs)}

------------------------------------------------------------------------------
(* Strings *)
Braced(b) == {<<i, j>> \in (1..Len(b)) \X (1..Len(b)) :
                 i + 2 < j /\ b[i] = 36 /\ b[i + 1] = 123 /\ b[j] = 125 /\ \A k \in (i + 2)..(j - 1) : b[k] \notin {125, 123}}
\* ${n} must be in range; names of message facts and encoded characters are not modelled
VarRs(k, X) ==
    IF ~k.v THEN {}
    ELSE UNION {LET s == SubSeq(k.b, x[1] + 2, x[2] - 1) IN
                IF ~\A i \in 1..Len(s) : IsDig(s[i]) THEN {}
                ELSE LET n == NumOf(s) IN
                     IF n = <<>> \/ n[1].v < 0 THEN {"InvalidMatchVariable", "InvalidNumber"}
                     ELSE IF n[1].v >= MaxMatchVars \/ n[1].v > X.o.maxmatch THEN {"InvalidMatchVariable"} ELSE {} : x \in Braced(k.b)}
VarOp(k) == k.v /\ (\E i \in 1..(Len(k.b) - 1) : k.b[i] = 36 /\ k.b[i + 1] = 123 /\
                       (\E j \in (i + 2)..Len(k.b) : k.b[j] = 58 \/ (j + 6 <= Len(k.b) /\ Lower(StrOf(SubSeq(k.b, j, j + 6))) = "header.")))
NumLike(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits \cup {".", "-"}

NameChars == CharSet(LowerAlpha) \cup CharSet(UpperAlpha) \cup Digits \cup {".", "-", "_"}
PlainAddr(s) == LET p == SplitOn(s, "@") IN Len(p) = 2 /\ p[1] # "" /\ p[2] # "" /\
                   (\A x \in {p[1], p[2]} : (\A i \in 1..Len(x) : Ch(x, i) \in Alnum \cup {".", "-"}) /\ Ch(x, 1) \in Alnum /\ Ch(x, Len(x)) \in Alnum
                        /\ ~Contains(x, "..") /\ ~Contains(x, ".-") /\ ~Contains(x, "-."))
                   /\ Contains(p[2], ".")
\* "ok", "bad" or "open"
UriIs(s) == IF s = "" \/ ~Contains(s, ":") THEN "bad"
            ELSE IF StartsWith(s, "mailto:") /\ PlainAddr(From(s, 8)) THEN "ok"
            ELSE IF s \in {"mailto:", "foo:bar"} THEN "bad"
            ELSE "open"
FromIs(s) == IF PlainAddr(s) THEN "ok" ELSE IF s = "" THEN "bad" ELSE "open"
RECURSIVE Parens(_, _, _)
Parens(s, i, d) == IF i > Len(s) THEN d = 0 ELSE CASE Ch(s, i) = "(" -> Parens(s, i + 1, d + 1)
                     [] Ch(s, i) = ")" -> d > 0 /\ Parens(s, i + 1, d - 1) [] OTHER -> Parens(s, i + 1, d)
RegexIs(s) == IF ~\A i \in 1..Len(s) : Ch(s, i) \in Alnum \cup {" ", "@", "-", "_", ".", "(", ")"} THEN "open"
              ELSE IF Contains(s, "()") THEN "open" ELSE IF Parens(s, 1, 0) THEN "ok" ELSE "bad"

EnvBase == {"from", "to"}
EnvBy == {"bytimeabsolute", "bytimerelative", "bymode", "bytrace"}
EnvDsn == {"notify", "orcpt", "ret", "envid"}
EnvVarNames == {"from", "to", "by_time_absolute", "by_time_relative", "by_mode", "by_trace", "notify", "orcpt", "ret", "envid"}
DateParts == {"year", "month", "day", "date", "julian", "hour", "minute", "second", "time", "iso8601", "std11", "zone", "weekday"}

\* names of variables: reasons to refuse one, and the local variable it introduces
LowStr(b) == StrOf([i \in 1..Len(b) |-> LowB(b[i])])
VarName(b, X) ==
    LET n == LowStr(b)
        d == FindB(b, 1, 46)
        part == Len(b) - d
        ns == Upto(n, Max(d, 1) - 1)
        rest == From(n, d + 1)
    IN [rs |-> (IF part >= X.o.maxname THEN {"VariableTooLong"} ELSE {})
               \cup (IF d > 0 /\ ~(ns \in {"global", "t"} \/ (ns = "envelope" /\ rest \in EnvBase \cup EnvBy \cup EnvDsn)) THEN {"InvalidNamespace"} ELSE {}),
        op |-> d > 0 /\ rest = "",
        reg |-> IF d > 0 THEN <<>> ELSE <<n>>]
Register(a, b, local, X) ==
    LET v == VarName(b, X) IN
    [Opn(Bad(a, v.rs), v.op) EXCEPT !.regs = @ \o [i \in 1..Len(v.reg) |-> [n |-> v.reg[i], l |-> local]]]

------------------------------------------------------------------------------
(* Expressions *)
Funcs(X) == [f_cat |-> 2, f_id |-> 1, f_len |-> 1, f_one |-> 0, xa |-> 1, xb |-> 2, xc |-> 0, xd |-> 4, f_four |-> 4]
ETok(k, w) == [k |-> k, w |-> w]
RECURSIVE EQuote(_, _, _)
EQuote(b, i, q) == \* index of the closing quote, 0 if none
    IF i > Len(b) THEN 0 ELSE IF b[i] = 92 THEN EQuote(b, i + 2, q) ELSE IF b[i] = q THEN i ELSE EQuote(b, i + 1, q)
RECURSIVE ENameEnd(_, _)
ENameEnd(b, i) == IF i > Len(b) THEN i ELSE IF IsLet(b[i]) \/ IsDig(b[i]) \/ b[i] \in {95, 46} THEN ENameEnd(b, i + 1) ELSE i
EWord(w) ==
    LET alpha == \E i \in 1..Len(w) : IsLet(w[i]) \/ w[i] = 95
        dig == \E i \in 1..Len(w) : IsDig(w[i])
        dots == Cardinality({i \in 1..Len(w) : w[i] = 46})
    IN IF alpha THEN ETok("name", StrOf(w))
       ELSE IF ~dig \/ dots > 1 THEN ETok("bad", "")
       ELSE IF dots = 0 THEN ETok(IF Len(w) <= 18 THEN "num" ELSE "odd", "")
       ELSE ETok(IF w[1] = 46 \/ Last(w) = 46 THEN "odd" ELSE "num", "")
RECURSIVE ELex(_, _, _)
ELex(b, i, acc) ==
    IF i > Len(b) THEN Append(acc, ETok("eof", ""))
    ELSE LET c == b[i] nx == IF i < Len(b) THEN b[i + 1] ELSE 0
             one(k) == ELex(b, i + 1, Append(acc, ETok(k, "")))
             opt(k, S) == ELex(b, IF nx \in S THEN i + 2 ELSE i + 1, Append(acc, ETok(k, ""))) IN
    CASE c \in {32, 13, 10} -> ELex(b, i + 1, acc)
      [] IsLet(c) \/ IsDig(c) \/ c \in {95, 46} ->
           LET j == ENameEnd(b, i)
               w == SubSeq(b, i, j - 1)
               n == IF j <= Len(b) THEN b[j] ELSE 0
               dot == \E k \in 1..Len(w) : w[k] = 46
           IN IF (dot /\ n \in {58, 91, 45, 42} /\ (n # 42 \/ Last(w) = 46) /\ (n \in {58, 42} \/ Lower(StrOf(SubSeq(w, 1, Min(7, Len(w))))) = "header."))
              THEN Append(acc, ETok("odd", ""))
              ELSE ELex(b, j, Append(acc, EWord(w)))
      [] c = 38 -> opt("op", {38}) [] c = 124 -> opt("op", {124})
      [] c = 33 -> IF nx = 61 THEN opt("op", {61}) ELSE one("un")
      [] c \in {94, 43, 42, 47} -> one("op")
      [] c = 45 -> one("-") [] c = 40 -> one("(") [] c = 41 -> one(")")
      [] c = 91 -> one("[") [] c = 93 -> one("]") [] c = 44 -> one(",")
      [] c = 61 -> IF nx \in {60, 61, 62} THEN opt("op", {60, 61, 62}) ELSE Append(acc, ETok("odd", ""))
      [] c \in {60, 62} -> opt("op", {61})
      [] c \in {34, 39} -> LET e == EQuote(b, i + 1, c) IN
             IF e = 0 THEN Append(acc, ETok("bad", "")) ELSE ELex(b, e + 1, Append(acc, ETok("str", "")))
      [] c \in {125, 9} -> Append(acc, ETok("odd", ""))
      [] OTHER -> Append(acc, ETok("bad", ""))

\* names: N = [v (visible variables), f (functions)]
EVar(w, N) ==
    LET l == Lower(w) d == IndexFrom(l, ".", 1) ns == Upto(l, Max(d, 1) - 1) rest == From(l, d + 1) IN
    IF d = 0 THEN l \in N.v
    ELSE rest # "" /\ (ns \in {"global", "t", "env"} \/ (ns = "envelope" /\ rest \in EnvVarNames)
              \/ (ns = "body" /\ rest \in {"text", "html", "to_text", "to_html"}) \/ (ns = "part" /\ rest \in {"text", "raw"}))
\* index after the expression that starts at i, 0 if there is none
RECURSIVE EExpr(_, _, _), EPost(_, _, _), EArgs(_, _, _, _, _)
\* arguments up to the closing token: [i, n]
EArgs(ts, i, close, n, N) ==
    LET j == EExpr(ts, i, N) IN
    IF j = 0 THEN [i |-> 0, n |-> 0]
    ELSE IF ts[j].k = close THEN [i |-> j + 1, n |-> n + 1]
    ELSE IF ts[j].k = "," THEN EArgs(ts, j + 1, close, n + 1, N)
    ELSE [i |-> 0, n |-> 0]
EPost(ts, i, N) ==
    CASE ts[i].k = "[" -> LET j == EExpr(ts, i + 1, N) IN IF j = 0 \/ ts[j].k # "]" THEN 0 ELSE EPost(ts, j + 1, N)
      [] ts[i].k \in {"op", "-"} -> EExpr(ts, i + 1, N)
      [] OTHER -> i
EExpr(ts, i, N) ==
    LET k == ts[i] IN
    CASE k.k \in {"un", "-"} -> EExpr(ts, i + 1, N)
      [] k.k \in {"num", "str"} -> EPost(ts, i + 1, N)
      [] k.k = "name" ->
           IF k.w \in {"true", "false"} THEN EPost(ts, i + 1, N)
           ELSE IF EVar(k.w, N) THEN EPost(ts, i + 1, N)
           ELSE IF k.w \in DOMAIN N.f
           THEN IF ts[i + 1].k # "(" THEN 0
                ELSE IF ts[i + 2].k = ")" THEN IF N.f[k.w] = 0 THEN EPost(ts, i + 3, N) ELSE 0
                ELSE LET r == EArgs(ts, i + 2, ")", 0, N) IN IF r.i = 0 \/ r.n # N.f[k.w] THEN 0 ELSE EPost(ts, r.i, N)
           ELSE 0
      [] k.k = "(" -> LET j == EExpr(ts, i + 1, N) IN IF j = 0 \/ ts[j].k # ")" THEN 0 ELSE EPost(ts, j + 1, N)
      [] k.k = "[" -> IF ts[i + 1].k = "]" THEN EPost(ts, i + 2, N)
                      ELSE LET r == EArgs(ts, i + 1, "]", 0, N) IN IF r.i = 0 THEN 0 ELSE EPost(ts, r.i, N)
      [] OTHER -> 0
ExprIs(b, N) ==
    LET ts == ELex(b, 1, <<>>) l == Last(ts).k
        idx == \E i \in 1..(Len(ts) - 1) : ts[i + 1].k = "[" /\ (ts[i].k \in {"num", "str"} \/ ts[i].w \in {"true", "false"})
        hdr == \E i \in 1..Len(ts) : ts[i].k = "name" /\ StartsWith(Lower(ts[i].w), "header.")
        j == EExpr(ts, 1, N)
        odd == \E i \in 1..Len(ts) : ts[i].k = "odd"
    IN IF Len(ts) = 1 \/ odd \/ idx \/ hdr THEN "open"
       ELSE IF l = "bad" THEN "bad"
       ELSE IF j # 0 /\ ts[j].k = "eof" THEN "ok" ELSE "bad"

------------------------------------------------------------------------------
(* Arguments.  Types of arguments:                                          *)
(*   str1   a string                  str    also a list of one (open)      *)
(*   strs   a string or a list        keys   the keys of a match            *)
(*   hname, hnames, hname0            names of header fields                *)
(*   num, num16                       numbers                               *)
(*   const, consts, name              constant strings                      *)
(*   rel bymode ret dsn part zone env the values of an enumeration          *)
(*   var    name of a variable        expr   expression                     *)
(*   uri from hdrval                  strings that are checked              *)
ConstTypes == {"const", "consts", "name", "rel", "bymode", "ret", "dsn", "part", "zone", "env", "var"}
ListTypes == {"str", "strs", "keys", "hnames", "hname0", "const", "consts", "bymode", "ret", "dsn", "env", "from"}
OneTypes == {"str", "hname0", "const", "bymode", "ret", "dsn", "from"}

\* strings of a list from i (after "["): [i (after the list), v, f (token at fault: 0 if none)]
RECURSIVE ListFrom(_, _, _)
ListFrom(t, i, v) ==
    IF t[i].k # "str" THEN [i |-> i, v |-> v, f |-> i]
    ELSE IF t[i + 1].w = "," /\ t[i + 1].k = "p" THEN ListFrom(t, i + 2, Append(v, t[i]))
    ELSE IF t[i + 1].w = "]" /\ t[i + 1].k = "p" THEN [i |-> i + 2, v |-> Append(v, t[i]), f |-> 0]
    ELSE [i |-> i + 1, v |-> v, f |-> i + 1]

Check(a0, ty, ks, isl, X) ==
    LET a == [a0 EXCEPT !.got = ks]
        v == \E i \in 1..Len(ks) : ks[i].v
        s(i) == StrOf(ks[i].b)
        rs == UNION {VarRs(ks[i], X) : i \in 1..Len(ks)}
        op == \E i \in 1..Len(ks) : VarOp(ks[i])
        one == isl /\ ty \in OneTypes
        b == Opn(Bad(a, rs), op \/ one)
        named(nm) == Opn(Bad(b, {"InvalidHeaderName" : i \in {j \in 1..Len(ks) : ~ks[j].v /\ ~NumLike(s(j)) /\ ~IsHName(s(j))}}),
                         v \/ \E i \in 1..Len(ks) : NumLike(s(i)))
        enum(S) == IF Lower(s(1)) \in S THEN Opn(a, one) ELSE Syn(a)
    IN
    IF one /\ Len(ks) # 1 THEN Syn(a)
    ELSE IF ty \in ConstTypes /\ v
    THEN IF \A i \in 1..Len(ks) : ks[i].v => (ks[i].pc /\ ~\E j \in 1..(Len(ks[i].b) - 1) : ks[i].b[j] = 36 /\ ks[i].b[j + 1] = 123)
         THEN [a EXCEPT !.st = "wild"] ELSE Syn(a)
    ELSE CASE ty \in {"str", "str1", "strs"} -> b
      [] ty \in {"const", "consts", "name"} -> Opn(a, one)
      [] ty = "keys" -> IF ~a.rx THEN b
             ELSE Opn(Bad(b, {"InvalidRegex" : i \in {j \in 1..Len(ks) : ~ks[j].v /\ ~NumLike(s(j)) /\ RegexIs(s(j)) = "bad"}}),
                      v \/ \E i \in 1..Len(ks) : NumLike(s(i)) \/ RegexIs(s(i)) = "open")
      [] ty \in {"hname", "hnames", "hname0"} -> named(0)
      [] ty = "rel" -> IF s(1) \in {"gt", "ge", "lt", "le", "eq", "ne"} THEN a ELSE Syn(a)
      [] ty = "bymode" -> enum({"notify", "return"})
      [] ty = "ret" -> enum({"full", "hdrs"})
      [] ty = "dsn" -> LET p == SplitOn(Lower(s(1)), ",")
                           good == {i \in 1..Len(p) : Trim(p[i]) \in {"success", "failure", "delay"}}
                       IN IF Lower(s(1)) = "never" \/ good = 1..Len(p) THEN Opn(a, one)
                          ELSE IF good = {} THEN Syn(a) ELSE Opn(a, TRUE)
      [] ty = "part" -> enum(DateParts)
      [] ty = "zone" -> IF Contains(s(1), ".") THEN Opn(a, TRUE)
                        ELSE IF IsInt(s(1)) /\ IntOf(s(1)) \in (0 - 1200)..1400 THEN a
                        ELSE IF Len(s(1)) > 9 THEN Opn(a, TRUE) ELSE Syn(a)
      [] ty = "env" -> LET ns == {Lower(s(i)) : i \in 1..Len(ks)} IN
             Bad(a, (IF ns \subseteq EnvBase \cup EnvBy \cup EnvDsn THEN {} ELSE {"InvalidEnvelope"})
                    \cup (IF ns \cap EnvBy # {} THEN UseCap("envelope-deliverby", X) ELSE {})
                    \cup (IF ns \cap EnvDsn # {} THEN UseCap("envelope-dsn", X) ELSE {}))
      [] ty = "uri" -> IF v THEN b ELSE CASE UriIs(s(1)) = "bad" -> Bad(b, {"InvalidURI"}) [] UriIs(s(1)) = "open" -> Opn(b, TRUE) [] OTHER -> b
      [] ty = "from" -> IF v THEN Opn(b, TRUE) ELSE IF NumLike(s(1)) THEN Opn(b, TRUE)
                        ELSE CASE FromIs(s(1)) = "bad" -> Bad(b, {"InvalidAddress"}) [] FromIs(s(1)) = "open" -> Opn(b, TRUE) [] OTHER -> b
      [] ty = "hdrval" -> IF v THEN Opn(b, Len(ks[1].b) > X.o.maxheader) ELSE IF Len(ks[1].b) > X.o.maxheader THEN Bad(b, {"HeaderTooLong"}) ELSE b
      [] ty = "var" -> Register(a, ks[1].b, "local" \in a.tags, X)
      [] ty = "expr" -> LET e == ExprIs(ks[1].b, [v |-> VisNames(X, a), f |-> Funcs(X)]) IN
             CASE e = "bad" -> Bad(a, {"InvalidExpression"}) [] e = "open" -> Opn(a, TRUE) [] OTHER -> a
      [] OTHER -> Assert(FALSE, ty)

IsP(k, c) == k.k = "p" /\ k.w = c
Arg(t, a, ty, X) ==
    LET k == t[a.i] IN
    IF a.st # "ok" THEN a
    ELSE IF k.k \in {"err", "wild"} THEN Fail(a, k)
    ELSE IF ty \in {"num", "num16"}
    THEN IF k.k # "num" THEN Syn(a)
         ELSE IF ty = "num16" /\ (k.n < 0 \/ k.n >= 65535) THEN Syn(a) ELSE Opn(Adv(a, 1), k.w = "?")
    ELSE IF k.k = "str" THEN Check(Adv(a, 1), ty, <<k>>, FALSE, X)
    ELSE IF IsP(k, "[") /\ ty \in ListTypes
    THEN LET l == ListFrom(t, a.i + 1, <<>>) IN
         IF l.f # 0
         THEN IF ty = "env" /\ t[l.f].k \notin {"err", "wild"} THEN [a EXCEPT !.st = "wild"] ELSE Fail([a EXCEPT !.i = l.f], t[l.f])
         ELSE Check([a EXCEPT !.i = l.i], ty, l.v, TRUE, X)
    ELSE Syn(a)
RECURSIVE Args(_, _, _, _)
Args(t, a, tys, X) == IF tys = <<>> \/ a.st # "ok" THEN a ELSE Args(t, Arg(t, a, tys[1], X), Tail(tys), X)

\* tagged and positional arguments of a command or test: tags maps a tag to [c (capability), g (group whose
\* members exclude each other, "" by itself, "*" may be repeated), a (its arguments)]
T(c, g, a) == [c |-> c, g |-> g, a |-> a]
RECURSIVE Params(_, _, _, _, _, _, _)
Params(t, a, tags, pos, p, seen, X) ==
    LET k == t[a.i] IN
    IF a.st # "ok" \/ (p > Len(pos) /\ pos # <<>>) THEN a
    ELSE IF k.k = "tag" /\ k.w \in DOMAIN tags
    THEN LET d == tags[k.w]
             g == IF d.g = "" THEN k.w ELSE d.g
             dup == g # "*" /\ g \in seen
             a1 == [Opn(Bad(Adv(a, 1), UseCap(d.c, X) \cup (IF dup THEN {"DuplicatedParameter"} ELSE {})), p > 1 \/ (d.g = "*" /\ k.w \in a.tags))
                       EXCEPT !.tags = @ \cup {k.w}, !.rx = IF k.w = "regex" THEN TRUE ELSE @]
         IN Params(t, Args(t, a1, d.a, X), tags, pos, p, seen \cup {g}, X)
    ELSE IF pos = <<>> THEN (IF k.k \in {"err", "wild"} THEN Fail(a, k) ELSE a)
    ELSE Params(t, Arg(t, a, pos[p], X), tags, pos, p + 1, seen, X)

------------------------------------------------------------------------------
(* Commands and tests *)
MatchTags == ("is" :> T("", "match", <<>>)) @@ ("contains" :> T("", "match", <<>>)) @@ ("matches" :> T("", "match", <<>>))
   @@ ("value" :> T("relational", "match", <<"rel">>)) @@ ("count" :> T("relational", "match", <<"rel">>))
   @@ ("regex" :> T("regex", "match", <<>>)) @@ ("comparator" :> T("", "", <<"const">>))
MatchTagsL == MatchTags @@ ("list" :> T("extlists", "match", <<>>))
IndexTags == ("index" :> T("index", "", <<"num16">>)) @@ ("last" :> T("index", "", <<>>))
MimeTags == ("mime" :> T("mime", "", <<>>)) @@ ("anychild" :> T("mime", "", <<>>))
MimeOpts == ("type" :> T("mime", "opts", <<>>)) @@ ("subtype" :> T("mime", "opts", <<>>)) @@ ("contenttype" :> T("mime", "opts", <<>>))
   @@ ("param" :> T("mime", "opts", <<"strs">>))
AddrTags == ("localpart" :> T("", "part", <<>>)) @@ ("domain" :> T("", "part", <<>>)) @@ ("all" :> T("", "part", <<>>))
   @@ ("user" :> T("subaddress", "part", <<>>)) @@ ("detail" :> T("subaddress", "part", <<>>))
FccTags == ("create" :> T("mailbox", "", <<>>)) @@ ("specialuse" :> T("special-use", "", <<"str">>)) @@ ("mailboxid" :> T("mailboxid", "", <<"str">>))
   @@ ("fcc" :> T("fcc", "", <<"str">>)) @@ ("flags" :> T("imap4flags", "", <<"strs">>))
ModTags == ("lower" :> T("", "*", <<>>)) @@ ("upper" :> T("", "*", <<>>)) @@ ("lowerfirst" :> T("", "*", <<>>)) @@ ("upperfirst" :> T("", "*", <<>>))
   @@ ("quotewildcard" :> T("", "*", <<>>)) @@ ("quoteregex" :> T("", "*", <<>>)) @@ ("length" :> T("", "*", <<>>))
   @@ ("replace" :> T("", "*", <<"str1", "str1">>)) @@ ("local" :> T("", "*", <<>>))
FccOnly == {"create", "specialuse", "mailboxid", "flags"}
MimeOnly == {"anychild", "type", "subtype", "contenttype", "param"}

\* c capability, t tags, p positional arguments, n: tags that need the tag b
Cmd(c, t, p) == [c |-> c, t |-> t, p |-> p, n |-> {}, b |-> ""]
Needs(d, n, b) == [d EXCEPT !.n = n, !.b = b]
CmdTab == TLCEval(
  [ fileinto |-> Cmd("fileinto", ("copy" :> T("copy", "", <<>>)) @@ ("create" :> T("mailbox", "", <<>>)) @@ ("flags" :> T("imap4flags", "", <<"strs">>))
                     @@ ("mailboxid" :> T("mailboxid", "", <<"str">>)) @@ ("specialuse" :> T("special-use", "", <<"str">>)), <<"str1">>),
    redirect |-> Cmd("", ("copy" :> T("copy", "", <<>>)) @@ ("list" :> T("extlists", "", <<>>)) @@ ("bytrace" :> T("redirect-deliverby", "", <<>>))
                     @@ ("bymode" :> T("redirect-deliverby", "", <<"bymode">>)) @@ ("bytimerelative" :> T("redirect-deliverby", "bytime", <<"num">>))
                     @@ ("bytimeabsolute" :> T("redirect-deliverby", "bytime", <<"str">>)) @@ ("ret" :> T("redirect-dsn", "", <<"ret">>))
                     @@ ("notify" :> T("redirect-dsn", "", <<"dsn">>)), <<"str1">>),
    replace |-> Cmd("replace", ("mime" :> T("", "", <<>>)) @@ ("subject" :> T("", "", <<"str">>)) @@ ("from" :> T("", "", <<"str">>)), <<"str1">>),
    enclose |-> Cmd("enclose", ("subject" :> T("", "", <<"str">>)) @@ ("headers" :> T("", "", <<"strs">>)), <<"str1">>),
    extracttext |-> Cmd("extracttext", ("first" :> T("", "", <<"num">>)) @@ ModTags, <<"var">>),
    convert |-> Cmd("convert", EmptyF, <<"str", "str", "strs">>),
    addheader |-> Cmd("editheader", ("last" :> T("", "", <<>>)), <<"hname", "hdrval">>),
    set |-> Cmd("variables", ModTags @@ ("encodeurl" :> T("", "*", <<>>)), <<"var", "str1">>),
    notify |-> Needs(Cmd("enotify", ("from" :> T("", "", <<"from">>)) @@ ("message" :> T("", "", <<"str">>)) @@ ("importance" :> T("", "", <<"str">>))
                     @@ ("options" :> T("", "", <<"strs">>)) @@ FccTags, <<"uri">>), FccOnly, "fcc"),
    reject |-> Cmd("reject", EmptyF, <<"str">>),
    ereject |-> Cmd("ereject", EmptyF, <<"str">>),
    vacation |-> Needs(Cmd("vacation", ("mime" :> T("", "", <<>>)) @@ ("days" :> T("", "period", <<"num">>))
                     @@ ("seconds" :> T("vacation-seconds", "period", <<"num">>)) @@ ("subject" :> T("", "", <<"str">>))
                     @@ ("from" :> T("", "", <<"str">>)) @@ ("handle" :> T("", "", <<"str">>)) @@ ("addresses" :> T("", "", <<"strs">>)) @@ FccTags,
                     <<"str1">>), FccOnly, "fcc"),
    error |-> Cmd("ihave", EmptyF, <<"str">>),
    discard |-> Cmd("", EmptyF, <<>>),
    stop |-> Cmd("", EmptyF, <<>>),
    return |-> Cmd("include", EmptyF, <<>>),
    include |-> Cmd("include", ("once" :> T("", "", <<>>)) @@ ("optional" :> T("", "", <<>>)) @@ ("personal" :> T("", "loc", <<>>))
                     @@ ("global" :> T("", "loc", <<>>)), <<"str1">>),
    eval |-> Cmd("vnd.stalwart.expressions", EmptyF, <<"expr">>),
    let |-> Cmd("vnd.stalwart.expressions", EmptyF, <<"var", "expr">>) ])
TestTab == TLCEval(
  [ address |-> Needs(Cmd("", AddrTags @@ ("name" :> T("", "part", <<>>)) @@ MatchTagsL @@ IndexTags @@ MimeTags, <<"strs", "keys">>), {"anychild"}, "mime"),
    header |-> Needs(Cmd("", MatchTagsL @@ IndexTags @@ MimeTags @@ MimeOpts, <<"hnames", "keys">>), MimeOnly, "mime"),
    exists |-> Needs(Cmd("", MimeTags, <<"hnames">>), {"anychild"}, "mime"),
    envelope |-> Cmd("envelope", AddrTags @@ MatchTagsL @@ ("zone" :> T("envelope-deliverby", "", <<"zone">>)), <<"env", "keys">>),
    body |-> Cmd("body", MatchTags @@ ("raw" :> T("", "trans", <<>>)) @@ ("text" :> T("", "trans", <<>>)) @@ ("content" :> T("", "trans", <<"strs">>))
                     @@ ("subject" :> T("", "", <<>>)), <<"keys">>),
    convert |-> Cmd("convert", EmptyF, <<"str", "str", "strs">>),
    date |-> Needs(Cmd("date", MatchTagsL @@ IndexTags @@ MimeTags @@ ("zone" :> T("", "zone", <<"zone">>)) @@ ("originalzone" :> T("", "zone", <<>>)),
                     <<"hname", "part", "keys">>), {"anychild"}, "mime"),
    currentdate |-> Cmd("date", MatchTagsL @@ ("zone" :> T("", "", <<"zone">>)), <<"part", "keys">>),
    duplicate |-> Cmd("duplicate", ("handle" :> T("", "", <<"str">>)) @@ ("header" :> T("", "id", <<"hname0">>)) @@ ("uniqueid" :> T("", "id", <<"str">>))
                     @@ ("seconds" :> T("", "", <<"num">>)) @@ ("last" :> T("", "", <<>>)), <<>>),
    string |-> Cmd("variables", MatchTagsL, <<"strs", "keys">>),
    environment |-> Cmd("environment", MatchTags, <<"name", "keys">>),
    notify_method_capability |-> Cmd("enotify", MatchTags, <<"str1", "str1", "keys">>),
    valid_notify_method |-> Cmd("enotify", EmptyF, <<"strs">>),
    valid_ext_list |-> Cmd("extlists", EmptyF, <<"strs">>),
    ihave |-> Cmd("ihave", EmptyF, <<"consts">>),
    mailboxexists |-> Cmd("mailbox", EmptyF, <<"strs">>),
    metadata |-> Cmd("mboxmetadata", MatchTags, <<"str1", "str1", "keys">>),
    metadataexists |-> Cmd("mboxmetadata", EmptyF, <<"str", "strs">>),
    servermetadata |-> Cmd("servermetadata", MatchTags, <<"str1", "keys">>),
    servermetadataexists |-> Cmd("servermetadata", EmptyF, <<"strs">>),
    mailboxidexists |-> Cmd("mailboxid", EmptyF, <<"strs">>),
    spamtest |-> Cmd("spamtest", MatchTags @@ ("percent" :> T("spamtestplus", "", <<>>)), <<"str1">>),
    virustest |-> Cmd("virustest", MatchTags, <<"str1">>),
    eval |-> Cmd("vnd.stalwart.expressions", EmptyF, <<"expr">>) ])

Table(t, a, d, X) ==
    LET r == Params(t, Bad(a, UseCap(d.c, X)), d.t, d.p, 1, {}, X) IN
    IF r.st = "ok" /\ r.tags \cap d.n # {} /\ d.b \notin r.tags THEN Bad(r, {"MissingTag"}) ELSE r

\* names one or two string arguments: `one` types if there is one, `two` if there are two
OneOrTwo(t, a, one, two, X) ==
    LET r1 == Arg(t, a, "strs", X)
        second == r1.st = "ok" /\ (t[r1.i].k = "str" \/ IsP(t[r1.i], "["))
    IN IF r1.st # "ok" THEN r1 ELSE IF second THEN Args(t, a, two, X) ELSE Arg(t, a, one, X)

RECURSIVE RegAll(_, _, _, _)
RegAll(a, ks, X, l) == IF ks = <<>> THEN a ELSE RegAll(Register(a, ks[1].b, l, X), Tail(ks), X, l)
\* [variables] flags
FlagVars(t, a0, X, local) ==
    LET a == Arg(t, a0, "strs", X)
        ks == a.got
        two == a.st = "ok" /\ (t[a.i].k = "str" \/ IsP(t[a.i], "["))
        odd == \E i \in 1..Len(ks) : ks[i].v \/ NumLike(StrOf(ks[i].b))
        r == RegAll(a, ks, X, local)
    IN IF a.st # "ok" THEN a
       ELSE IF two THEN (IF odd THEN [a EXCEPT !.st = "wild"] ELSE Arg(t, r, "keys", X))
       ELSE Arg(t, a0, "keys", X)

\* tokens of an unknown test: up to "," or ")" outside brackets, or "{"
RECURSIVE SkipTest(_, _, _)
SkipTest(t, i, d) ==
    LET k == t[i] IN
    CASE k.k \in {"err", "wild", "eof"} -> i
      [] IsP(k, "(") \/ IsP(k, "[") -> SkipTest(t, i + 1, d + 1)
      [] IsP(k, ")") \/ IsP(k, "]") -> IF d = 0 THEN i ELSE SkipTest(t, i + 1, d - 1)
      [] IsP(k, ",") -> IF d = 0 THEN i ELSE SkipTest(t, i + 1, d)
      [] IsP(k, "{") -> i
      [] OTHER -> SkipTest(t, i + 1, d)
\* an unknown command: index after its ";" or its "}", 0 if it does not end
RECURSIVE SkipCmd(_, _, _)
SkipCmd(t, i, d) ==
    LET k == t[i] IN
    CASE k.k \in {"err", "wild", "eof"} -> 0 - i
      [] IsP(k, ";") -> IF d = 0 THEN i + 1 ELSE SkipCmd(t, i + 1, d)
      [] IsP(k, "{") -> SkipCmd(t, i + 1, d + 1)
      [] IsP(k, "}") -> IF d = 0 THEN 0 - i ELSE IF d = 1 THEN i + 1 ELSE SkipCmd(t, i + 1, d - 1)
      [] OTHER -> SkipCmd(t, i + 1, d)

RECURSIVE Test(_, _, _, _), TestList(_, _, _, _)
TestList(t, a, d, X) ==
    LET r == Test(t, a, d, X) k == t[r.i] IN
    IF r.st # "ok" THEN r
    ELSE IF IsP(k, ",") THEN TestList(t, Adv(r, 1), d, X)
    ELSE IF IsP(k, ")") THEN Adv(r, 1)
    ELSE Fail(r, k)
Test(t, a0, d, X) ==
    LET k == t[a0.i]
        a == [Adv(a0, 1) EXCEPT !.tags = {}, !.rx = FALSE, !.got = <<>>] IN
    IF k.k \in {"err", "wild"} THEN Fail(a0, k)
    ELSE IF IsP(k, "(")  \* parentheses around a test: not in RFC 5228
    THEN LET r == Test(t, Opn(a, TRUE), d, X) IN
         IF r.st # "ok" \/ ~IsP(t[r.i], ")") THEN [r EXCEPT !.st = "wild"] ELSE Adv(r, 1)
    ELSE IF k.k = "tag" THEN (IF UseCap("ihave", X) = {} THEN [a EXCEPT !.st = "wild"] ELSE Syn(a0))
    ELSE IF k.k # "id" THEN Syn(a0)
    ELSE CASE k.w = "not" -> IF t[a.i].k = "id" THEN Test(t, a, d, X)
                             ELSE IF IsP(t[a.i], "(") THEN [a EXCEPT !.st = "wild"] ELSE Fail(a, t[a.i])
      [] k.w \in {"anyof", "allof"} ->
            LET b == Bad(a, IF d >= X.o.maxtests THEN {"TooManyNestedTests"} ELSE {}) IN
            IF IsP(t[b.i], "(") THEN TestList(t, Adv(b, 1), d + 1, X) ELSE Fail(b, t[b.i])
      [] k.w \in {"true", "false"} -> a
      [] k.w = "size" -> IF t[a.i].k = "tag" /\ t[a.i].w \in {"over", "under"} THEN Arg(t, Adv(a, 1), "num", X) ELSE Fail(a, t[a.i])
      [] k.w = "specialuse_exists" -> OneOrTwo(t, Bad(a, UseCap("special-use", X)), "strs", <<"str", "strs">>, X)
      [] k.w = "hasflag" ->
            LET b == Params(t, Bad(a, UseCap("imap4flags", X)), MatchTags @@ ("local" :> T("", "*", <<>>)), <<>>, 1, {}, X) IN
            IF b.st # "ok" THEN b ELSE FlagVars(t, b, X, "local" \in b.tags)
      [] k.w \in DOMAIN TestTab -> Table(t, a, TestTab[k.w], X)
      [] OTHER -> IF UseCap("ihave", X) # {} THEN Syn(a0)
                  ELSE LET j == SkipTest(t, a.i, 0) IN
                       IF t[j].k \in {"err", "wild"} THEN Fail([a EXCEPT !.i = j], t[j]) ELSE [a EXCEPT !.i = j]

------------------------------------------------------------------------------
(* The walk *)
Block(ty, lab, ln) == [ty |-> ty, label |-> lab, ln |-> ln, caps |-> {}, vars |-> {}]
C0 == [i |-> 1, stk |-> <<Block("top", <<>>, 1)>>, vnum |-> 0, vmax |-> 0, vloc |-> 0, glob |-> {}, incs |-> 0, last |-> "", v |-> "run"]

Seen(s, o) == [caps |-> UNION {s.stk[i].caps : i \in 1..Len(s.stk)},
               names |-> s.glob \cup UNION {s.stk[i].vars : i \in 1..Len(s.stk)}, o |-> o]
RegVar(s, r) ==
    LET known == r.n \in s.glob \/ \E i \in 1..Len(s.stk) : r.n \in s.stk[i].vars IN
    IF known THEN s
    ELSE IF r.l /\ Len(s.stk) > 1 THEN [s EXCEPT !.stk[1].vars = @ \cup {r.n}, !.vloc = @ + 1]
    ELSE [s EXCEPT !.stk[Len(s.stk)].vars = @ \cup {r.n}, !.vnum = @ + 1]
Loops == {"foreverypart", "while"}
HasBlock(s, S) == \E i \in 1..Len(s.stk) : s.stk[i].ty \in S

\* what a command that starts at s.i does: a (parse state), n (next state if it is accepted)
Out(a, n) == [a |-> a, n |-> n]
End(t, a, s) == IF a.st # "ok" THEN Out(a, s)
                ELSE IF IsP(t[a.i], ";") THEN Out(Adv(a, 1), FoldSeq(RegVar, s, a.regs))
                ELSE Out(Fail(a, t[a.i]), s)
Open(t, a, s, ty, lab, o) ==
    IF a.st # "ok" THEN Out(a, s)
    ELSE IF IsP(t[a.i], "{")
    THEN Out(Bad(Adv(a, 1), IF Len(s.stk) - 1 >= o.maxblocks THEN {"TooManyNestedBlocks"} ELSE {}),
             LET n == FoldSeq(RegVar, s, a.regs) IN [n EXCEPT !.stk = Append(@, Block(ty, lab, t[s.i].ln)), !.last = ""])
    ELSE Out(Fail(a, t[a.i]), s)
Unknown(t, a, s, X) ==
    IF UseCap("ihave", X) # {} THEN Out(Syn(a), s)
    ELSE LET j == SkipCmd(t, a.i, 0) IN
         IF j < 0 THEN Out(Fail([a EXCEPT !.i = 0 - j], t[0 - j]), s) ELSE Out([a EXCEPT !.i = j], s)
Caps(ks) == {StrOf(ks[i].b) : i \in 1..Len(ks)}

Close(t, s) ==
    LET b == Last(s.stk)
        nx == t[s.i + 1]
        follows == nx.k = "id" /\ nx.w \in {"elsif", "else"}
        n == [s EXCEPT !.stk = Front(@), !.vmax = Max(@, s.vnum), !.vnum = @ - Cardinality(b.vars),
                       !.last = IF b.ty \in {"if", "elsif"} /\ follows THEN b.ty ELSE ""]
    IN Out(A0(s.i + 1), n)

Command(t, s, o) ==
    LET k == t[s.i]
        X == Seen(s, o)
        a == A0(s.i + 1)
        cap(c) == Bad(a, UseCap(c, X))
        lab == t[a.i].k = "tag" /\ t[a.i].w = "name"
        label == Arg(t, Adv(a, 1), "const", X)
    IN
    IF k.k \in {"err", "wild"} THEN Out(Fail(A0(s.i), k), s)
    ELSE IF IsP(k, "}") /\ Len(s.stk) > 1 THEN Close(t, s)
    ELSE IF k.k = "tag" THEN Out(IF UseCap("ihave", X) = {} THEN [a EXCEPT !.st = "wild"] ELSE Syn(a), s)
    ELSE IF k.k # "id" THEN Out(Syn(a), s)
    ELSE CASE k.w = "require" ->
              LET b == Arg(t, a, "consts", X)
                  cs == Caps(b.got)
                  e == End(t, b, s)
              IN [e EXCEPT !.n.stk[Len(s.stk)].caps = @ \cup cs \cup (IF "spamtestplus" \in cs THEN {"spamtest"} ELSE {})]
         [] k.w = "if" -> Open(t, Test(t, a, 0, X), s, "if", <<>>, o)
         [] k.w = "elsif" -> IF s.last \in {"if", "elsif"} THEN Open(t, Test(t, a, 0, X), s, "elsif", <<>>, o) ELSE Out(Syn(a), s)
         [] k.w = "else" -> IF s.last \in {"if", "elsif"} THEN Open(t, a, s, "else", <<>>, o) ELSE Out(Syn(a), s)
         [] k.w = "while" -> Open(t, Arg(t, cap("vnd.stalwart.while"), "expr", X), s, "while", <<>>, o)
         [] k.w = "foreverypart" ->
              LET b == Bad(cap("foreverypart"), IF Cardinality({i \in 1..(Len(s.stk) - 1) : s.stk[i].ty = "foreverypart"}) >= o.maxparts
                                               THEN {"TooManyNestedForEveryParts"} ELSE {})
                  l == Arg(t, Adv(b, 1), "const", X)
                  lb == <<1>> \o l.got[1].b
                  used == \E i \in 1..Len(s.stk) : s.stk[i].label = lb
              IN IF ~lab THEN Open(t, b, s, "foreverypart", <<>>, o)
                 ELSE IF l.st # "ok" THEN Out(l, s)
                 ELSE Open(t, Bad(l, IF used THEN {"LabelAlreadyDefined"} ELSE {}), s, "foreverypart", lb, o)
         [] k.w = "break" ->
              IF lab THEN LET l == Arg(t, Adv(cap("foreverypart"), 1), "const", X) IN
                          IF l.st # "ok" THEN Out(l, s)
                          ELSE End(t, Bad(l, IF \E i \in 1..Len(s.stk) : s.stk[i].ty = "foreverypart" /\ s.stk[i].label = <<1>> \o l.got[1].b
                                             THEN {} ELSE {"LabelUndefined"}), s)
              ELSE End(t, Bad(a, IF HasBlock(s, Loops) THEN {} ELSE {"BreakOutsideLoop"}), s)
         [] k.w = "continue" -> End(t, Bad(cap("vnd.stalwart.while"), IF HasBlock(s, {"while"}) THEN {} ELSE {"ContinueOutsideLoop"}), s)
         [] k.w = "keep" ->
              IF t[a.i].k = "tag" /\ t[a.i].w = "flags" THEN End(t, Arg(t, Adv(cap("imap4flags"), 1), "strs", X), s) ELSE End(t, a, s)
         [] k.w \in {"setflag", "addflag", "removeflag"} ->
              LET b == cap("imap4flags")
                  f == t[a.i]
                  g == t[a.i + 1]
              IN IF f.k = "str" /\ (g.k = "str" \/ IsP(g, "["))
                 THEN IF f.v THEN Out(Syn(b), s) ELSE End(t, Args(t, b, <<"var", "strs">>, X), s)
                 ELSE End(t, Arg(t, b, "strs", X), s)
         [] k.w = "deleteheader" ->
              LET b == Params(t, cap("editheader"), MatchTags @@ ("index" :> T("", "", <<"num16">>)) @@ ("last" :> T("", "", <<>>)) @@ MimeTags, <<"hname">>, 1, {}, X)
                  m == IF b.st = "ok" /\ "anychild" \in b.tags /\ "mime" \notin b.tags THEN Bad(b, {"MissingTag"}) ELSE b
              IN IF m.st = "ok" /\ (t[m.i].k = "str" \/ IsP(t[m.i], "[")) THEN End(t, Arg(t, m, "keys", X), s) ELSE End(t, m, s)
         [] k.w = "global" ->
              LET b == Arg(t, Bad(cap("include"), UseCap("variables", X)), "consts", X)
                  ns == {LowStr(b.got[i].b) : i \in 1..Len(b.got)}
                  long == \E i \in 1..Len(b.got) : Len(b.got[i].b) >= o.maxname
                  local == \E n \in ns, i \in 1..Len(s.stk) : n \in s.stk[i].vars
                  e == End(t, Bad(b, (IF long THEN {"VariableTooLong"} ELSE {}) \cup (IF local THEN {"VariableIsLocal"} ELSE {})), s)
              IN [e EXCEPT !.n.glob = @ \cup ns]
         [] k.w = "include" ->
              LET e == End(t, Table(t, Bad(a, IF s.incs >= o.maxincs THEN {"TooManyIncludes"} ELSE {}), CmdTab.include, X), s) IN
              [e EXCEPT !.n.incs = @ + 1]
         [] k.w \in DOMAIN CmdTab -> LET d == CmdTab[k.w] IN
              IF d.p = <<>> THEN End(t, cap(d.c), s) ELSE End(t, Table(t, a, d, X), s)
         [] OTHER -> Unknown(t, a, s, X)

------------------------------------------------------------------------------
(* Verdicts: [ok], or rejected for one of the kinds ks ({} stands for any)  *)
(* at a line between lo and hi; [any] when everything is allowed.           *)
Acc == [v |-> "acc", ks |-> {}, lo |-> 0, hi |-> 0]
Rej(ks, lo, hi) == [v |-> "rej", ks |-> ks, lo |-> lo, hi |-> hi]
Clean(n) == [v |-> "clean", ks |-> {}, lo |-> 1, hi |-> n]
AnyV == [v |-> "any", ks |-> {}, lo |-> 0, hi |-> 0]

\* possible results of the command at s.i: states [..] to go on from, or verdicts
Results(t, s, o) ==
    LET k == t[s.i] IN
    IF k.k = "eof"
    THEN LET b == Last(s.stk)
             n == Max(s.vmax, s.vnum) + s.vloc IN
         IF Len(s.stk) > 1 THEN {Rej({"UnterminatedBlock"}, b.ln, k.ln)}
         ELSE IF n > Min(o.maxlocal, MaxLocal) THEN {Rej({"TooManyVariables"}, 1, k.ln)}
         ELSE {Acc}
    ELSE LET c == Command(t, s, o)
             a == c.a
             hi == t[Min(a.i + 1, Len(t))].ln
             go == [c.n EXCEPT !.i = a.i]
         IN CASE a.st = "wild" -> {AnyV}
              [] a.st = "syn" -> {Rej({}, k.ln, hi)}
              [] a.st = "err" -> {Rej(a.rs, k.ln, hi)}
              [] a.rs # {} -> {Rej(IF a.op THEN {} ELSE a.rs, k.ln, hi)}
              [] a.op -> {Rej({}, k.ln, hi), go}
              [] OTHER -> {go}
Allows(v, r) ==
    CASE v.v = "any" -> TRUE
      [] v.v = "clean" -> r.ok \/ r.line \in v.lo..v.hi
      [] v.v = "acc" -> r.ok
      [] OTHER -> ~r.ok /\ (v.ks = {} \/ r.kind \in v.ks) /\ r.line \in v.lo..v.hi
==============================================================================
