--------------------------------- MODULE Uri ---------------------------------
(***************************************************************************)
(* Notification methods: URIs "scheme:rest", and what a mailto URI says.    *)
(*                                                                          *)
(*   mailto:addr,addr?name=value&name=value                                 *)
(*                                                                          *)
(* %xx stands for a character.  The parameters to, cc and bcc add           *)
(* recipients, body is the text of the message, others are header fields.   *)
(* An address needs an "@".  Repeated recipients are dropped.               *)
(***************************************************************************)
EXTENDS Util

Hex == "0123456789abcdef"
HexVal(c) == LET l == LowC(c) IN IF \E i \in 1..16 : Ch(Hex, i) = l THEN (CHOOSE i \in 1..16 : Ch(Hex, i) = l) - 1 ELSE 0 - 1
CharOf(n) == CASE n = 9 -> "\t" [] n = 10 -> "\n" [] n = 13 -> "\r" [] n >= 32 /\ n < 127 -> Ch(Ascii, n - 31) [] OTHER -> "?"

\* names of header fields as they are written in messages
CanonTab == TLCEval(LET ns == <<"Subject", "From", "To", "Cc", "Date", "Bcc", "Reply-To", "Sender", "Comments", "In-Reply-To", "Keywords",
    "Received", "Message-ID", "References", "Return-Path", "MIME-Version", "Content-Description", "Content-ID", "Content-Language",
    "Content-Location", "Content-Transfer-Encoding", "Content-Type", "Content-Disposition", "Resent-To", "Resent-From", "Resent-Bcc",
    "Resent-Cc", "Resent-Sender", "Resent-Date", "Resent-Message-ID", "List-Archive", "List-Help", "List-ID", "List-Owner", "List-Post",
    "List-Subscribe", "List-Unsubscribe">> IN
    [n \in {Lower(ns[i]) : i \in 1..Len(ns)} |-> ns[CHOOSE i \in 1..Len(ns) : Lower(ns[i]) = n]])
Canon(n) == IF Lower(n) \in DOMAIN CanonTab THEN CanonTab[Lower(n)] ELSE n
NameChar == Alnum \cup {"-", "_"}
IsHName(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in NameChar

\* scheme and rest: <<>> or <<[s, r]>>
UriSplit(u) ==
    LET i == IndexFrom(u, ":", 1) IN
    IF i = 0 \/ i = Len(u) THEN <<>> ELSE <<[s |-> Upto(u, i - 1), r |-> From(u, i + 1)]>>

\* the characters of a URI with escapes resolved: sequence of [c, esc]; <<[bad]>> if malformed
RECURSIVE Toks(_, _, _)
Toks(s, i, acc) ==
    IF i > Len(s) THEN [ok |-> TRUE, t |-> acc]
    ELSE IF Ch(s, i) # "%" THEN Toks(s, i + 1, Append(acc, [c |-> Ch(s, i), esc |-> FALSE]))
    ELSE IF i + 2 > Len(s) THEN [ok |-> FALSE, t |-> <<>>]
    ELSE LET a == HexVal(Ch(s, i + 1)) b == HexVal(Ch(s, i + 2)) IN
         IF a < 0 \/ b < 0 THEN [ok |-> FALSE, t |-> <<>>]
         ELSE Toks(s, i + 3, Append(acc, [c |-> CharOf(16 * a + b), esc |-> TRUE]))

\* the pieces of a token list between the unescaped occurrences of the characters in set
RECURSIVE Pieces(_, _, _)
Pieces(t, set, acc) == \* acc: pieces so far, the last one open
    IF t = <<>> THEN acc
    ELSE IF t[1].c \in set /\ ~t[1].esc THEN Pieces(Tail(t), set, Append(acc, <<>>))
    ELSE Pieces(Tail(t), set, [acc EXCEPT ![Len(acc)] = Append(@, t[1])])
RECURSIVE SplitFirst(_, _, _)
SplitFirst(t, c, acc) == \* <<before>> or <<before, after>> the first unescaped c
    IF t = <<>> THEN <<acc>>
    ELSE IF t[1].c = c /\ ~t[1].esc THEN <<acc, Tail(t)>>
    ELSE SplitFirst(Tail(t), c, Append(acc, t[1]))
TextOf(t) == JoinChars([i \in 1..Len(t) |-> t[i].c])
NoWs(t) == SelectSeq(t, LAMBDA x : x.esc \/ x.c \notin WS)

\* address lists: commas, escaped or not, separate addresses
RECURSIVE AddrPieces(_, _)
AddrPieces(t, acc) ==
    IF t = <<>> THEN acc
    ELSE IF t[1].c = "," THEN AddrPieces(Tail(t), Append(acc, <<>>))
    ELSE AddrPieces(Tail(t), [acc EXCEPT ![Len(acc)] = Append(@, t[1])])
Ats(p) == Cardinality({i \in 1..Len(p) : p[i].c = "@"})
GoodAddr(p) == Ats(p) = 1 /\ (p[1].c = "@" => p[1].esc) /\ \A i \in 1..Len(p) : p[i].c \notin {"=", "&", "?"} \/ p[i].esc
\* [ok, l]; a list may end with a comma
AddrsOf(t0) ==
    LET t == NoWs(t0)
        p0 == AddrPieces(t, <<<<>>>>)
        p == IF Len(p0) > 1 /\ Last(p0) = <<>> THEN Front(p0) ELSE p0
    IN IF t = <<>> THEN [ok |-> FALSE, l |-> <<>>]
       ELSE IF \A i \in 1..Len(p) : GoodAddr(p[i]) THEN [ok |-> TRUE, l |-> [i \in 1..Len(p) |-> TextOf(p[i])]]
       ELSE [ok |-> FALSE, l |-> <<>>]

AddRcpt(r, f, a) == \* r: [to, cc, bcc]
    LET all == r.to \o r.cc \o r.bcc IN
    IF \E i \in 1..Len(all) : EqNC(all[i], a) THEN r
    ELSE CASE f = "To" -> [r EXCEPT !.to = Append(@, a)] [] f = "Cc" -> [r EXCEPT !.cc = Append(@, a)] [] OTHER -> [r EXCEPT !.bcc = Append(@, a)]
AddRcpts(r, f, as) == FoldSeq(LAMBDA acc, a : AddRcpt(acc, f, a), r, as)

\* one parameter: r with it applied, or r with bad set
MailParam(r, p, last) ==
    LET nv == SplitFirst(p, "=", <<>>)
        nm == TextOf(nv[1])
        cn == Canon(nm)
        badname == nm = "" \/ (\E i \in 1..Len(nv[1]) : ~nv[1][i].esc /\ nv[1][i].c \notin NameChar \cup {"@"})
        v == IF Len(nv) = 1 THEN <<>> ELSE NoWs(nv[2])
    IN IF Len(nv) = 1
       THEN IF last /\ ~badname THEN [r EXCEPT !.h = Append(@, [n |-> nm, v |-> ""])]
            ELSE IF last /\ nm = "" THEN r ELSE [r EXCEPT !.bad = TRUE]
       ELSE IF badname THEN [r EXCEPT !.bad = TRUE]
       ELSE IF cn \in {"To", "Cc", "Bcc"}
       THEN LET a == AddrsOf(nv[2]) IN
            IF nv[2] = <<>> /\ last THEN r
            ELSE IF ~a.ok THEN [r EXCEPT !.bad = TRUE]
            ELSE [AddRcpts(r, cn, a.l) EXCEPT !.any = TRUE]
       ELSE IF v = <<>> THEN r
       ELSE IF EqNC(nm, "body") THEN [r EXCEPT !.body = <<TextOf(v)>>]
       ELSE [r EXCEPT !.h = Append(@, [n |-> cn, v |-> TextOf(v)])]

\* <<>>, or <<[to, cc, bcc, h (fields), body (<<>> or <<text>>)]>>
Mailto(s) ==
    LET tk == Toks(s, 1, <<>>)
        q == SplitFirst(tk.t, "?", <<>>)
        a == AddrsOf(q[1])
        r0 == [to |-> <<>>, cc |-> <<>>, bcc |-> <<>>, h |-> <<>>, body |-> <<>>, bad |-> FALSE, any |-> FALSE]
        r1 == IF NoWs(q[1]) = <<>> THEN r0
              ELSE IF a.ok THEN [AddRcpts(r0, "To", a.l) EXCEPT !.any = TRUE] ELSE [r0 EXCEPT !.bad = TRUE]
        ps == IF Len(q) = 1 THEN <<>> ELSE Pieces(q[2], {"&"}, <<<<>>>>)
        r2 == FoldSeq(LAMBDA acc, i : MailParam(acc, ps[i], i = Len(ps)), r1, [i \in 1..Len(ps) |-> i])
    IN IF ~tk.ok \/ r2.bad \/ ~r2.any THEN <<>> ELSE <<r2>>

ValidUri(u) ==
    LET x == UriSplit(u) IN
    x # <<>> /\ (IF EqNC(x[1].s, "mailto") THEN Mailto(x[1].r) # <<>> ELSE x[1].s \in {"xmpp", "tel", "http", "https"})
==============================================================================
