----------------------------- MODULE SieveProps -----------------------------
(***************************************************************************)
(* The listed properties as invariants of the specification, over the state *)
(* of the machine (st) and a history (h) of what it has told the host.      *)
(*   fin    final dispositions told to the host, in order                   *)
(*   gone   the message was rejected, filed or sent on                      *)
(*   mids   message versions announced     last  the last one               *)
(*   aux    replies and notices among them                                  *)
(*   sends  outgoing messages              bad   names of broken properties *)
(*   calls  stack of [acts, part, pstk] saved when a script was included    *)
(*   asked  the question the host has been asked and not yet answered       *)
(*   over   the host was told that the execution ended                      *)
(*   err    run-time errors told to the host                                *)
(***************************************************************************)
EXTENDS Sieve

H0 == [fin |-> <<>>, gone |-> FALSE, mids |-> {}, aux |-> {}, last |-> 0, sends |-> 0, notes |-> 0, bad |-> {},
       calls |-> <<>>, asked |-> <<>>, over |-> FALSE, err |-> <<>>]
Bad(h, c, name) == IF c THEN h ELSE [h EXCEPT !.bad = @ \cup {name}]

Questions == {"mailboxexists", "list", "duplicate", "function", "include"}
Delivers == {"keep", "fileinto", "send"}

\* a script was included: remember the caller
Called(h, st) == [h EXCEPT !.calls = Append(@, [acts |-> Front(st.acts), part |-> st.part, pstk |-> st.pstk, re |-> FALSE])]
\* the host hands in x in state st
HIn(h0, st, x) ==
    LET h == IF x.k = "incscript" THEN Called(h0, Feed(st, x)) ELSE h0
        answered == x.k \in {"answer", "fnc", "incscript", "noscript"}
        h1 == Bad(h, answered = (h.asked # <<>>), "P18")       \* only questions are answered
    IN [h1 EXCEPT !.asked = <<>>]

\* header fields of part p that are not called n
Others(st, p, n) == SelectSeq(st.msg[p].h, LAMBDA x : x.n # n)
SameBodies(a, b) == /\ Len(a.msg) = Len(b.msg)
                    /\ \A p \in 1..Len(a.msg) : [a.msg[p] EXCEPT !.h = <<>>] = [b.msg[p] EXCEPT !.h = <<>>]
CmdAt(a) == \* the command about to run, or <<>>
    IF a.q # <<>> \/ a.acts = <<>> THEN <<>>
    ELSE LET f == FrameOf(a) cs == Sc(a).blocks[f.b].c IN IF f.i > Len(cs) THEN <<>> ELSE <<cs[f.i]>>
EditOk(a, b, c) == \* addheader / deleteheader from state a to state b
    LET e == [st |-> a, b |-> Blk(a), id |-> c.id]
        n == Lower(IF c.c = "addheader" THEN HName(Txts(e, c.n)) ELSE Txts(e, c.n))
        d == IF c.c = "addheader" THEN 1 ELSE -1
    IN /\ SameBodies(a, b)
       /\ \A p \in 1..Len(a.msg) : Others(a, p, n) = Others(b, p, n)
       /\ Protected(a, n) => b.msg = a.msg
       /\ \A p \in 1..Len(a.msg) :
            LET x == SelectSeq(a.msg[p].h, LAMBDA f : f.n = n) y == SelectSeq(b.msg[p].h, LAMBDA f : f.n = n) IN
            IF c.c = "addheader" THEN Len(y) \in {Len(x), Len(x) + (IF p = a.part + 1 THEN 1 ELSE 0)}
            ELSE Len(y) <= Len(x) /\ \A i \in 1..Len(y) : \E j \in i..Len(x) : y[i] = x[j]

\* replace: the part the script is at is rewritten, its descendants go, the rest stays
Bare(p) == [p EXCEPT !.ch = <<>>]
ReplaceOk(a, b) ==
    LET gone == Range(Desc(a.msg, a.part))
        left == SelectSeq([i \in 1..Len(a.msg) |-> i - 1], LAMBDA i : i \notin gone)
        lasting(p) == SelectSeq(p.h, LAMBDA x : x.n \in {"to", "cc", "bcc", "received", "date"} /\ x.raw # "Date: " \o GenDate \o "\r\n")
    IN /\ Len(b.msg) = Len(left)
       /\ \A i \in 1..Len(left) : left[i] = a.part \/ Bare(b.msg[i]) = Bare(a.msg[left[i] + 1])
       /\ a.part = 0 => lasting(a.msg[1]) = lasting(b.msg[1])
       /\ b.part < Len(b.msg)
\* enclose: the message so far travels inside, unchanged
EncloseOk(a, b) == Len(b.msg) = 3 /\ b.msg[3].msg = a.msg
\* convert: the shape of the message stays, and so does everything but texts; a text part that changes has its type told anew, and the
\* message keeps the fields that do not describe its content
ConvertOk(a, b) ==
    /\ Len(a.msg) = Len(b.msg) /\ <<a.part, a.pit, a.pstk>> = <<b.part, b.pit, b.pstk>>
    /\ \A i \in 1..Len(a.msg) : LET p == a.msg[i] q == b.msg[i] IN
          \/ p = q
          \/ /\ p.k \in {"text", "html"} /\ q.k \in {"text", "html"} /\ p.ch = q.ch /\ q.nw
             /\ Last(q.h).n = "content-type" /\ Last(q.h).v = (IF q.k = "html" THEN "text/html" ELSE "text/plain") \o "; charset=utf8"
             /\ Front(q.h) = IF i > 1 THEN <<>> ELSE SelectSeq(p.h, LAMBDA x : ~StartsWith(x.n, "content-"))
\* commands that answer or inform leave the message and its disposition alone
Aside(a, b) == Len(b.acts) = Len(a.acts) =>
    b.fin = a.fin /\ b.msg = a.msg /\ b.mid = a.mid /\ b.chg = a.chg /\ b.nred = a.nred /\ b.nout \in {a.nout, a.nout + 1}
\* a field the interpreter wrote is one line
OneLine(raw) == LET n == Len(raw) IN
    n > 2 /\ SubSeq(raw, n - 1, n) = "\r\n" /\ \A i \in 1..(n - 2) : SubSeq(raw, i, i) \notin {"\r", "\n"}
FieldsOk(m) == \A p \in 1..Len(m) : \A i \in 1..Len(m[p].h) : m[p].h[i].old \/ OneLine(m[p].h[i].raw)
\* the header of a created message consists of fields: no stray line ends, no line without a name
HeadLines(s) == LET l == SplitOn(s, "\n") i == FirstIdx(l, LAMBDA x : x \in {"", "\r"}) IN IF i = 0 THEN l ELSE SubSeq(l, 1, i - 1)
HeadOk(s) == LET l == HeadLines(s) IN \A i \in 1..Len(l) :
    /\ EndsWith(l[i], "\r") /\ ~Contains(Upto(l[i], Len(l[i]) - 1), "\r")
    /\ Ch(l[i], 1) \in {" ", "\t"} \/ (LET c == IndexFrom(l[i], ":", 1) IN c > 1 /\ \A j \in 1..(c - 1) : Ch(l[i], j) \in Alnum \cup {"-", "_"})

\* a machine step from a to b
HStep(h, a, b) ==
    LET c == CmdAt(a)
        is(k) == c # <<>> /\ c[1].c = k
        h1 == Bad(h, (is("addheader") \/ is("deleteheader")) => EditOk(a, b, c[1]), "P10")
        \* only commands that edit the message change it
        h2 == Bad(h1, b.msg # a.msg => c # <<>> /\ c[1].c \in {"addheader", "deleteheader", "replace", "enclose", "convert", "if"}, "P10")
        \* an included script starts with nothing of its own and leaves the caller alone
        in == Len(b.acts) > Len(a.acts)  out == Len(b.acts) < Len(a.acts) /\ b.acts # <<>>
        h3 == IF in /\ a.acts # <<>> THEN Called(h2, b) ELSE h2
        h4 == IF out /\ h3.calls # <<>>
              THEN [Bad(h3, b.acts = Last(h3.calls).acts /\ (Last(h3.calls).re \/ <<b.part, b.pstk>> = <<Last(h3.calls).part, Last(h3.calls).pstk>>), "P04")
                      EXCEPT !.calls = Front(@)]
              ELSE h3
        \* answers do not outlive the command that asked
        h5 == Bad(h4, a.ans # <<>> /\ b.ph = "run" => b.ans = <<>>, "P18")
        \* counters only grow
        h6 == Bad(h5, b.lo >= a.lo /\ b.nred >= a.nred /\ b.nout >= a.nout /\ b.lmid >= a.lmid, "P02")
        h7 == Bad(h6, is("replace") /\ b.msg # a.msg => ReplaceOk(a, b), "P12")
        h8 == Bad(h7, is("enclose") /\ b.msg # a.msg => EncloseOk(a, b), "P12")
        h8c == Bad(h8, (is("convert") \/ is("if")) /\ b.msg # a.msg => ConvertOk(a, b), "P12")
        \* parts are numbered anew
        h8a == IF (is("replace") \/ is("enclose")) /\ b.msg # a.msg THEN [h8c EXCEPT !.calls = [i \in DOMAIN @ |-> [@[i] EXCEPT !.re = TRUE]]] ELSE h8c
        h9 == Bad(h8a, is("vacation") => Aside(a, b), "P14")
        h10 == Bad(h9, is("notify") => Aside(a, b), "P15")
        h11 == Bad(h10, b.msg # a.msg => FieldsOk(b.msg), "P24")
    IN h11
\* a machine step from a to b that tells the host o
HOut(h0, a, b, o) ==
    LET h == IF CmdAt(a) # <<>> \/ a.q = <<>> THEN HStep(h0, a, b) ELSE h0
        k == o.k
        h1 == Bad(h, ~h.over, "P02")
        h2 == Bad(h1, h1.fin = <<>> \/ k = "end", "P01")     \* nothing follows the final disposition
        h3 == IF k \in Delivers THEN Bad(h2, o.mid = 0 \/ o.mid \in h2.mids, "P09") ELSE h2
        h4 == IF k \in Delivers THEN Bad(h3, o.mid = h3.last \/ (k # "keep" /\ o.mid \in h3.aux), "P09") ELSE h3
        reply == k = "created" /\ CmdAt(a) # <<>> /\ CmdAt(a)[1].c \in {"notify", "vacation"}
        h4a == Bad(h4, reply /\ (CmdAt(a)[1].c = "vacation" => ~CmdAt(a)[1].mime) => HeadOk(o.msg), "P24")
        h5 == IF k = "created" THEN [Bad(h4a, \A m \in h4.mids : o.mid > m, "P09") EXCEPT !.mids = @ \cup {o.mid}, !.last = IF reply THEN @ ELSE o.mid,
                                                                             !.aux = IF reply THEN @ \cup {o.mid} ELSE @]
              ELSE h4a
        h6 == CASE k \in {"keep", "discard"} -> [h5 EXCEPT !.fin = Append(@, k)]
                [] k \in {"fileinto", "reject"} -> [h5 EXCEPT !.gone = TRUE]
                [] k = "send" -> [h5 EXCEPT !.gone = TRUE, !.sends = @ + 1]
                [] k \in Questions -> [Bad(h5, h5.asked = <<>>, "P18") EXCEPT !.asked = <<o>>]
                [] k = "error" -> [h5 EXCEPT !.err = Append(@, o.e)]
                [] k = "end" -> [Bad(h5, h5.fin # <<>> \/ h5.gone, "P01") EXCEPT !.over = TRUE]
                [] OTHER -> h5
    IN h6

------------------------------------------------------------------------------
InvP01(st, h) == Len(h.fin) <= 1
InvP02(st, h) == st.lo <= Rt(st).cpu
InvP04(st, h) == Len(st.acts) <= Rt(st).maxinc \/ Len(st.acts) <= 1
\* a variable exists only while the block it belongs to runs
InvP05(st, h) ==
    \A a \in 1..Len(st.acts) :
        \A s \in DOMAIN st.acts[a].lv :
            \/ Dev("leave")
            \/ \E f \in 1..Len(st.acts[a].ctl) : \E r \in StatOf(st.ci, st.acts[a].s).regs :
                  s = Slot(r.n, r.b) /\ st.acts[a].ctl[f].b = r.b
InvP06(st, h) == \* captures exist only where some match test of an enclosing block records them
    \A a \in 1..Len(st.acts) : (~Dev("leave") /\ ~Dev("nearest")) =>
        \A n \in DOMAIN st.acts[a].mv :
            \E f \in 1..Len(st.acts[a].ctl) : n \in Get(StatOf(st.ci, st.acts[a].s).clear, st.acts[a].ctl[f].b, {})
InvP09(st, h) == st.mid \in {0} \cup (1..st.lmid)
InvP11(st, h) ==
    LET n == FoldSeq(LAMBDA acc, x : acc + Cardinality({i \in 1..Len(x.ctl) : x.ctl[i].k = "fep"}), 0, st.acts)
    IN /\ st.part \in 0..(Len(st.msg) - 1)
       /\ st.acts # <<>> => Len(st.pstk) >= n         \* one saved position per running loop
       /\ st.acts = <<>> /\ h.err = <<>> => TRUE
InvP13(st, h) == st.nred <= Rt(st).maxred /\ st.nred <= st.nout
InvP16(st, h) ==
    \* (a flag variable cut at the size limit may end in the stump of a flag)
    LET f == GlobFlags(st) IN VLen(GvOf(st, "__flags")) >= Rt(st).maxvar - 3 \/ \A i, j \in 1..Len(f) : i # j => ~EqNC(f[i], f[j])
InvP20(st, h) ==
    /\ h.sends <= Rt(st).maxout
    /\ \A n \in DOMAIN st.glob : VLen(st.glob[n]) <= Max(Rt(st).maxvar, 64)
    /\ \A a \in 1..Len(st.acts) : \A s \in DOMAIN st.acts[a].lv : VLen(st.acts[a].lv[s]) <= Max(Rt(st).maxvar, 64)
Broken(st, h) ==
    h.bad \cup {p \in {"P01", "P02", "P04", "P05", "P06", "P09", "P11", "P13", "P16", "P20"} :
        ~ CASE p = "P01" -> InvP01(st, h) [] p = "P02" -> InvP02(st, h) [] p = "P04" -> InvP04(st, h)
            [] p = "P05" -> InvP05(st, h) [] p = "P06" -> InvP06(st, h) [] p = "P09" -> InvP09(st, h)
            [] p = "P11" -> InvP11(st, h) [] p = "P13" -> InvP13(st, h) [] p = "P16" -> InvP16(st, h)
            [] p = "P20" -> InvP20(st, h)}
=============================================================================
