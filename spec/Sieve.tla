-------------------------------- MODULE Sieve --------------------------------
(***************************************************************************)
(* The execution of Sieve scripts as a state machine that talks to a host.  *)
(*                                                                          *)
(* One execution ("context") runs a main script over one message.  The host *)
(* calls it repeatedly: every call hands in an input (the script, an        *)
(* acknowledgement, the answer to a question, an included script, the       *)
(* result of a function) and gets back one output (a disposition, a         *)
(* question, an error, or the end).  Between two calls the machine runs     *)
(* commands; each command is one step of this specification (Step).         *)
(*                                                                          *)
(* State of an execution:                                                   *)
(*   acts  activations (script being run, its control stack, its variables) *)
(*   glob  global variables     env  envelope        cache  included scripts *)
(*   fin   pending final disposition (<<>> or <<event>>)                    *)
(*   q     outputs still to be delivered before anything else runs          *)
(*   w     what the host is expected to hand in; wn: pending include        *)
(*   msg   the message; part / pit / pstk: position of foreverypart         *)
(*   mid   version of the message deliveries refer to; lmid: last id given  *)
(*   chg   the message was edited since version mid was produced            *)
(*   nred, nout   redirects / outgoing messages so far                      *)
(*   sz    size of the message as the size test sees it                     *)
(*   lo, hi  bounds of the number of instructions executed so far           *)
(*   ans   answers received for the condition being evaluated               *)
(*   now   the instant the execution started: [day, sec]                    *)
(***************************************************************************)
EXTENDS Lang, Dates, Expr, Uri

CONSTANTS CaseOf(_),   \* the case (scripts, message, configuration) of run i
          StatOf(_, _) \* static tables of script s of run i

------------------------------------------------------------------------------
Act(st) == Last(st.acts)
Ca(st) == CaseOf(st.ci)
Sc(st) == Ca(st).scripts[Act(st).s]
Stt(st) == StatOf(st.ci, Act(st).s)
Rt(st) == Ca(st).rt
Cx(st) == Ca(st).ctx
FrameOf(st) == Last(Act(st).ctl)
Blk(st) == FrameOf(st).b

PairGet(ps, n) == \* first pair with this name: <<value>> or <<>>
    LET i == FirstIdx(ps, LAMBDA p : p[1] = n) IN IF i = 0 THEN <<>> ELSE <<ps[i][2]>>

------------------------------------------------------------------------------
(* Values.  e = [st, b, id]: state, block and textual position. *)
LvOf(st, s) == Get(Act(st).lv, s, Nul)
GvOf(st, n) == Get(st.glob, n, Nul)
EnvOf(st, n) == \* envelope item
    LET x == PairGet(st.env, n) IN IF x = <<>> THEN Nul ELSE S(x[1])
EnviOf(st, n) == \* environment item
    LET x == PairGet(Cx(st).env, n) y == PairGet(Rt(st).env, n) IN
    IF x # <<>> THEN S(x[1]) ELSE IF y # <<>> THEN S(y[1]) ELSE Nul
VarAt(e, n) ==
    LET r == Resolve(Sc(e.st), Stt(e.st), e.b, e.id, n) IN
    CASE r.k = "g" -> GvOf(e.st, r.s) [] r.k = "l" -> LvOf(e.st, r.s) [] OTHER -> Nul
(* ${header.name[hi].part[pi]}: [names, hi, pi, part, attr].  An index of 0 *)
\* stands for all; no names stand for every field.
AfterColon(h) == From(h.raw, IndexFrom(h.raw, ":", 1) + 1)
RECURSIVE Squash(_, _, _, _)
Squash(s, i, sp, acc) == \* runs of white space become one blank, at the end nothing
    IF i > Len(s) THEN acc
    ELSE LET c == Ch(s, i) IN
         IF c \in {" ", "\t", "\r", "\n"} THEN Squash(s, i + 1, TRUE, acc)
         ELSE Squash(s, i + 1, FALSE, acc \o (IF sp THEN " " ELSE "") \o c)
PickVals(l, pi) == \* an item that is not there is empty
    IF pi = 0 THEN l
    ELSE LET k == HPick([i \in 1..Len(l) |-> i], pi) IN IF k = <<>> THEN <<Nul>> ELSE <<l[k[1]]>>
AddrShow(r) == S(IF r.nm # "" /\ r.a # "" THEN r.nm \o " <" \o r.a \o ">" ELSE IF r.a # "" THEN "<" \o r.a \o ">" ELSE r.nm)
AddrStrict(part, r) == IF part = "name" THEN S(r.nm)
                       ELSE LET x == IF r.a = "" THEN <<>> ELSE AddrPart(part, r.a) IN IF x = <<>> THEN Nul ELSE S(x[1])
CtText(c) == IF c.s = "" THEN c.t ELSE c.t \o "/" \o c.s
Stamp(d) == I(DayNum(d.y, d.mo, d.d) * 86400 + (d.h * 60 + d.mi - d.z) * 60 + d.s)
IdNames == {"message-id", "resent-message-id", "references", "in-reply-to"}
\* the text of a field: encoded words are decoded in the fields known to hold text
FieldText(h) == IF ~h.old \/ h.n \in DOMAIN CanonTab THEN h.v ELSE Trim(AfterColon(h))
AddrNames == {"from", "to", "cc", "bcc", "sender", "reply-to"}
HTexts(h, pi) == \* the text of a field
    IF ~h.old THEN PickVals(<<S(FieldText(h))>>, IF pi = 0 - 1 THEN 1 ELSE pi)
    ELSE IF Has(h, "ids") /\ h.n \in IdNames THEN PickVals([i \in 1..Len(h.ids) |-> S(h.ids[i])], pi)
    ELSE IF Has(h, "ct") THEN <<S(CtText(h.ct))>>
    ELSE IF Has(h, "ad") /\ h.n \in AddrNames THEN PickVals([i \in 1..Len(h.ad) |-> AddrShow(h.ad[i])], pi)
    ELSE IF Has(h, "dt") /\ h.n \in {"date", "resent-date"} THEN <<S(FieldText(h))>>
    ELSE PickVals(<<S(FieldText(h))>>, pi)
HPart(e, h, p) ==
    CASE p.part = "text" -> HTexts(h, p.pi)
      [] p.part = "raw" -> <<S(Squash(AfterColon(h), 1, FALSE, ""))>>
      [] p.part = "raw_name" -> <<S(h.rn)>>
      [] p.part = "exists" -> <<I(1)>>
      [] p.part = "date" -> LET d == HeaderDate(h, Ca(e.st).dates) IN IF d = <<>> THEN <<Nul>> ELSE <<Stamp(d[1])>>
      [] p.part = "id" -> IF Has(h, "ids") /\ h.n \notin {"references", "in-reply-to"} THEN [i \in 1..Len(h.ids) |-> S(h.ids[i])] ELSE <<Nul>>
      [] p.part \in {"type", "subtype", "attr"} ->
            IF ~(h.old /\ Has(h, "ct")) THEN <<Nul>>
            ELSE IF p.part = "type" THEN <<S(h.ct.t)>> ELSE IF p.part = "subtype" THEN <<S(h.ct.s)>>
            ELSE LET i == FirstIdx(h.ct.at, LAMBDA x : EqNC(x.n, p.attr)) IN <<IF i = 0 THEN Nul ELSE S(h.ct.at[i].v)>>
      [] OTHER -> LET l == AddrList(h) IN
                  IF l = <<>> THEN <<Nul>> ELSE PickVals([i \in 1..Len(l[1]) |-> AddrStrict(p.part, l[1][i])], p.pi)
LineText(h) == IF h.n \in IdNames /\ Has(h, "ids") /\ Len(h.ids) = 1 THEN h.ids[1] ELSE FieldText(h)
AllFields(e, hs, p) == FlattenSeq([i \in 1..Len(hs) |->
    CASE p.part = "raw" -> <<S(Squash(hs[i].raw, 1, FALSE, ""))>>
      [] p.part = "text" -> IF hs[i].v = "" /\ hs[i].old THEN <<>> ELSE <<S(Canon(hs[i].rn) \o ": " \o LineText(hs[i]))>>
      [] OTHER -> HPart(e, hs[i], p)])
HeaderVar(e, p) ==
    LET hs == e.st.msg[e.st.part + 1].h
        pk == HPick(SelectSeq([i \in 1..Len(hs) |-> i], LAMBDA i : hs[i].n \in Range(p.names)), p.hi)
        vs == IF p.names = <<>> THEN AllFields(e, hs, p)
              ELSE FlattenSeq([i \in 1..Len(pk) |-> HPart(e, hs[pk[i]], p)])
    IN IF Len(vs) = 1 /\ p.hi # 0 /\ p.pi # 0 THEN vs[1]
       ELSE IF vs = <<>> THEN Nul ELSE ArrV(vs)
(* ${body.*}, ${part.*} *)
HtmlEsc(s) == ReplaceAll(ReplaceAll(ReplaceAll(s, "\r", ""), "<", "&lt;"), "\n", "<br/>")
PartVar(e, p) ==
    LET ps == e.st.msg
        x == ps[e.st.part + 1]
        i == FirstIdx(ps, LAMBDA q : q.inl)
        b == ps[i]
    IN CASE p.v = "part.text" -> IF x.k \in {"text", "html"} THEN S(x.txt) ELSE IF x.k = "bin" THEN S(x.dec) ELSE Nul
         [] p.v = "part.raw" -> IF x.nw THEN Nul ELSE S(x.body)
         [] OTHER -> IF i = 0 THEN Nul
              ELSE CASE p.v = "body.text" -> IF b.k = "text" THEN S(b.txt) ELSE Nul
                     [] p.v = "body.to_text" -> IF b.k = "text" THEN S(b.txt) ELSE IF b.k = "html" THEN S(b.htxt) ELSE Nul
                     [] p.v = "body.html" -> IF b.k = "html" THEN S(b.txt) ELSE Nul
                     [] p.v = "body.to_html" ->
                          IF b.k = "html" THEN S(b.txt)
                          ELSE IF b.k = "text" THEN S("<html><body>" \o HtmlEsc(b.txt) \o "</body></html>") ELSE Nul
Piece(e, p) ==
    CASE p.k = "t" -> S(p.s)
      [] p.k = "i" -> I(p.n)
      [] p.k = "f" -> [t |-> "f", v |-> p.s]
      [] p.k = "v" -> VarAt(e, p.n)
      [] p.k = "g" -> GvOf(e.st, p.n)
      [] p.k = "m" -> IF p.id \in Stt(e.st).refs THEN S(Get(Act(e.st).mv, p.n, "")) ELSE Nul
      [] p.k = "e" -> EnvOf(e.st, p.n)
      [] p.k = "env" -> EnviOf(e.st, p.n)
      [] p.k = "h" -> HeaderVar(e, p)
      [] p.k = "part" -> PartVar(e, p)
      [] p.k = "rx" -> S(p.s)
\* references that name nothing leave no trace in a template
Real(e, p) == CASE p.k = "v" -> Resolve(Sc(e.st), Stt(e.st), e.b, e.id, p.n).k # "none"
                [] p.k = "m" -> p.id \in Stt(e.st).refs [] OTHER -> TRUE
Val(e, v0) == LET v == SelectSeq(v0, LAMBDA p : Real(e, p)) IN
              IF Len(v) = 1 THEN Piece(e, v[1])
              ELSE S(JoinChars([i \in 1..Len(v) |-> Str(Piece(e, v[i]))]))
Txts(e, v) == Str(Val(e, v))
Vals(e, vs) == [i \in 1..Len(vs) |-> Val(e, vs[i])]
Texts(e, vs) == [i \in 1..Len(vs) |-> Txts(e, vs[i])]
KeyVal(e, v) == IF Len(v) = 1 /\ v[1].k = "rx" THEN [t |-> "s", v |-> v[1].s, rx |-> v[1].ast, ng |-> v[1].ng]
                ELSE Val(e, v)
Keys(e, vs) == [i \in 1..Len(vs) |-> KeyVal(e, vs[i])]
OptTxt(e, o) == IF o = <<>> THEN <<>> ELSE <<Txts(e, o[1])>>
OptS(e, o, d) == IF o = <<>> THEN d ELSE Txts(e, o[1])

\* Assignment.  Text is cut to the configured size.
Fit(st, v) == IF VLen(v) > Rt(st).maxvar THEN S(CutTo(Str(v), Rt(st).maxvar)) ELSE v
SetLv(st, slot, v) == [st EXCEPT !.acts[Len(st.acts)].lv = Put(@, slot, v)]
SetEnvItem(st, n, s) ==
    LET i == FirstIdx(st.env, LAMBDA p : p[1] = n) IN
    IF i = 0 THEN [st EXCEPT !.env = Append(@, <<n, s>>)] ELSE [st EXCEPT !.env[i] = <<n, s>>]
\* target: name with optional namespace [ns, n]
Store(e, tg, v) ==
    CASE tg.ns = "global" -> [e.st EXCEPT !.glob = Put(@, tg.n, v)]
      [] tg.ns = "envelope" ->
            [SetEnvItem(e.st, tg.n, Str(v)) EXCEPT !.q = <<[k |-> "setenvelope", name |-> tg.n, value |-> Str(v)]>>]
      [] OTHER ->
            LET r == Resolve(Sc(e.st), Stt(e.st), e.b, e.id, tg.n) IN
            IF r.k = "g" THEN [e.st EXCEPT !.glob = Put(@, r.s, v)]
            ELSE IF r.k = "l" THEN SetLv(e.st, r.s, v) ELSE e.st
Fetch(e, tg) ==
    CASE tg.ns = "global" -> GvOf(e.st, tg.n)
      [] tg.ns = "envelope" -> EnvOf(e.st, tg.n)
      [] OTHER -> VarAt(e, tg.n)
Assign(e, tg, v) == Store(e, tg, Fit(e.st, v))

SetCaps(st, caps) ==
    IF DOMAIN caps = {} THEN st ELSE [st EXCEPT !.acts[Len(st.acts)].mv = caps @@ @]

------------------------------------------------------------------------------
(* Modifiers of set and extracttext *)
ModOrder(m) == CASE m = "lower" -> 41 [] m = "upper" -> 40 [] m = "replace" -> 40 [] m = "lowerfirst" -> 31
                 [] m = "upperfirst" -> 30 [] m = "quoteregex" -> 21 [] m = "quotewildcard" -> 20
                 [] m = "encodeurl" -> 15 [] m = "length" -> 10
RECURSIVE QuoteC(_, _, _, _, _), UrlC(_, _, _, _)
QuoteC(s, i, set, max, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET c == Ch(s, i) n == ByteLen(acc) + CLen(c) IN
         IF c \in set THEN (IF n < max THEN QuoteC(s, i + 1, set, max, acc \o "\\" \o c) ELSE acc)
         ELSE IF n <= max THEN QuoteC(s, i + 1, set, max, acc \o c) ELSE acc
UnreservedC == Alnum \cup {"-", ".", "_", "~"}
HexDigits == "0123456789abcdef"
HexOf(c) == IF c \in DOMAIN HexTab THEN HexTab[c]
            ELSE Ch(Ascii, 6) \o Ch(HexDigits, 1 + (Ord(c) \div 16)) \o Ch(HexDigits, 1 + (Ord(c) % 16))
UrlC(s, i, max, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET c == Ch(s, i) IN
         IF c \in UnreservedC
         THEN IF Len(acc) < max THEN UrlC(s, i + 1, max, acc \o c) ELSE acc
         ELSE IF Len(acc) + 3 * CLen(c) <= max THEN UrlC(s, i + 1, max, acc \o HexOf(c)) ELSE acc
FirstC(s, max, Fc(_)) == IF s = "" THEN s ELSE LET t == CutTo(s, max) IN
                         IF t = "" THEN t ELSE Fc(Ch(t, 1)) \o From(t, 2)
ApplyMod(e, m, s) ==
    LET max == Rt(e.st).maxvar IN
    CASE m.m = "lower" -> Lower(s)
      [] m.m = "upper" -> Upper(s)
      [] m.m = "lowerfirst" -> FirstC(s, max, LowC)
      [] m.m = "upperfirst" -> FirstC(s, max, UpC)
      [] m.m = "quotewildcard" -> QuoteC(s, 1, {"*", "\\", "?"}, max, "")
      [] m.m = "quoteregex" -> QuoteC(s, 1, {"*", "\\", "?", ".", "[", "]", "(", ")", "+", "{", "}", "|", "^", "=", ":", "$"}, max, "")
      [] m.m = "encodeurl" -> UrlC(s, 1, max, "")
      [] m.m = "length" -> ToString(Len(s))
      [] m.m = "replace" -> ReplaceAll(s, Txts([e EXCEPT !.id = e.id - 1], m.f), Txts([e EXCEPT !.id = e.id - 1], m.r))
RECURSIVE ApplyMods(_, _, _, _)
\* modifiers in order of decreasing precedence, first one first among equals
SortMods(ms) ==
    LET RECURSIVE Go(_, _)
        Go(rest, acc) ==
            IF rest = <<>> THEN acc
            ELSE LET best == CHOOSE i \in 1..Len(rest) :
                        /\ \A j \in 1..Len(rest) : ModOrder(rest[j].m) <= ModOrder(rest[i].m)
                        /\ \A j \in 1..(i - 1) : ModOrder(rest[j].m) < ModOrder(rest[i].m)
                 IN Go(RemoveAt(rest, best), Append(acc, rest[best]))
    IN Go(ms, <<>>)
ApplyMods(e, ms, i, s) == IF i > Len(ms) THEN s ELSE ApplyMods(e, ms, i + 1, ApplyMod(e, ms[i], s))
Modified(e, ms, v) == IF ms = <<>> THEN v ELSE S(ApplyMods(e, SortMods(ms), 1, Str(v)))

------------------------------------------------------------------------------
(* Expressions.  A call of an external function suspends the evaluation; the *)
(* n-th call is answered by ans[n].  Result: [v, n, need].                   *)
XOk(v, n) == [v |-> v, n |-> n, need |-> <<>>]
RECURSIVE Ex(_, _, _), ExArgs(_, _, _, _, _)
ExArgs(e, as, i, n, acc) ==
    IF i > Len(as) THEN [v |-> acc, n |-> n, need |-> <<>>]
    ELSE LET r == Ex(e, as[i], n) IN
         IF r.need # <<>> THEN r ELSE ExArgs(e, as, i + 1, r.n, Append(acc, r.v))
Ex(e, x, n) ==
    CASE x.k = "lit" -> XOk(x.v, n)
      [] x.k = "var" -> XOk(Piece(e, x.p), n)
      [] x.k = "un" -> LET r == Ex(e, x.x, n) IN IF r.need # <<>> THEN r ELSE XOk(UnOp(x.op, r.v), r.n)
      [] x.k = "bin" ->
            LET l == Ex(e, x.l, n) IN
            IF l.need # <<>> THEN l
            ELSE IF x.op = "&&" /\ ~ToBool(l.v) THEN l
            ELSE IF x.op = "||" /\ ToBool(l.v) THEN l
            ELSE LET r == Ex(e, x.r, l.n) IN
                 IF r.need # <<>> THEN r ELSE XOk(BinOp(x.op, l.v, r.v), r.n)
      [] x.k = "arr" -> LET r == ExArgs(e, x.xs, 1, n, <<>>) IN IF r.need # <<>> THEN r ELSE XOk(ArrV(r.v), r.n)
      [] x.k = "idx" ->
            LET a == Ex(e, x.a, n) IN
            IF a.need # <<>> THEN a
            ELSE LET i == Ex(e, x.i, a.n) IN IF i.need # <<>> THEN i ELSE XOk(Index(a.v, i.v), i.n)
      [] x.k = "call" ->
            LET r == ExArgs(e, x.as, 1, n, <<>>) IN
            IF r.need # <<>> THEN r
            ELSE IF x.ext >= 0
                 THEN IF Len(e.st.ans) > r.n THEN XOk(e.st.ans[r.n + 1], r.n + 1)
                      ELSE [v |-> Nul, n |-> r.n, need |-> <<[k |-> "function", id |-> x.ext, args |-> r.v]>>]
                 ELSE XOk(Builtin(x.fn, r.v), r.n)

------------------------------------------------------------------------------
(* Tests.  Result: [r, st, n, need, lf]: outcome, state (captures), answers  *)
(* consumed, question to the host if one is needed, number of tests run.     *)
TR(r, st, n) == [r |-> r, st |-> st, n |-> n, need |-> <<>>, lf |-> 1]
Ask(st, n, ev) ==
    IF Len(st.ans) > n THEN TR(st.ans[n + 1], st, n + 1)
    ELSE [r |-> FALSE, st |-> st, n |-> n, need |-> <<ev>>, lf |-> 1]
MatchAs(m) == CASE m.cmp = "i;ascii-casemap" -> "lower" [] m.cmp = "i;ascii-numeric" -> "number" [] OTHER -> "octet"
Distinct(ss) == FoldSeq(LAMBDA acc, x : IF x = "" \/ \E i \in 1..Len(acc) : acc[i] = x THEN acc ELSE Append(acc, x), <<>>, ss)
MaskOf(st, t) == Get(Stt(st).mask, t.id, {})
WithCaps(st, m, n) == TR(m.r, SetCaps(st, m.caps), n)
\* match type clause over the values a test inspects
OverVals(e, t, n, vals, cnt) ==
    CASE t.m.mt = "count" -> TR(CountM(t.m, cnt, Keys(e, t.keys)).r, e.st, n)
      [] t.m.mt = "list" ->
            LET vs == Distinct(vals) IN
            IF vs = <<>> THEN TR(FALSE, e.st, n)
            ELSE Ask(e.st, n, [k |-> "list", lists |-> Texts(e, t.keys), values |-> vs, as |-> MatchAs(t.m)])
      [] OTHER -> WithCaps(e.st, AnyVK(t.m, [i \in 1..Len(vals) |-> Src(vals[i])], Keys(e, t.keys), MaskOf(e.st, t), 1), n)
NonEmptyCount(vals) == Len(SelectSeq(vals, LAMBDA x : x # ""))
HNames(e, t) == [i \in 1..Len(t.names) |-> Lower(Txts(e, t.names[i]))]

MimeOpt(e, mo) == IF mo.k = "param" THEN [mo EXCEPT !.ps = Texts(e, mo.ps)] ELSE mo
HeaderTest(e, t, n) ==
    LET mo == MimeOpt(e, t.mo)
        fs == FindH(e.st.msg, e.st.part, HNames(e, t), t.idx, t.any)
        vals == FlattenSeq([i \in 1..Len(fs) |-> HVals(HAt(e.st.msg, fs[i]), mo)])
        cnt == FoldSeq(LAMBDA a, f : a + HCount(HAt(e.st.msg, f), mo), 0, fs)
    IN OverVals(e, t, n, vals, cnt)
AddressTest(e, t, n) ==
    LET fs == FindH(e.st.msg, e.st.part, HNames(e, t), t.idx, t.any)
        vals == FlattenSeq([i \in 1..Len(fs) |-> AVals(HAt(e.st.msg, fs[i]), t.part)])
    IN OverVals(e, t, n, vals, NonEmptyCount(vals))
EnvelopeTest(e, t, n) ==
    LET one(p) == IF p[1] \notin Range(t.fields) THEN <<>>
                  ELSE IF p[1] \in {"from", "to", "orcpt"} THEN AddrPart(t.part, p[2]) ELSE <<p[2]>>
        vals == FlattenSeq([i \in 1..Len(e.st.env) |-> one(e.st.env[i])])
    IN OverVals(e, t, n, vals, NonEmptyCount(vals))
ValidName(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in Alnum \cup {"-", "_"}
ExistsTest(e, t) ==
    LET sc == Scope(e.st.msg, e.st.part, t.any)
        nm == IF Dev("existsbadname") THEN SelectSeq(HNames(e, t), ValidName) ELSE HNames(e, t) IN
    \A i \in 1..Len(nm) : \E j \in 1..Len(sc) : \E k \in 1..Len(e.st.msg[sc[j] + 1].h) :
        HdrIs(e.st.msg[sc[j] + 1].h[k], nm[i])
StringTest(e, t, n, envi) ==
    LET vs == Vals(e, t.src)
        ne == SelectSeq(vs, LAMBDA v : ~IsNul(v))
        use == IF envi THEN ne ELSE vs
    IN CASE t.m.mt = "count" -> TR((~envi \/ Len(ne) > 0) /\ CountM(t.m, Len(ne), Keys(e, t.keys)).r, e.st, n)
         [] t.m.mt = "list" -> OverVals(e, t, n, [i \in 1..Len(vs) |-> Str(vs[i])], 0)
         [] OTHER -> WithCaps(e.st, StringKV(t.m, use, Keys(e, t.keys), MaskOf(e.st, t)), n)

\* Flags.  A flag variable holds flags separated by single spaces.
FlagToks(e, vs) == FlattenSeq([i \in 1..Len(vs) |-> SplitWS(Txts(e, vs[i]))])
FlagsIn(s) == IF s = "" THEN <<>> ELSE SplitOn(s, " ")
FlagVars == [ns |-> "global", n |-> "__flags"]
HasFlagTest(e, t, n) ==
    LET tg == IF t.vars = <<>> THEN <<FlagVars>> ELSE t.vars
        fl == FlattenSeq([i \in 1..Len(tg) |-> FlagsIn(Str(Fetch(e, tg[i])))])
    IN IF t.m.mt = "count" THEN TR(CountM(t.m, Len(fl), Keys(e, t.keys)).r, e.st, n)
       ELSE LET ks == FlagToks(e, t.keys)
                m == AnyKV([t.m EXCEPT !.mt = IF @ = "regex" THEN "matches" ELSE @],
                           [i \in 1..Len(fl) |-> Src(fl[i])], [i \in 1..Len(ks) |-> Src(ks[i])], MaskOf(e.st, t), 1)
            IN WithCaps(e.st, m, n)

\* Body test: the current part and everything inside it, attached messages included
RECURSIVE Inside(_, _), InsideAll(_, _, _)
InsideAll(ps, ch, i) == IF i > Len(ch) THEN <<>> ELSE Inside(ps, ch[i]) \o InsideAll(ps, ch, i + 1)
Inside(ps, id) ==
    LET p == ps[id + 1] IN
    <<p>> \o (CASE p.k = "multi" -> InsideAll(ps, p.ch, 1) [] p.k = "msg" -> Inside(p.msg, 0) [] OTHER -> <<>>)
CtName(p) == \* content type of a part
    LET i == FirstIdx(p.h, LAMBDA h : h.n = "content-type")
        c == IF i = 0 THEN <<>> ELSE CtOf(p.h[i])
    IN IF c # <<>> THEN [t |-> c[1].t, s |-> c[1].s]
       ELSE CASE p.k = "text" -> [t |-> "text", s |-> "plain"] [] p.k = "html" -> [t |-> "text", s |-> "html"]
              [] p.k = "msg" -> [t |-> "message", s |-> "rfc822"] [] p.k = "multi" -> [t |-> "multipart", s |-> "mixed"]
              [] OTHER -> [t |-> "application", s |-> "octet-stream"]
CtHits(p, f) == \* is the part of content type f ("type" or "type/subtype")
    LET x == SplitOn(f, "/") c == CtName(p) IN EqNC(x[1], c.t) /\ (Len(x) = 1 \/ EqNC(x[2], c.s))
BadCt(f) == LET x == SplitOn(f, "/") IN Len(x) > 2 \/ \E i \in 1..Len(x) : x[i] = ""
\* text outside the parts of a multipart
Outside(p) ==
    LET d == "\n--" \o p.bd
        i == IndexFrom(p.body, d, 1)
        own == i > 0 /\ (Dev("prologue") \/ ~StartsWith(p.body, "--" \o p.bd))
        rest == IF i = 0 THEN "" ELSE From(p.body, i + Len(d))
        j == LastIdxOf(rest, d \o "--")
    IN (IF own THEN Upto(p.body, i - 1) ELSE "") \o (IF j = 0 THEN "" ELSE From(rest, j + Len(d) + 2))
\* what the test inspects in a part: <<>> or <<text>>
BodyText(tr, p) ==
    CASE tr = "raw" -> IF p.nw THEN IF p.k = "text" THEN <<p.txt>> ELSE <<>>
                       ELSE IF p.body = "" THEN <<>> ELSE <<p.body>>
      [] tr = "text" -> CASE p.k = "text" -> <<p.txt>> [] p.k = "html" -> <<p.htxt>>
                          [] p.k = "bin" /\ p.xml -> <<p.htxt>> [] OTHER -> <<>>
      [] tr = "content" -> CASE p.k \in {"text", "html"} -> <<p.txt>> [] p.k = "bin" -> <<p.dec>>
                             [] p.k = "multi" -> <<IF p.nw THEN "" ELSE Outside(p)>> [] OTHER -> <<p.msg[1].head>>
BodyTest(e, t, n) ==
    LET fs0 == Texts(e, t.cts)
        z == FirstIdx(fs0, LAMBDA f : f = "")
        fs == IF z = 0 THEN fs0 ELSE Upto(fs0, z - 1)
        ps == SelectSeq(Inside(e.st.msg, e.st.part), LAMBDA p : fs = <<>> \/ \E i \in 1..Len(fs) : CtHits(p, fs[i]))
        vals == FlattenSeq([i \in 1..Len(ps) |-> BodyText(t.tr, ps[i])])
        sub == HPos(e.st.msg[1], "subject")
        more == IF t.subj THEN <<IF sub = <<>> THEN "" ELSE e.st.msg[1].h[Last(sub)].v>> ELSE <<>>
        test(vs) == AnyVK(t.m, [i \in 1..Len(vs) |-> Src(vs[i])], Keys(e, t.keys), {}, 1).r
    IN CASE t.m.mt = "count" -> TR(~(\E i \in 1..Len(fs) : BadCt(fs[i])) /\ CountM(t.m, Len(ps), Keys(e, t.keys)).r, e.st, n)
         [] OTHER -> TR(test(more) \/ (~(\E i \in 1..Len(fs) : BadCt(fs[i])) /\ test(vals)), e.st, n)

\* date / currentdate.  A date test inspects the asked part of every valid date.
DateVals(e, t, n, vals, cnt) == OverVals(e, [t EXCEPT !.m.mt = IF @ = "regex" THEN "matches" ELSE @], n, vals, cnt)
DateTest(e, t, n) ==
    LET nm == Txts(e, t.name)
        fs == FindH(e.st.msg, e.st.part, <<Lower(nm)>>, t.idx, t.any)
        ds == FlattenSeq([i \in 1..Len(fs) |-> HeaderDate(HAt(e.st.msg, fs[i]), Ca(e.st).dates)])
        vals == [i \in 1..Len(ds) |-> DatePartText(ZoneOf(ds[i], t.zone), t.dp)]
    IN IF ~ValidName(nm) THEN TR(FALSE, e.st, n) ELSE DateVals(e, t, n, vals, Len(ds))
CurrentDateTest(e, t, n) ==
    DateVals(e, t, n, <<DatePartText(ZoneOf(NowDate(e.st.now), t.zone), t.dp)>>, 1)

\* metadata: list of [mailbox or "", annotation, value]
MetaAll(st) == Cx(st).metadata \o Rt(st).metadata
MetaTest(e, t, n) ==
    LET mb == OptTxt(e, t.mbox)
        an == Txts(e, t.ann)
        hit == SelectSeq(MetaAll(e.st), LAMBDA x : (IF mb = <<>> THEN x[1] = "" ELSE x[1] = mb[1]) /\ EqNC(x[2], an))
    IN IF hit = <<>> THEN TR(FALSE, e.st, n)
       ELSE IF t.m.mt = "count" THEN TR(CountM(t.m, 1, Keys(e, t.keys)).r, e.st, n)
       ELSE WithCaps(e.st, AnyKV(t.m, <<Src(hit[1][3])>>, Keys(e, t.keys), MaskOf(e.st, t), 1), n)
MetaExists(e, t) ==
    LET mb == OptTxt(e, t.mbox) as == Texts(e, t.anns) IN
    \A i \in 1..Len(as) : \E j \in 1..Len(MetaAll(e.st)) :
        LET x == MetaAll(e.st)[j] IN (IF mb = <<>> THEN x[1] = "" ELSE x[1] = mb[1]) /\ EqNC(x[2], as[i])

\* spamtest / virustest: the host's verdict as text of a number, in thousandths
SpamScore(st, pct) == \* host's verdict: 1 not spam, 2..9 maybe (tenths), 10 spam, 1000 + k maybe (k / 1024), else unknown
    LET x == Cx(st).spam known == x >= 1 /\ x <= 10
        k == x - 1000
        in(a, v, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
    IN IF k >= 0 THEN I(IF pct THEN in(1, (100 * k + 1023) \div 1024, 100) ELSE in(2, (10 * k) \div 1024, 9))
       ELSE IF pct THEN I(IF known /\ x > 1 THEN 10 * x ELSE 0) ELSE I(IF known THEN x ELSE 0)
SpamKnown(st) == Cx(st).spam >= 1000 \/ (Cx(st).spam >= 1 /\ Cx(st).spam <= 10)
VirusScore(st) == I(CASE Cx(st).virus = "unknown" -> 0 [] Cx(st).virus = "clean" -> 1 [] Cx(st).virus = "replaced" -> 2
                      [] Cx(st).virus = "cured" -> 3 [] Cx(st).virus = "maybe" -> 4 [] Cx(st).virus = "definite" -> 5)
ScoreTest(e, t, n, v, known) ==
    IF t.m.mt = "count" THEN TR(NumRel(t.m.rel, IF ~known THEN Num(0) ELSE IF Dev("spamcount") THEN [inf |-> FALSE, n |-> 1, f |-> 100] ELSE Num(1), NumOf(KeyVal(e, t.key))), e.st, n)
    ELSE WithCaps(e.st, Match1(t.m, v, KeyVal(e, t.key), MaskOf(e.st, t)), n)

DupTest(e, t, n) ==
    LET id == CASE t.by = "header" ->
                     LET fs == FindH(e.st.msg, e.st.part, <<Lower(Txts(e, t.v))>>, 0, TRUE)
                         ids == SelectSeq([i \in 1..Len(fs) |-> Get(HAt(e.st.msg, fs[i]), "idv", HAt(e.st.msg, fs[i]).v)], LAMBDA x : x # "")
                     IN IF ids = <<>> THEN "" ELSE ids[1]
                [] t.by = "uniqueid" -> Txts(e, t.v)
                [] OTHER -> LET p == HPos(e.st.msg[1], "message-id") IN
                            IF p = <<>> THEN "" ELSE Get(e.st.msg[1].h[Last(p)], "idv", "")
    IN IF id = "" THEN TR(FALSE, e.st, n)
       ELSE Ask(e.st, n, [k |-> "duplicate", id |-> OptS(e, t.handle, "") \o id,
                          expiry |-> IF t.expiry = <<>> THEN Rt(e.st).dupexp ELSE t.expiry[1], last |-> t.last])

MbEv(names, su) == [k |-> "mailboxexists", mailboxes |-> names, specialuse |-> su]
MbNames(e, vs, by) == [i \in 1..Len(vs) |-> [by |-> by, v |-> Txts(e, vs[i])]]
CapOk(st, c) == c \in Range(Rt(st).caps)

\* notification methods
Offered(st, u) == ValidUri(u) /\ (u \in Range(Rt(st).notifyuris) \/ UriSplit(u)[1].s \in Range(Rt(st).notifyuris))
NotifyCap(e, t, n) ==
    IF ~Offered(e.st, Txts(e, t.uri)) \/ ~EqNC(Txts(e, t.cap), "online") THEN TR(FALSE, e.st, n)
    ELSE IF t.m.mt = "count" THEN TR(CountM(t.m, 1, Keys(e, t.keys)).r, e.st, n)
    ELSE TR(AnyKV(t.m, <<Src("maybe")>>, Keys(e, t.keys), {}, 1).r, e.st, n)

SizeOf(ps) == ByteLen(EmitMsg(ps))
\* convert (RFC 6558): every part of the named media type becomes one of another.  Its fields about the content are written anew;
\* part 0 carries the message's own fields, which stay
Converts(from, to) == IF to = "text/html" THEN StartsWith(from, "text/") /\ from # to ELSE from = "text/html" /\ to = "text/plain"
Convert(e, c) ==
    LET st == e.st
        from == Lower(Txts(e, c.from))
        to == Lower(Txts(e, c.to))
        html == to = "text/html"
        hit(p) == Converts(from, to) /\ p.k = (IF html THEN "text" ELSE "html") /\ CtHits(p, from)
        new(p, i) == LET txt == IF html THEN "<html><body>" \o HtmlEsc(p.txt) \o "</body></html>" ELSE p.htxt
                         own == IF i = 1 THEN SelectSeq(p.h, LAMBDA x : ~StartsWith(x.n, "content-")) ELSE <<>>
                     IN [p EXCEPT !.h = Append(own, Hdr("Content-Type", to \o "; charset=utf8")), !.k = IF html THEN "html" ELSE "text",
                                  !.txt = txt, !.raw = txt, !.nw = TRUE, !.sep = TRUE, !.dec = txt, !.htxt = IF html THEN ReplaceAll(p.txt, "\r", "") ELSE "",
                                  !.head = "", !.body = "", !.xml = FALSE]
        ps == [i \in 1..Len(st.msg) |-> IF hit(st.msg[i]) THEN new(st.msg[i], i) ELSE st.msg[i]]
        did == \E i \in 1..Len(ps) : hit(st.msg[i])
    IN [did |-> did, st |-> IF did THEN [st EXCEPT !.msg = ps, !.chg = TRUE, !.sz = SizeOf(ps)] ELSE st]


RECURSIVE Ev(_, _, _), EvAll(_, _, _, _, _), EvAny(_, _, _, _, _)
AddLf(r, k) == [r EXCEPT !.lf = @ + k]
EvAll(e, ts, i, n, lf) ==
    IF i > Len(ts) THEN [TR(TRUE, e.st, n) EXCEPT !.lf = lf]
    ELSE LET r == Ev(e, ts[i], n) IN
         IF r.need # <<>> \/ ~r.r THEN AddLf(r, lf)
         ELSE EvAll([e EXCEPT !.st = r.st], ts, i + 1, r.n, lf + r.lf)
EvAny(e, ts, i, n, lf) ==
    IF i > Len(ts) THEN [TR(FALSE, e.st, n) EXCEPT !.lf = lf]
    ELSE LET r == Ev(e, ts[i], n) IN
         IF r.need # <<>> \/ r.r THEN AddLf(r, lf)
         ELSE EvAny([e EXCEPT !.st = r.st], ts, i + 1, r.n, lf + r.lf)
Ev(e, t, n) ==
    CASE t.t = "true" -> TR(TRUE, e.st, n)
      [] t.t = "false" -> TR(FALSE, e.st, n)
      [] t.t = "not" -> LET r == Ev(e, t.x, n) IN [r EXCEPT !.r = ~@]
      [] t.t = "allof" -> EvAll(e, t.ts, 1, n, 0)
      [] t.t = "anyof" -> EvAny(e, t.ts, 1, n, 0)
      [] t.t = "header" -> HeaderTest(e, t, n)
      [] t.t = "address" -> AddressTest(e, t, n)
      [] t.t = "envelope" -> EnvelopeTest(e, t, n)
      [] t.t = "exists" -> TR(ExistsTest(e, t), e.st, n)
      [] t.t = "size" -> TR(IF t.over THEN e.st.sz > t.lim ELSE e.st.sz < t.lim, e.st, n)
      [] t.t = "string" -> StringTest(e, t, n, FALSE)
      [] t.t = "environment" -> StringTest(e, t, n, TRUE)
      [] t.t = "body" -> BodyTest(e, t, n)
      [] t.t = "date" -> DateTest(e, t, n)
      [] t.t = "currentdate" -> CurrentDateTest(e, t, n)
      [] t.t = "hasflag" -> HasFlagTest(e, t, n)
      [] t.t = "duplicate" -> DupTest(e, t, n)
      [] t.t = "mailboxexists" -> Ask(e.st, n, MbEv(MbNames(e, t.names, "name"), <<>>))
      [] t.t = "mailboxidexists" -> Ask(e.st, n, MbEv(MbNames(e, t.names, "id"), <<>>))
      [] t.t = "specialuse_exists" -> Ask(e.st, n, MbEv(MbNames(e, t.mbox, "name"), Texts(e, t.attrs)))
      [] t.t = "metadata" -> MetaTest(e, t, n)
      [] t.t = "metadataexists" -> TR(MetaExists(e, t), e.st, n)
      [] t.t = "spamtest" -> ScoreTest(e, t, n, SpamScore(e.st, t.pct), SpamKnown(e.st))
      [] t.t = "virustest" -> ScoreTest(e, t, n, VirusScore(e.st), Cx(e.st).virus # "unknown")
      [] t.t = "validextlist" -> TR(\A i \in 1..Len(t.names) : Txts(e, t.names[i]) \in Range(Rt(e.st).extlists), e.st, n)
      [] t.t = "validnotify" -> TR(\A i \in 1..Len(t.uris) : Offered(e.st, Txts(e, t.uris[i])), e.st, n)
      [] t.t = "notifycap" -> NotifyCap(e, t, n)
      [] t.t = "ihave" -> TR(\A i \in 1..Len(t.caps) : t.caps[i] \notin {"variables", "encoded-character"} /\ CapOk(e.st, t.caps[i]), e.st, n)
      [] t.t = "convert" -> LET r == Convert(e, t) IN TR(r.did, r.st, n)
      [] t.t = "eval" -> LET r == Ex(e, t.e, n) IN
             IF r.need # <<>> THEN [r |-> FALSE, st |-> e.st, n |-> r.n, need |-> r.need, lf |-> 1]
             ELSE TR(ToBool(r.v), e.st, r.n)
      [] OTHER -> [TR(FALSE, e.st, n) EXCEPT !.need = <<[k |-> "error", e |-> "invalid", arg |-> t.name]>>]

------------------------------------------------------------------------------
(* Results of executing one command.                                        *)
(*   out: outputs produced (the first is delivered at once, the others      *)
(*   wait in q); w: what the host hands in next; err: run-time error;       *)
(*   lo/hi: instructions executed.                                          *)
Res(st) == [st |-> st, out |-> <<>>, w |-> "ack", err |-> <<>>, lo |-> 1, hi |-> 1, pk |-> 0]
ResOut(st, evs) == [Res(st) EXCEPT !.out = evs]
ResErr(st, ev) == [Res(st) EXCEPT !.err = <<ev>>]
Query(st, ev, w, extra) == [Res(st) EXCEPT !.out = <<ev>>, !.w = w]

Keep0 == [k |-> "keep", flags |-> <<>>, mid |-> 0]
GlobFlags(st) == FlagsIn(Str(GvOf(st, "__flags")))
FlagArg(e, fl) == IF fl = <<>> THEN GlobFlags(e.st) ELSE FlagToks(e, fl)

\* A new version of the message is announced before anything refers to it.
Version(st) == \* [st, evs]
    IF ~st.chg THEN [st |-> st, evs |-> <<>>]
    ELSE LET n == st.lmid + 1 IN
         [st |-> [st EXCEPT !.lmid = n, !.mid = n, !.chg = FALSE],
          evs |-> <<[k |-> "created", mid |-> n, msg |-> EmitMsg(st.msg)]>>]

\* Control
SetFrame(st, f) == [st EXCEPT !.acts[Len(st.acts)].ctl[Len(Act(st).ctl)] = f]
Adv(st) == SetFrame(st, [FrameOf(st) EXCEPT !.i = @ + 1, !.lp = FALSE])
PushFrame(st, f) == [st EXCEPT !.acts[Len(st.acts)].ctl = Append(@, f)]
PopFrame(st) == [st EXCEPT !.acts[Len(st.acts)].ctl = Front(@)]
Fr(k, b, lab) == [k |-> k, b |-> b, i |-> 1, lp |-> FALSE, lab |-> lab]
\* leaving a block: its variables and the captures of its tests are gone
ClearBlock(st, b) ==
    LET a == Act(st)
        suffix == "@" \o ToString(b)
        own == {s \in DOMAIN a.lv : \E r \in Stt(st).regs : r.b = b /\ s = Slot(r.n, b)}
        cl == Get(Stt(st).clear, b, {})
    IN [st EXCEPT !.acts[Len(st.acts)].lv = [s \in DOMAIN @ \ own |-> @[s]],
                  !.acts[Len(st.acts)].mv = [n \in DOMAIN @ \ cl |-> @[n]]]
ClearBlocks(st, bs) == FoldSeq(ClearBlock, st, bs)
HasClear(st, b) == b # 1 /\ ((\E r \in Stt(st).regs : r.b = b) \/ Get(Stt(st).clear, b, {}) # {})
PopPart(st) ==
    IF st.pstk = <<>> THEN st
    ELSE [st EXCEPT !.part = Last(st.pstk).part, !.pit = Last(st.pstk).pit, !.pstk = Front(@)]
RECURSIVE PopParts(_, _)
PopParts(st, n) == IF n = 0 THEN st ELSE PopParts(PopPart(st), n - 1)
\* leave frames up to and including the one at depth d; foreverypart frames
\* left on the way restore the part they started from
LeaveTo(st, d) ==
    LET ctl == Act(st).ctl
        feps == Cardinality({i \in d..Len(ctl) : ctl[i].k = "fep"})
        s1 == IF Dev("leave") THEN st ELSE ClearBlocks(st, [i \in 1..(Len(ctl) + 1 - d) |-> ctl[d + i - 1].b])
    IN [PopParts(s1, feps) EXCEPT !.acts[Len(st.acts)].ctl = SubSeq(@, 1, d - 1)]
Depths(st, ks, lab) == {i \in 1..Len(Act(st).ctl) : Act(st).ctl[i].k \in ks /\ (lab = "" \/ Act(st).ctl[i].lab = lab)}
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x

PushAct(st, key) == [st EXCEPT !.acts = Append(@, [s |-> key, ctl |-> <<Fr("main", 1, "")>>, lv |-> EmptyFn, mv |-> EmptyFn])]

------------------------------------------------------------------------------
(* Final disposition *)
Finish(st) == \* the main script has ended
    LET s0 == [st EXCEPT !.fin = <<>>, !.acts = <<>>] IN
    IF st.fin = <<>> THEN [Res(s0) EXCEPT !.out = <<[k |-> "end"]>>, !.w = "none", !.lo = 0, !.hi = 0]
    ELSE IF st.fin[1].k # "keep" THEN [ResOut(s0, st.fin) EXCEPT !.lo = 0, !.hi = 0]
    ELSE LET v == Version(s0)
             fl == IF st.fin[1].flags = <<>> THEN GlobFlags(st) ELSE st.fin[1].flags
         IN [ResOut(v.st, v.evs \o <<[k |-> "keep", flags |-> fl, mid |-> v.st.mid]>>) EXCEPT !.lo = 0, !.hi = 0]
\* a run-time error ends the script; the pending disposition is still delivered
Fail(st, ev) ==
    LET r == Finish(st) IN
    [ResOut([r.st EXCEPT !.q = <<>>], <<ev>> \o (IF r.w = "none" THEN <<>> ELSE r.out)) EXCEPT !.lo = 0, !.hi = 0]

------------------------------------------------------------------------------
(* Addresses of redirect *)
RECURSIVE San(_, _, _, _)
San(s, i, r, f) == \* f = [q, at, dot, last]
    IF i > Len(s) THEN IF r # "" /\ f.at /\ f.dot THEN <<r>> ELSE <<>>
    ELSE LET c == Ch(s, i) g == [f EXCEPT !.last = c] IN
         IF c = "\"" THEN San(s, i + 1, r, [g EXCEPT !.q = IF ~f.q THEN TRUE ELSE IF f.last # "\\" THEN FALSE ELSE @])
         ELSE IF c = "@" /\ ~f.q THEN IF ~f.at /\ r # "" THEN San(s, i + 1, r \o c, [g EXCEPT !.at = TRUE]) ELSE <<>>
         ELSE IF c = "." /\ ~f.q /\ f.at /\ ~f.dot THEN San(s, i + 1, r \o c, [g EXCEPT !.dot = TRUE])
         ELSE IF c = "<" THEN San(s, i + 1, "", [g EXCEPT !.at = FALSE, !.dot = FALSE])
         ELSE IF c = ">" THEN San(s, i + 1, r, g)
         ELSE IF c \notin WS \/ f.q THEN San(s, i + 1, r \o c, g) ELSE San(s, i + 1, r, g)
Sanitize(s) == San(s, 1, "", [q |-> FALSE, at |-> FALSE, dot |-> FALSE, last |-> "\n"])

------------------------------------------------------------------------------
(* Header edits *)
NoCrLf(s, max) == CutTo(JoinChars([i \in 1..Len(s) |-> IF Ch(s, i) \in {"\r", "\n"} THEN "" ELSE Ch(s, i)]), max)
HName(s) == JoinChars([i \in 1..Len(s) |-> IF Ch(s, i) \in Alnum \/ Ch(s, i) = "-" THEN Ch(s, i) ELSE ""])
Protected(st, n) == n \in Range(Rt(st).protected)
AddH(st, part, h, last) ==
    [st EXCEPT !.msg[part + 1].h = IF last THEN Append(@, h) ELSE <<h>> \o @,
               !.sz = @ + ByteLen(h.raw)]
AddHeader(e, c) ==
    LET nm == HName(Txts(e, c.n)) IN
    IF nm = "" \/ Protected(e.st, Lower(nm)) THEN e.st
    ELSE [AddH(e.st, e.st.part, Hdr(nm, NoCrLf(Txts(e, c.v), Rt(e.st).maxhdr)), c.last) EXCEPT !.chg = TRUE]
DeleteHeader(e, c) ==
    LET st == e.st
        nm == Lower(Txts(e, c.n))
        ks == Keys(e, c.pats)
        hit(f) == ks = <<>> \/ (c.m.mt \notin {"count", "list"} /\
                     AnyVK(c.m, <<Src(HAt(st.msg, f).v)>>, ks, {}, 1).r)
        fs == SelectSeq(FindH(st.msg, st.part, <<nm>>, c.idx, c.any), hit)
        gone == {<<fs[i].p, fs[i].i>> : i \in 1..Len(fs)}
        keepH(p) == LET h == st.msg[p].h
                        ix == SelectSeq([i \in 1..Len(h) |-> i], LAMBDA i : <<p - 1, i>> \notin gone)
                    IN [j \in 1..Len(ix) |-> h[ix[j]]]
        bytes == FoldSeq(LAMBDA a, f : a + ByteLen(HAt(st.msg, f).raw), 0, fs)
    IN IF nm = "" \/ Protected(st, nm) \/ fs = <<>> THEN st
       ELSE [st EXCEPT !.msg = [p \in 1..Len(st.msg) |-> [st.msg[p] EXCEPT !.h = keepH(p)]],
                       !.sz = @ - bytes, !.chg = TRUE]

------------------------------------------------------------------------------
(* Rewriting the message: replace, enclose, extracttext *)
UserFrom(st) == IF Cx(st).fullname # "" THEN "\"" \o Cx(st).fullname \o "\" <" \o Cx(st).user \o ">" ELSE Cx(st).user
GenDate == "GENERATED-DATE"
GenId == "<GENERATED-ID>"
LastText(st, n) == \* text of the last field n of the message, or <<>>
    LET q == HPos(st.msg[1], n) IN IF q = <<>> THEN <<>> ELSE <<st.msg[1].h[Last(q)].v>>
Renamed(h, rn) == [h EXCEPT !.n = Lower(rn), !.rn = rn, !.raw = rn \o From(h.raw, IndexFrom(h.raw, ":", 1))]
\* fields a replaced message keeps
KeptField(h, c) ==
    CASE h.n = "subject" -> <<IF c.subject # <<>> THEN Renamed(h, "Original-Subject") ELSE h>>
      [] h.n = "from" -> <<IF c.from # <<>> THEN Renamed(h, "Original-From") ELSE h>>
      [] h.n \in {"to", "cc", "bcc", "received", "date"} -> <<h>>
      [] OTHER -> <<>>
Replace(e, c) ==
    LET st == e.st
        gone == Range(Desc(st.msg, st.part))
        kept == SelectSeq([i \in 1..Len(st.msg) |-> i - 1], LAMBDA i : i \notin gone)
        new(i) == FirstIdx(kept, LAMBDA x : x = i) - 1
        ids(l) == LET k == SelectSeq(l, LAMBDA i : i \notin gone) IN [j \in 1..Len(k) |-> new(k[j])]
        part == new(st.part)
        max == Rt(st).maxhdr
        old == st.msg[st.part + 1].h
        hs == IF st.part # 0 THEN <<>>
              ELSE FlattenSeq([i \in 1..Len(old) |-> KeptField(old[i], c)])
                   \o <<Hdr("From", IF OptS(e, c.from, "") # "" THEN NoCrLf(OptS(e, c.from, ""), max) ELSE UserFrom(st))>>
                   \o (IF OptS(e, c.subject, "") # "" THEN <<Hdr("Subject", NoCrLf(OptS(e, c.subject, ""), max))>> ELSE <<>>)
                   \o (IF \E i \in 1..Len(old) : old[i].n = "date" THEN <<>> ELSE <<Hdr("Date", GenDate)>>)
                   \o <<Hdr("Message-ID", GenId)>>
        ct == IF c.mime THEN <<>> ELSE <<Hdr("Content-Type", "text/plain; charset=utf-8")>>
        text == Txts(e, c.v)
        p == [st.msg[st.part + 1] EXCEPT !.h = hs \o ct, !.k = "text", !.ch = <<>>, !.txt = text, !.raw = text, !.segs = <<>>, !.nw = TRUE,
                   !.sep = ~c.mime, !.bd = "", !.msg = <<>>, !.head = "", !.dec = text, !.htxt = "", !.xml = FALSE, !.body = ""]
        ps0 == [i \in 1..Len(kept) |-> LET q == st.msg[kept[i] + 1] IN
                   IF kept[i] = st.part THEN p ELSE IF q.ch = <<>> THEN q ELSE [q EXCEPT !.ch = ids(@)]]
    IN [st EXCEPT !.msg = ps0, !.part = part, !.pit = ids(@),
                  !.pstk = [i \in 1..Len(@) |-> [part |-> IF @[i].part \in gone THEN 0 ELSE new(@[i].part), pit |-> ids(@[i].pit)]],
                  !.chg = TRUE, !.sz = SizeOf(ps0)]

NewPart(k, hs, txt, sep, ch, msg, bd) ==
    [h |-> hs, k |-> k, ch |-> ch, txt |-> txt, raw |-> txt, segs |-> <<>>, nw |-> TRUE, inl |-> FALSE, sep |-> sep, bd |-> bd, tail |-> "",
     msg |-> msg, head |-> "", dec |-> txt, htxt |-> "", xml |-> FALSE, body |-> ""]
CustomHdr(st, x) == \* "Name: value" -> <<field>> or <<>>
    LET i == IndexFrom(x, ":", 1)
        n == Trim(Upto(x, i - 1))  v == Trim(From(x, i + 1))
    IN IF i = 0 \/ v = "" \/ ~IsHName(n) \/ Protected(st, Lower(n)) THEN <<>>
       ELSE <<Hdr(Canon(n), NoCrLf(v, Rt(st).maxhdr))>>
Enclose(e, c) ==
    LET st == e.st
        subj == IF c.subject # <<>> THEN NoCrLf(Txts(e, c.subject[1]), Rt(st).maxhdr)
                ELSE IF LastText(st, "subject") # <<>> THEN NoCrLf(LastText(st, "subject")[1], Rt(st).maxhdr) ELSE ""
        own == FlattenSeq([i \in 1..Len(c.headers) |-> CustomHdr(st, Txts(e, c.headers[i]))])
        has(n) == \E i \in 1..Len(own) : own[i].n = n
        opt(n, h) == IF has(n) THEN <<>> ELSE <<h>>
        ps == <<NewPart("multi", <<Hdr("Content-Type", "multipart/mixed; boundary=\"" \o BndText(0) \o "\""), Hdr("Subject", subj)>> \o own
                    \o opt("from", Hdr("From", UserFrom(st))) \o opt("date", Hdr("Date", GenDate)) \o opt("message-id", Hdr("Message-ID", GenId)),
                    "", FALSE, <<1, 2>>, <<>>, BndText(0)),
                NewPart("text", <<Hdr("Content-Type", "text/plain; charset=utf-8")>>, Txts(e, c.v), TRUE, <<>>, <<>>, ""),
                NewPart("msg", <<Hdr("Content-Type", "message/rfc822")>>, "", TRUE, <<>>, st.msg, "")>>
    IN [st EXCEPT !.msg = ps, !.part = 0, !.pit = <<>>, !.pstk = [i \in 1..Len(@) |-> [part |-> 0, pit |-> <<>>]],
                  !.chg = TRUE, !.sz = SizeOf(ps)]
ExtractText(e, c) ==
    LET p == e.st.msg[e.st.part + 1]
        full == CASE p.k = "text" -> p.txt [] p.k = "html" -> p.htxt [] OTHER -> ""
        t == IF e.st.pstk = <<>> THEN "" ELSE IF c.first = <<>> \/ Len(full) <= c.first[1] THEN full ELSE Upto(full, c.first[1])
        v == IF t = "" THEN t ELSE ApplyMods(e, SortMods(c.mods), 1, t)
    IN Assign(e, c.name, S(v))

------------------------------------------------------------------------------
(* Replies and notifications *)
MaxSubject == 256
CutSubject(s) == IF Len(s) <= MaxSubject + 1 THEN Upto(s, Min(Len(s), MaxSubject)) ELSE Upto(s, MaxSubject) \o "…"
FieldLine(n, v) == n \o ": " \o v \o "\r\n"
Clean(st, s) == NoCrLf(s, Rt(st).maxhdr)
Automatic(st) == \E i \in 1..Len(st.msg[1].h) : st.msg[1].h[i].n = "auto-submitted" /\ ~EqNC(st.msg[1].h[i].v, "no")
SendEv(rcpt, mid) == [k |-> "send", rcpt |-> rcpt, notify |-> <<"never">>, ret |-> "default", bytime |-> [t |-> "none"], mid |-> mid]
FccEvs(e, f, mid) ==
    IF ~f.on THEN <<>>
    ELSE <<[k |-> "fileinto", folder |-> Txts(e, f.mailbox), flags |-> FlagToks(e, f.flags), mailboxid |-> OptTxt(e, f.mbid),
            specialuse |-> OptTxt(e, f.su), create |-> f.create, mid |-> mid]>>

\* vacation: the question whether this sender was answered before, or <<>>: no reply
OwnAddrs(e, c) ==
    LET env == SelectSeq([i \in 1..Len(e.st.env) |-> e.st.env[i]],
                  LAMBDA p : p[2] # "" /\ p[1] = (IF Rt(e.st).vacorcpt THEN "orcpt" ELSE "to"))
        as == SelectSeq(Texts(e, c.addresses), LAMBDA x : x # "")
    IN [i \in 1..Len(env) |-> env[i][2]] \o as \o (IF Cx(e.st).user = "" THEN <<>> ELSE <<Cx(e.st).user>>)
ListFields == {"list-archive", "list-help", "list-id", "list-owner", "list-post", "list-subscribe", "list-unsubscribe"}
RcptFields == {"to", "cc", "bcc", "resent-to", "resent-cc", "resent-bcc"}
VacationAsk(e, c) ==
    LET st == e.st
        hs == st.msg[1].h
        from == LET f == EnvOf(st, "from") IN Lower(f.v)
        own == OwnAddrs(e, c)
        mine(a) == \E i \in 1..Len(own) : EqNC(own[i], a)
        has(n, P(_)) == \E i \in 1..Len(hs) : hs[i].n = n /\ P(hs[i].v)
        suppress(v) == LET w == SplitOn(Lower(v), ",") IN \E i \in 1..Len(w) : Trim(w[i]) \in {"all", "oof"}
    IN IF \/ st.nout >= Rt(st).maxout
          \/ from = "" \/ own = <<>> \/ mine(from)
          \/ StartsWith(from, "mailer-daemon") \/ StartsWith(from, "owner-") \/ Contains(from, "-request@")
          \/ \E i \in 1..Len(hs) : hs[i].n \in ListFields
          \/ Automatic(st)
          \/ has("x-auto-response-suppress", suppress)
          \/ has("precedence", LAMBDA v : EqNC(v, "bulk"))
          \/ ~\E i \in 1..Len(hs) : hs[i].n \in RcptFields /\ LET av == AVals(hs[i], "all") IN \E j \in 1..Len(av) : mine(av[j])
          \/ CountH(st.msg, "received") > Rt(st).maxrecv
       THEN <<>>
       ELSE <<[k |-> "duplicate", id |-> "_v" \o from \o (IF c.handle # <<>> THEN Txts(e, c.handle[1]) ELSE Txts(e, c.reason)),
               expiry |-> IF c.expiry < 0 THEN Rt(st).vacexp ELSE c.expiry, last |-> FALSE]>>
RECURSIVE TrimBy(_, _, _)
TrimBy(s, a, b) == IF StartsWith(s, a) THEN TrimBy(From(s, 2), a, b) ELSE IF EndsWith(s, b) THEN TrimBy(Upto(s, Len(s) - 1), a, b) ELSE s
Reply(e, c) == \* text of the reply
    LET st == e.st
        hs == st.msg[1].h
        to == EnvOf(st, "from").v
        full == SelectSeq([i \in 1..Len(hs) |-> i], LAMBDA i : hs[i].n \in {"from", "sender"} /\ hs[i].old /\ Has(hs[i], "ad")
                    /\ \E j \in 1..Len(hs[i].ad) : EqNC(hs[i].ad[j].a, to))
        orig == SelectSeq([i \in 1..Len(hs) |-> i], LAMBDA i : hs[i].n = "subject" /\ (hs[i].v # "" \/ (~hs[i].old /\ Rt(st).vacpre # "")))
        subj == IF OptS(e, c.subject, "") # "" THEN Txts(e, c.subject[1])
                ELSE IF orig # <<>> THEN CutSubject(Rt(st).vacpre \o hs[orig[1]].v) ELSE Rt(st).vacsubj
        ids == SelectSeq([i \in 1..Len(hs) |-> i], LAMBDA i : hs[i].n = "message-id")
        idOf(h) == IF Has(h, "idv") THEN h.idv ELSE TrimBy(h.v, "<", ">")
        refs == SelectSeq([i \in 1..Len(hs) |-> i], LAMBDA i : hs[i].n = "references" /\ hs[i].old)
        body(h) == From(h.raw, IndexFrom(h.raw, ":", 1) + 1)
        from == IF c.from # <<>> THEN Txts(e, c.from[1]) ELSE IF Cx(st).user # "" THEN UserFrom(st) ELSE EnvOf(st, "to").v
    IN FieldLine("From", Clean(st, from))
       \o (IF full # <<>> THEN "To:" \o body(hs[Last(full)]) ELSE FieldLine("To", Clean(st, to)))
       \o FieldLine("Subject", Clean(st, subj))
       \o (IF ids = <<>> THEN ""
           ELSE LET id == idOf(hs[Last(ids)]) IN
                FieldLine("In-Reply-To", "<" \o id \o ">")
                \o (IF refs = <<>> THEN FieldLine("References", "<" \o id \o ">") ELSE "References: <" \o id \o "> " \o body(hs[Last(refs)])))
       \o FieldLine("Date", GenDate) \o FieldLine("Message-ID", GenId) \o FieldLine("Auto-Submitted", "auto-replied")
       \o (IF c.mime THEN "" ELSE "Content-type: text/plain; charset=utf-8\r\n\r\n")
       \o Txts(e, c.reason)
Vacation(e, c) == \* the reply is sent
    LET st == e.st n == st.lmid + 1 IN
    ResOut([st EXCEPT !.lmid = n, !.nout = @ + 1],
           <<[k |-> "created", mid |-> n, msg |-> Reply(e, c)],
             SendEv([t |-> "address", v |-> <<EnvOf(st, "from").v>>], n)>> \o FccEvs(e, c.fcc, n))

AngleAddr(a) == IF Contains(a, "<") THEN a ELSE "<" \o a \o ">"
CoreAddr(a) == \* address between the last angle brackets
    LET i == LastIdxOf(a, "<") r == From(a, i + 1) j == LastIdxOf(r, ">") IN IF i = 0 \/ j = 0 THEN a ELSE Upto(r, j - 1)
RcptLine(st, n, as) ==
    IF as = <<>> THEN ""
    ELSE FieldLine(n, Join([i \in 1..Len(as) |-> IF Contains(as[i], "<") THEN Clean(st, as[i]) ELSE "<" \o Clean(st, as[i]) \o ">"], ", "))
NoticeText(e, c, m) ==
    LET st == e.st
        from == IF c.from # <<>> /\ Contains(Lower(Txts(e, c.from[1])), Lower(Cx(st).user)) THEN Txts(e, c.from[1]) ELSE UserFrom(st)
        own == SelectSeq(m.h, LAMBDA x : IsHName(x.n) /\ x.n \notin {"From", "Subject"})
        has(n) == \E i \in 1..Len(m.h) : m.h[i].n = n
        imp == OptS(e, c.importance, "2")
        said == OptTxt(e, c.message)
        orig == LastText(st, "subject")
        us == SelectSeq(m.h, LAMBDA x : x.n = "Subject")
        subj == IF us # <<>> THEN Last(us).v ELSE IF said # <<>> THEN said[1] ELSE IF orig # <<>> THEN orig[1] ELSE ""
    IN FieldLine("From", Clean(st, from)) \o RcptLine(st, "To", m.to) \o RcptLine(st, "Cc", m.cc)
       \o JoinChars([i \in 1..Len(own) |-> FieldLine(own[i].n, Clean(st, own[i].v))])
       \o (IF has("Date") THEN "" ELSE FieldLine("Date", GenDate)) \o (IF has("Message-ID") THEN "" ELSE FieldLine("Message-ID", GenId))
       \o FieldLine("Importance", CASE imp = "1" -> "High" [] imp = "3" -> "Low" [] OTHER -> "Normal")
       \o FieldLine("X-Priority", CASE imp = "1" -> "1 (High)" [] imp = "3" -> "5 (Low)" [] OTHER -> "3 (Normal)")
       \o FieldLine("Subject", CutSubject(NoCrLf(subj, 1000000)))
       \o FieldLine("Auto-Submitted", "auto-notified") \o FieldLine("X-Sieve", "yes")
       \o "Content-type: text/plain; charset=utf-8\r\n\r\n"
       \o (IF m.body # <<>> THEN m.body[1] ELSE IF said # <<>> THEN said[1] ELSE IF orig # <<>> THEN orig[1] ELSE "")
Notify(e, c) ==
    LET st == e.st
        uri == Txts(e, c.method)
        x == UriSplit(uri)
        mail == x # <<>> /\ EqNC(x[1].s, "mailto")
        m == IF mail THEN Mailto(x[1].r) ELSE <<[to |-> <<>>, cc |-> <<>>, bcc |-> <<>>, h |-> <<>>, body |-> <<>>]>>
        orig == LastText(st, "subject")
        made == mail \/ c.fcc.on
        n == IF made THEN st.lmid + 1 ELSE st.lmid
    IN IF st.nout >= Rt(st).maxout \/ Automatic(st) \/ x = <<>> \/ m = <<>> THEN Res(st)
       ELSE ResOut([st EXCEPT !.lmid = n, !.nout = @ + 1],
              (IF made THEN <<[k |-> "created", mid |-> n, msg |-> NoticeText(e, c, m[1])]>> ELSE <<>>)
              \o (IF mail THEN LET a == m[1].to \o m[1].cc \o m[1].bcc IN
                        <<SendEv([t |-> "group", v |-> [i \in 1..Len(a) |-> CoreAddr(a[i])]], n)>>
                  ELSE <<[k |-> "notify", method |-> uri, from |-> OptTxt(e, c.from),
                          importance |-> CASE OptS(e, c.importance, "2") = "1" -> "high" [] OptS(e, c.importance, "2") = "3" -> "low" [] OTHER -> "normal",
                          options |-> Texts(e, c.options),
                          message |-> IF c.message # <<>> THEN Txts(e, c.message[1]) ELSE IF orig # <<>> THEN orig[1] ELSE ""]>>)
              \o FccEvs(e, c.fcc, n))

------------------------------------------------------------------------------
(* Flags *)
SetFlags(e, c) ==
    LET tg == IF c.var = <<>> THEN FlagVars ELSE c.var[1]
        toks == FlagToks(e, c.flags)
        cur == FlagsIn(Str(Fetch(e, tg)))
        add == FoldSeq(LAMBDA acc, f : IF \E i \in 1..Len(acc) : EqNC(acc[i], f) THEN acc ELSE Append(acc, f),
                       IF c.c = "addflag" THEN cur ELSE <<>>, toks)
        new == IF c.c = "removeflag" THEN SelectSeq(cur, LAMBDA f : \A i \in 1..Len(toks) : ~EqNC(toks[i], f)) ELSE add
    IN Assign(e, tg, S(Join(new, " ")))

------------------------------------------------------------------------------
(* Commands that need no control flow.  e = [st, b, id] *)
FileInto(e, c) ==
    LET folder == Txts(e, c.folder)
        v == Version(e.st)
        keepsFlags == v.st.fin # <<>> /\ v.st.fin[1].k = "keep" /\ v.st.fin[1].flags # <<>>
        s1 == IF ~c.copy /\ ~keepsFlags THEN [v.st EXCEPT !.fin = <<>>] ELSE v.st
    IN ResOut(s1, v.evs \o <<[k |-> "fileinto", folder |-> folder, flags |-> FlagArg(e, c.flags),
                 mailboxid |-> OptTxt(e, c.mbid), specialuse |-> OptTxt(e, c.su), create |-> c.create, mid |-> s1.mid]>>)
Redirect(e, c) ==
    LET st == e.st
        a == Sanitize(Txts(e, c.addr))
    IN IF a = <<>> \/ st.nred >= Rt(st).maxred \/ st.nout >= Rt(st).maxout
          \/ CountH(st.msg, "received") >= Rt(st).maxrecv THEN Res(st)
       ELSE IF ~c.list /\ EqNC(a[1], Cx(st).user) THEN Res(st)
       ELSE LET s1 == IF ~c.copy /\ st.fin # <<>> /\ st.fin[1].k = "keep" THEN [st EXCEPT !.fin = <<>>] ELSE st
                v == Version(s1)
            IN ResOut([v.st EXCEPT !.nred = @ + 1, !.nout = @ + 1],
                 v.evs \o <<[k |-> "send", rcpt |-> [t |-> IF c.list THEN "list" ELSE "address", v |-> <<a[1]>>],
                             notify |-> c.notify, ret |-> c.ret, bytime |-> c.bytime, mid |-> v.st.mid]>>)
Keep(e, c) ==
    LET v == Version(e.st) IN
    ResOut([v.st EXCEPT !.fin = <<[k |-> "keep", flags |-> FlagArg(e, c.flags), mid |-> v.st.mid]>>], v.evs)

SKey(c, name) == (IF c.global THEN "g/" ELSE "p/") \o name
Include(e, c) ==
    LET st == e.st  name == Txts(e, c.name)  key == SKey(c, name) IN
    IF name = "" THEN Res(st)
    ELSE IF c.once /\ key \in st.cache THEN Res(st)
    ELSE IF Len(st.acts) >= Rt(st).maxinc THEN ResErr(st, [k |-> "error", e |-> "includes", arg |-> ""])
    ELSE IF key \in st.cache THEN Res(PushAct(Adv(st), key))
    ELSE [Query([st EXCEPT !.wn = key], [k |-> "include", script |-> [loc |-> IF c.global THEN "global" ELSE "personal", name |-> name],
                     optional |-> c.opt], "inc", 0) EXCEPT !.lo = 1]

Simple(e, c) ==
    CASE c.c = "keep" -> Keep(e, c)
      [] c.c = "fileinto" -> FileInto(e, c)
      [] c.c = "redirect" -> Redirect(e, c)
      [] c.c = "discard" -> Res([e.st EXCEPT !.fin = <<[k |-> "discard"]>>])
      [] c.c = "reject" -> ResOut([e.st EXCEPT !.fin = <<>>], <<[k |-> "reject", extended |-> c.ext, reason |-> Txts(e, c.reason)]>>)
      [] c.c = "set" -> LET s1 == Assign(e, c.name, Modified(e, c.mods, Val(e, c.v))) IN ResOut([s1 EXCEPT !.q = <<>>], s1.q)
      [] c.c \in {"setflag", "addflag", "removeflag"} -> Res(SetFlags(e, c))
      [] c.c = "replace" -> Res(Replace(e, c))
      [] c.c = "enclose" -> Res(Enclose(e, c))
      [] c.c = "convert" -> Res(Convert(e, c).st)
      [] c.c = "extracttext" -> LET s1 == ExtractText(e, c) IN ResOut([s1 EXCEPT !.q = <<>>], s1.q)
      [] c.c = "notify" -> Notify(e, c)
      [] c.c = "addheader" -> Res(AddHeader(e, c))
      [] c.c = "deleteheader" -> Res(DeleteHeader(e, c))
      [] c.c = "require" ->
            LET bad == SelectSeq(c.caps, LAMBDA x : ~CapOk(e.st, x)) IN
            IF bad = <<>> THEN Res(e.st)
            ELSE ResErr(e.st, [k |-> "error", e |-> IF bad[1] \in Range(Rt(e.st).known) THEN "notallowed" ELSE "notsupported", arg |-> bad[1]])
      [] c.c = "error" -> ResErr(e.st, [k |-> "error", e |-> "script", arg |-> Txts(e, c.msg)])
      [] c.c = "invalid" -> ResErr(e.st, [k |-> "error", e |-> "invalid", arg |-> c.name])
      [] c.c = "global" -> [Res(e.st) EXCEPT !.lo = 0, !.hi = 0]

------------------------------------------------------------------------------
(* One step: run the next command of the innermost activation.              *)
RECURSIVE PickBranch(_, _, _, _)
\* first branch whose condition holds: [i (0 = none), st, need, n, lf]
PickBranch(e, c, i, a) ==
    IF i > Len(c.br) THEN [a EXCEPT !.i = 0]
    ELSE LET r == Ev([e EXCEPT !.st = a.st, !.id = c.id], c.br[i].t, a.n) IN
         IF r.need # <<>> THEN [i |-> i, st |-> a.st, need |-> r.need, n |-> r.n, lf |-> a.lf + r.lf]
         ELSE IF r.r THEN [i |-> i, st |-> r.st, need |-> <<>>, n |-> r.n, lf |-> a.lf + r.lf]
         ELSE PickBranch(e, c, i + 1, [i |-> 0, st |-> r.st, need |-> <<>>, n |-> r.n, lf |-> a.lf + r.lf])
NoAns(st) == [st EXCEPT !.ans = <<>>]
WaitFor(ev) == IF ev.k = "function" THEN "fnc" ELSE "answer"

StepIf(e, c) ==
    LET p == PickBranch(e, c, 1, [i |-> 0, st |-> e.st, need |-> <<>>, n |-> 0, lf |-> 0]) IN
    IF p.need # <<>> /\ p.need[1].k = "error" THEN [ResErr(NoAns(e.st), p.need[1]) EXCEPT !.pk = 2 * p.lf + 1]
    ELSE IF p.need # <<>> THEN [ResOut(e.st, p.need) EXCEPT !.w = WaitFor(p.need[1]), !.lo = 0, !.hi = 1, !.pk = 2 * p.lf + 1]
    ELSE LET s1 == Adv(NoAns(p.st))
             b == IF p.i > 0 THEN c.br[p.i].b ELSE IF c.el = <<>> THEN 0 ELSE c.el[1]
             r == Res(IF b = 0 THEN s1 ELSE PushFrame(s1, Fr(IF p.i > 0 /\ (p.i < Len(c.br) \/ c.el # <<>>) THEN "ifj" ELSE "br", b, "")))
         IN [r EXCEPT !.lo = p.lf, !.hi = 2 * p.lf + 1 + Len(e.st.ans)]
StepWhile(e, c) ==
    LET x == Ex(e, c.e, 0) IN
    IF x.need # <<>> THEN [ResOut(e.st, x.need) EXCEPT !.w = "fnc", !.lo = 0, !.hi = 1]
    ELSE IF ToBool(x.v)
         THEN [Res(PushFrame(SetFrame(NoAns(e.st), [FrameOf(e.st) EXCEPT !.lp = TRUE]), Fr("while", c.b, ""))) EXCEPT !.hi = 2 + Len(e.st.ans)]
         ELSE [Res(Adv(NoAns(e.st))) EXCEPT !.hi = 2 + Len(e.st.ans)]
StepFep(e, c) ==
    LET st == e.st
        s1 == IF FrameOf(st).lp THEN st
              ELSE [SetFrame(st, [FrameOf(st) EXCEPT !.lp = TRUE]) EXCEPT
                      !.pstk = Append(@, [part |-> st.part, pit |-> st.pit]),
                      !.pit = Visit(st.msg, st.part, st.pstk = <<>>)]
        cost == IF FrameOf(st).lp THEN 2 ELSE 3
    IN IF s1.pit # <<>>
       THEN [Res(PushFrame([s1 EXCEPT !.part = Head(s1.pit), !.pit = Tail(@)], Fr("fep", c.b, c.label))) EXCEPT !.hi = cost]
       ELSE [Res(Adv(PopPart(s1))) EXCEPT !.hi = cost]
StepLet(e, c) ==
    LET x == Ex(e, c.e, 0) IN
    IF x.need # <<>> THEN [ResOut(e.st, x.need) EXCEPT !.w = "fnc", !.lo = 0, !.hi = 1]
    ELSE LET s1 == Adv(Assign([e EXCEPT !.st = NoAns(e.st)], c.name, x.v))
         IN [Res(s1) EXCEPT !.hi = 1 + Len(e.st.ans)]
StepEval(e, c) ==
    LET x == Ex(e, c.e, 0) IN
    IF x.need # <<>> THEN [ResOut(e.st, x.need) EXCEPT !.w = "fnc", !.lo = 0, !.hi = 1]
    ELSE [Res(Adv(NoAns(e.st))) EXCEPT !.hi = 1 + Len(e.st.ans)]

StepVacation(e, c) ==
    LET q == VacationAsk(e, c) IN
    IF q = <<>> THEN [Res(Adv(NoAns(e.st))) EXCEPT !.hi = 3]
    ELSE IF e.st.ans = <<>> THEN [ResOut(e.st, q) EXCEPT !.w = "answer", !.lo = 0, !.hi = 1]
    ELSE IF e.st.ans[1] THEN [Res(Adv(NoAns(e.st))) EXCEPT !.hi = 4]
    ELSE LET r == Vacation([e EXCEPT !.st = NoAns(e.st)], c) IN [r EXCEPT !.st = Adv(@), !.hi = 4]

EndBlock(st) ==
    LET f == FrameOf(st)
        cl == ClearBlock(st, f.b)
        cost == (IF HasClear(st, f.b) THEN 1 ELSE 0) + (IF f.k = "br" THEN 0 ELSE 1)
    IN IF f.k = "main"
       THEN LET s1 == [st EXCEPT !.acts = Front(@)] IN
            IF s1.acts = <<>> THEN Finish(s1) ELSE [Res(s1) EXCEPT !.lo = 0, !.hi = 0]
       ELSE [Res(PopFrame(cl)) EXCEPT !.lo = 0, !.hi = cost]

StepBreak(st, c) ==
    LET d == MaxOf(Depths(st, IF c.label = "" THEN {"while", "fep"} ELSE {"fep"}, c.label)) IN
    [Res(Adv(LeaveTo(st, d))) EXCEPT !.hi = 2]
StepContinue(st) ==
    LET d == MaxOf(Depths(st, {"while"}, "")) IN [Res(LeaveTo(st, d)) EXCEPT !.hi = 2]
StepReturn(st) ==
    LET feps == Cardinality(Depths(st, {"fep"}, ""))
        s1 == [PopParts(st, feps) EXCEPT !.acts = Front(@)]
    IN IF s1.acts = <<>> THEN [Finish(s1) EXCEPT !.lo = 1, !.hi = 2] ELSE [Res(s1) EXCEPT !.hi = 2]

Step(st) ==
    LET f == FrameOf(st)
        cmds == Sc(st).blocks[f.b].c
    IN IF f.i > Len(cmds) THEN EndBlock(st)
       ELSE LET c == cmds[f.i]
                e == [st |-> st, b |-> f.b, id |-> c.id]
            IN CASE c.c = "if" -> StepIf(e, c)
                 [] c.c = "while" -> StepWhile(e, c)
                 [] c.c = "fep" -> StepFep(e, c)
                 [] c.c = "let" -> StepLet(e, c)
                 [] c.c = "eval" -> StepEval(e, c)
                 [] c.c = "vacation" -> StepVacation(e, c)
                 [] c.c = "break" -> StepBreak(st, c)
                 [] c.c = "continue" -> StepContinue(st)
                 [] c.c = "return" -> StepReturn(st)
                 [] c.c = "stop" -> [Finish(st) EXCEPT !.lo = 1, !.hi = 1]
                 [] c.c = "include" -> LET r == Include(e, c) IN
                        IF r.err # <<>> \/ Len(r.st.acts) > Len(st.acts) THEN r ELSE [r EXCEPT !.st = Adv(@)]
                 [] OTHER -> LET r == Simple(e, c) IN IF r.err # <<>> THEN r ELSE [r EXCEPT !.st = Adv(@)]

------------------------------------------------------------------------------
(* Life cycle *)
InitSt(i, now) ==
    LET c == CaseOf(i) IN
    [ci |-> i, ph |-> "wait", w |-> "script", wn |-> "main", acts |-> <<>>,
     glob |-> [n \in {p[1] : p \in Range(c.ctx.globals)} |-> PairGet(c.ctx.globals, n)[1]],
     env |-> c.ctx.envelope, cache |-> {},
     fin |-> <<Keep0>>, q |-> <<>>, msg |-> c.msg.parts, part |-> 0, pit |-> <<>>, pstk |-> <<>>,
     mid |-> 0, lmid |-> 0, chg |-> FALSE, nred |-> 0, nout |-> 0, sz |-> c.msg.size,
     lo |-> 0, hi |-> 0, ans |-> <<>>, now |-> now]

\* deliver the outputs of a result: the first now, the rest later
Settle(r) == [r.st EXCEPT !.q = IF r.out = <<>> THEN <<>> ELSE Tail(r.out),
                          !.w = r.w, !.ph = IF r.out = <<>> THEN "run" ELSE "wait",
                          !.lo = @ + r.lo, !.hi = @ + r.hi]
CpuErr == [k |-> "error", e |-> "cpu", arg |-> ""]
\* outcomes of running one step from a "run" state: sequence of [st, out]
Outcomes(st) ==
    IF st.q # <<>> THEN <<[st |-> [st EXCEPT !.q = Tail(@), !.ph = "wait", !.w = "ack"], out |-> <<Head(st.q)>>]>>
    ELSE IF st.acts = <<>> THEN <<[st |-> [st EXCEPT !.ph = "wait", !.w = "none"], out |-> <<[k |-> "end"]>>]>>
    ELSE LET r == Step(st)
             lim == Rt(st).cpu
             okr == IF r.err = <<>> THEN r ELSE Fail(r.st, r.err[1])
             ok == IF st.lo + r.lo > lim THEN <<>>
                   ELSE <<[st |-> Settle([okr EXCEPT !.lo = r.lo, !.hi = r.hi]),
                           out |-> IF okr.out = <<>> THEN <<>> ELSE <<Head(okr.out)>>]>>
             f == Fail(NoAns(st), CpuErr)
             no == IF st.hi + Max(r.hi, r.pk) <= lim THEN <<>> ELSE <<[st |-> Settle(f), out |-> <<CpuErr>>]>>
         IN ok \o no
IsEnd(st) == st.ph = "wait" /\ st.w = "none"

\* the host hands in x while the machine waits
Accepts(st, x) ==
    CASE st.w = "script" -> x.k = "script"
      [] st.w = "ack" -> x.k = "ack"
      [] st.w = "answer" -> x.k = "answer"
      [] st.w = "fnc" -> x.k = "fnc"
      [] st.w = "inc" -> x.k \in {"incscript", "noscript"}
      [] OTHER -> FALSE
Feed(st, x) ==
    LET s == [st EXCEPT !.ph = "run", !.w = ""] IN
    CASE x.k = "script" -> [PushAct(s, "main") EXCEPT !.cache = {"p/main"}]
      [] x.k = "incscript" -> [PushAct(s, st.wn) EXCEPT !.cache = @ \cup {st.wn}]
      [] x.k \in {"answer", "fnc"} -> [s EXCEPT !.ans = Append(@, x.v)]
      [] OTHER -> s
=============================================================================
