------------------------------- MODULE Match -------------------------------
(***************************************************************************)
(* Match types and comparators (RFC 5228 section 2.7, RFC 5229, RFC 5231,   *)
(* draft-ietf-sieve-regex), and captures.                                   *)
(*                                                                          *)
(* Run-time values are records [t |-> "s"/"i"/"f"/"a", v |-> ...].          *)
(***************************************************************************)
EXTENDS Util

S(x) == [t |-> "s", v |-> x]
I(n) == [t |-> "i", v |-> n]
Nul == S("")
RECURSIVE JoinLines(_, _, _)
JoinLines(vs, i, acc) ==   \* text form of a list: CRLF before an item once something was written
    IF i > Len(vs) THEN acc
    ELSE JoinLines(vs, i + 1,
            (IF acc = "" THEN acc ELSE acc \o "\r\n")
            \o (CASE vs[i].t = "s" -> vs[i].v [] vs[i].t = "i" -> ToString(vs[i].v)
                  [] vs[i].t = "f" -> vs[i].v [] OTHER -> ""))
Str(v) == CASE v.t = "s" -> v.v [] v.t = "i" -> ToString(v.v) [] v.t = "f" -> v.v
            [] OTHER -> JoinLines(v.v, 1, "")
IsNul(v) == v.t = "s" /\ v.v = ""
RECURSIVE VLen(_)
VLen(v) == CASE v.t = "s" -> ByteLen(v.v) [] v.t = "i" -> 2 [] v.t = "f" -> 2
             [] OTHER -> LET n == Len(v.v) IN
                         IF n = 0 THEN 0 ELSE VLen(v.v[n]) + 2 + VLen([v EXCEPT !.v = Front(v.v)])

------------------------------------------------------------------------------
(* Numbers for i;ascii-numeric and :count: n + f / 1000, or infinity. *)
Inf == [inf |-> TRUE, n |-> 0, f |-> 0]
Num(n) == [inf |-> FALSE, n |-> n, f |-> 0]
NumFrac(whole, frac) == \* "12", "5" -> 12.5
    LET f3 == SubSeq(frac \o "000", 1, 3) IN [inf |-> FALSE, n |-> NatOf(whole), f |-> NatOf(f3)]
Neg(x) == IF x.f = 0 THEN [x EXCEPT !.n = 0 - x.n] ELSE [x EXCEPT !.n = 0 - x.n - 1, !.f = 1000 - x.f]
\* text taken from the message (see nonnum0)
Src(x) == [t |-> "s", v |-> x, src |-> TRUE]
NumOfStr(s) ==
    IF s = "" THEN Inf
    ELSE IF IsInt(s) THEN Num(IntOf(s))
    ELSE IF ~Contains(s, ".") THEN Inf
    ELSE LET neg == Ch(s, 1) = "-"
             p == SplitOn(IF neg THEN From(s, 2) ELSE s, ".") IN
         IF Len(p) = 2 /\ IsDigits(p[1]) /\ IsDigits(p[2])
         THEN IF neg THEN Neg(NumFrac(p[1], p[2])) ELSE NumFrac(p[1], p[2])
         ELSE Inf
NumOf(v) == CASE Has(v, "src") /\ Dev("nonnum0") /\ NumOfStr(v.v).inf -> Num(0)
            [] v.t = "i" -> Num(v.v) [] v.t = "s" -> NumOfStr(v.v) [] v.t = "f" -> NumOfStr(v.v) [] OTHER -> Inf
NumLt(a, b) == IF a.inf THEN FALSE ELSE IF b.inf THEN TRUE ELSE a.n < b.n \/ (a.n = b.n /\ a.f < b.f)
Rel(r, lt, eq) ==
    CASE r = "gt" -> ~lt /\ ~eq [] r = "ge" -> ~lt [] r = "lt" -> lt
      [] r = "le" -> lt \/ eq [] r = "eq" -> eq [] r = "ne" -> ~eq
NumRel(r, a, b) == Rel(r, NumLt(a, b), a = b)

------------------------------------------------------------------------------
(* Glob patterns: * and ?, backslash quotes the next character. *)
RECURSIVE GlobToks(_, _)
GlobToks(p, i) ==
    IF i > Len(p) THEN <<>>
    ELSE LET c == Ch(p, i) IN
         IF c = "\\" THEN IF i = Len(p) THEN <<>> ELSE <<[k |-> "c", c |-> Ch(p, i + 1)]>> \o GlobToks(p, i + 2)
         ELSE IF c = "*" THEN <<[k |-> "*", c |-> ""]>> \o GlobToks(p, i + 1)
         ELSE IF c = "?" THEN <<[k |-> "?", c |-> ""]>> \o GlobToks(p, i + 1)
         ELSE <<[k |-> "c", c |-> c]>> \o GlobToks(p, i + 1)

TokAt(tok, v, i, fold) == \* does a one-character token accept position i
    i <= Len(v) /\ (tok.k = "?" \/ (IF fold THEN LowC(Ch(v, i)) = LowC(tok.c) ELSE Ch(v, i) = tok.c))
SegAt(toks, v, i, fold) == \A j \in 1..Len(toks) : TokAt(toks[j], v, i + j - 1, fold)

\* Segments between stars; k+1 segments for k stars
RECURSIVE GlobSegs(_)
GlobSegs(toks) ==
    LET n == FirstIdx(toks, LAMBDA t : t.k = "*") IN
    IF n = 0 THEN <<toks>> ELSE <<SubSeq(toks, 1, n - 1)>> \o GlobSegs(SubSeq(toks, n + 1, Len(toks)))

QCaps(seg, v, i) == \* captures of the ?s of a segment placed at i
    FlattenSeq([j \in 1..Len(seg) |-> IF seg[j].k = "?" THEN <<Ch(v, i + j - 1)>> ELSE <<>>])

\* Non-greedy placement: every star takes as little as possible, left to right.
\* Result: <<>> if no match, else <<captures>>.
RECURSIVE GlobRest(_, _, _, _, _)
GlobRest(segs, v, i, fold, caps) == \* segs = what follows a star that starts at position i
    IF Len(segs) = 1 THEN
        LET p == Len(v) - Len(segs[1]) + 1 IN
        IF p >= i /\ SegAt(segs[1], v, p, fold)
        THEN <<caps \o <<SubSeq(v, i, p - 1)>> \o QCaps(segs[1], v, p)>> ELSE <<>>
    ELSE LET C == {p \in i..(Len(v) - Len(segs[1]) + 1) : SegAt(segs[1], v, p, fold)} IN
         IF C = {} THEN <<>>
         ELSE LET p == CHOOSE x \in C : \A y \in C : x <= y IN
              GlobRest(Tail(segs), v, p + Len(segs[1]), fold,
                       caps \o <<SubSeq(v, i, p - 1)>> \o QCaps(segs[1], v, p))
Glob(pat, v, fold) ==
    LET segs == GlobSegs(GlobToks(pat, 1)) IN
    IF Len(segs) = 1
    THEN IF Len(segs[1]) = Len(v) /\ SegAt(segs[1], v, 1, fold) THEN <<QCaps(segs[1], v, 1)>> ELSE <<>>
    ELSE IF SegAt(segs[1], v, 1, fold)
         THEN GlobRest(Tail(segs), v, Len(segs[1]) + 1, fold, QCaps(segs[1], v, 1)) ELSE <<>>

------------------------------------------------------------------------------
(* Regular expressions, given as syntax trees:                              *)
(*   [k|->"c",c], [k|->"any"], [k|->"set",cs,neg], [k|->"grp",n,alts],      *)
(*   [k|->"rep",x,lo,hi,lazy], [k|->"bol"], [k|->"eol"]                      *)
(* an expression is a sequence of items; alts is a sequence of expressions.  *)
(* Backtracking, leftmost, first alternative first, greedy unless lazy.      *)
(* Continuation-passing over an explicit list of work items.                 *)
RECURSIVE RxRun(_, _, _, _)
NoRx == [ok |-> FALSE, i |-> 0, caps |-> <<>>]
RxChar(it, c) ==
    CASE it.k = "c" -> it.c = c
      [] it.k = "any" -> c # "\n"
      [] it.k = "set" -> (Contains(it.cs, c)) # it.neg
RxFirst(cands) == \* first successful of a sequence of thunk results
    LET i == FirstIdx(cands, LAMBDA r : r.ok) IN IF i = 0 THEN NoRx ELSE cands[i]
RxRun(work, v, i, caps) ==
    IF work = <<>> THEN [ok |-> TRUE, i |-> i, caps |-> caps]
    ELSE LET it == Head(work)  rest == Tail(work) IN
    CASE it.k \in {"c", "any", "set"} ->
            IF i <= Len(v) /\ RxChar(it, Ch(v, i)) THEN RxRun(rest, v, i + 1, caps) ELSE NoRx
      [] it.k = "bol" -> IF i = 1 THEN RxRun(rest, v, i, caps) ELSE NoRx
      [] it.k = "eol" -> IF i = Len(v) + 1 THEN RxRun(rest, v, i, caps) ELSE NoRx
      [] it.k = "close" -> RxRun(rest, v, i, [caps EXCEPT ![it.n] = <<SubSeq(v, it.i, i - 1)>>])
      [] it.k = "grp" ->
            LET RECURSIVE Alt(_)
                Alt(a) == IF a > Len(it.alts) THEN NoRx
                          ELSE LET r == RxRun(it.alts[a] \o <<[k |-> "close", n |-> it.n, i |-> i]>> \o rest, v, i, caps)
                               IN IF r.ok THEN r ELSE Alt(a + 1)
            IN Alt(1)
      [] it.k = "rep" ->
            LET more == IF it.hi = 0 THEN NoRx
                        ELSE RxRun(<<it.x, [k |-> "prog", i |-> i],
                                    [it EXCEPT !.lo = Max(it.lo - 1, 0), !.hi = it.hi - 1]>> \o rest, v, i, caps)
                done == IF it.lo > 0 THEN NoRx ELSE RxRun(rest, v, i, caps)
            IN IF it.lazy THEN (IF done.ok THEN done ELSE more)
               ELSE (IF more.ok THEN more ELSE done)
      [] it.k = "prog" -> IF i > it.i THEN RxRun(rest, v, i, caps) ELSE NoRx
RECURSIVE RxFrom(_, _, _, _)
RxFrom(rx, v, i, ng) ==
    IF i > Len(v) + 1 THEN <<>>
    ELSE LET r == RxRun(rx, v, i, [n \in 1..ng |-> <<>>]) IN
         IF r.ok THEN <<<<<<SubSeq(v, i, r.i - 1)>>>> \o r.caps>> ELSE RxFrom(rx, v, i + 1, ng)
\* <<>> or <<groups>> with groups[1] the whole match; each group <<>> or <<text>>
Rx(rx, ng, v) == RxFrom(rx, v, 1, ng)

------------------------------------------------------------------------------
(* One value against one key. m is the match clause [mt, rel, cmp]; key is a *)
(* run-time value, with field rx for regular expressions.                    *)
Fold(m) == m.cmp = "i;ascii-casemap"
CmpOct(m) == m.cmp = "i;octet"
IsNumCmp(m) == m.cmp = "i;ascii-numeric"
Txt(m, s) == IF CmpOct(m) THEN s ELSE Lower(s)
CmpIs(m, a, b) ==
    CASE CmpOct(m) -> Str(a) = Str(b)
      [] IsNumCmp(m) -> NumOf(a) = NumOf(b)
      [] OTHER -> EqNC(Str(a), Str(b))
CmpContains(m, a, b) == IF CmpOct(m) THEN Contains(a, b) ELSE Contains(Lower(a), Lower(b))
CmpRel(m, a, b) ==
    IF IsNumCmp(m) THEN NumRel(m.rel, NumOf(a), NumOf(b))
    ELSE LET x == Txt(m, Str(a)) y == Txt(m, Str(b)) IN Rel(m.rel, StrLt(x, y), x = y)

\* Captures restricted to the positions somebody refers to (mask, a set): a
\* successful match gives each of them a value, "" where nothing was captured.
GlobCaps(g, whole, mask) ==
    [n \in IF Dev("nocapture") THEN mask \cap (0..Len(g)) ELSE mask |->
        IF n = 0 THEN whole ELSE IF n <= Len(g) THEN g[n] ELSE ""]
RxCaps(g, mask) ==
    [n \in IF Dev("nocapture") THEN {i \in mask : i < Len(g) /\ g[i + 1] # <<>>} ELSE mask |->
        IF n < Len(g) /\ g[n + 1] # <<>> THEN g[n + 1][1] ELSE ""]

NoM == [r |-> FALSE, caps |-> <<>>]
YesM == [r |-> TRUE, caps |-> <<>>]
Match1(m, a, key, mask) == \* [r, caps]
    CASE m.mt = "is" -> [r |-> CmpIs(m, a, key), caps |-> <<>>]
      [] m.mt = "contains" -> [r |-> CmpContains(m, Str(a), Str(key)), caps |-> <<>>]
      [] m.mt = "value" -> [r |-> CmpRel(m, a, key), caps |-> <<>>]
      [] m.mt = "matches" ->
            LET g == Glob(Str(key), Str(a), Fold(m)) IN
            IF g = <<>> THEN NoM ELSE [r |-> TRUE, caps |-> GlobCaps(g[1], Str(a), mask)]
      [] m.mt = "regex" ->
            LET g == Rx(key.rx, key.ng, Str(a)) IN
            IF g = <<>> THEN NoM ELSE [r |-> TRUE, caps |-> RxCaps(g[1], mask)]
      [] OTHER -> NoM

RECURSIVE AnyKey(_, _, _, _, _), AnyVal(_, _, _, _, _), AnyVK(_, _, _, _, _), AnyKV(_, _, _, _, _)
AnyKey(m, a, keys, mask, i) == \* first key matching the value
    IF i > Len(keys) THEN NoM
    ELSE LET r == Match1(m, a, keys[i], mask) IN IF r.r THEN r ELSE AnyKey(m, a, keys, mask, i + 1)
AnyVal(m, vals, key, mask, i) ==
    IF i > Len(vals) THEN NoM
    ELSE LET r == Match1(m, vals[i], key, mask) IN IF r.r THEN r ELSE AnyVal(m, vals, key, mask, i + 1)
\* values outermost (header, address, envelope...) / keys outermost (string)
AnyVK(m, vals, keys, mask, i) ==
    IF i > Len(vals) THEN NoM
    ELSE LET r == AnyKey(m, vals[i], keys, mask, 1) IN IF r.r THEN r ELSE AnyVK(m, vals, keys, mask, i + 1)
AnyKV(m, vals, keys, mask, i) ==
    IF i > Len(keys) THEN NoM
    ELSE LET r == AnyVal(m, vals, keys[i], mask, 1) IN IF r.r THEN r ELSE AnyKV(m, vals, keys, mask, i + 1)
\* string, environment: with stringkeys every key is tried and the last one decides
RECURSIVE LastKV(_, _, _, _, _, _)
LastKV(m, vals, keys, mask, i, acc) ==
    IF i > Len(keys) THEN acc
    ELSE LET r == AnyVal(m, vals, keys[i], mask, 1) IN
         LastKV(m, vals, keys, mask, i + 1, [r |-> r.r, caps |-> IF r.r THEN r.caps ELSE acc.caps])
StringKV(m, vals, keys, mask) ==
    IF Dev("stringkeys") THEN LastKV(m, vals, keys, mask, 1, NoM) ELSE AnyKV(m, vals, keys, mask, 1)
CountM(m, n, keys) == [r |-> \E i \in 1..Len(keys) : NumRel(m.rel, Num(n), NumOf(keys[i])), caps |-> <<>>]
==============================================================================
