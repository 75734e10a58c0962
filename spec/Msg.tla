--------------------------------- MODULE Msg ---------------------------------
(***************************************************************************)
(* MIME messages as Sieve sees them.                                        *)
(*                                                                          *)
(* A message is a sequence of parts (part id = index - 1; the list is in    *)
(* order of appearance, so a multipart precedes its children):              *)
(*   h    header fields, in order                                           *)
(*   k    "text", "html", "multi", "bin" or "msg"                           *)
(*   ch   ids of the children of a multipart                                *)
(*   txt  decoded text (text, html)                                         *)
(*   raw  octets of the body as they stand in the source                    *)
(*   segs for a multipart from the source: the octets between its children  *)
(*   body octets of the body in the source, of a multipart with all inside it *)
(*   head octets of the header in the source; dec decoded octets (bin)      *)
(*   htxt text rendering of html and xml parts; xml: application/...xml...  *)
(*   inl  the part is shown inline (its text is part of the message's text)  *)
(*   nw   the part's body was produced by the script (not from the source)  *)
(*   sep  write an empty line between header and body                       *)
(*   bd   boundary of a generated multipart                                 *)
(*   tail octets of the source after the end of the part (part 0)           *)
(*   msg  the enclosed message (k = "msg")                                  *)
(* A header field:                                                          *)
(*   n lower-case name, rn name as written, raw the whole field in source   *)
(*   form, old (it is in the source), v its text, ad addresses, ct content  *)
(*   type.                                                                  *)
(***************************************************************************)
EXTENDS Match

Hdr(rn, v) == [n |-> Lower(rn), rn |-> rn, v |-> v, old |-> FALSE, raw |-> rn \o ": " \o v \o "\r\n"]
HdrIs(h, n) == h.n = n

------------------------------------------------------------------------------
(* Octets of a message.  The boundary of a generated multipart is written    *)
(* BOUNDARY-d, where d is the number of generated multiparts around it + 1.  *)
RECURSIVE EmitPart(_, _, _), EmitKids(_, _, _, _, _), EmitBound(_, _, _, _)
EmitHdrs(hs) == JoinChars([i \in 1..Len(hs) |-> hs[i].raw])
BndText(d) == "BOUNDARY-" \o ToString(d)
EmitPart(ps, id, d) ==
    LET p == ps[id + 1]
        gen == p.nw /\ p.k = "multi"
        hs == EmitHdrs(p.h)
    IN (IF gen THEN ReplaceAll(hs, BndText(0), BndText(d)) ELSE hs) \o (IF p.sep THEN "\r\n" ELSE "") \o
    (IF ~p.nw THEN IF p.k = "multi" THEN p.segs[1] \o EmitKids(ps, p.ch, p.segs, 1, d) ELSE p.raw
     ELSE CASE p.k = "msg" -> EmitPart(p.msg, 0, d) \o p.msg[1].tail
            [] p.k = "multi" -> EmitBound(ps, p, 1, d)
            [] OTHER -> p.txt)
EmitKids(ps, ch, segs, i, d) ==
    IF i > Len(ch) THEN "" ELSE EmitPart(ps, ch[i], d) \o segs[i + 1] \o EmitKids(ps, ch, segs, i + 1, d)
EmitBound(ps, p, i, d) ==
    IF i > Len(p.ch) THEN "\r\n--" \o BndText(d) \o "--\r\n"
    ELSE "\r\n--" \o BndText(d) \o "\r\n" \o EmitPart(ps, p.ch[i], d + 1) \o EmitBound(ps, p, i + 1, d)
EmitMsg(ps) == EmitPart(ps, 0, 1) \o ps[1].tail

------------------------------------------------------------------------------
(* Navigation *)
RECURSIVE Desc(_, _), DescAll(_, _, _)
Kids(ps, id) == IF ps[id + 1].k = "multi" THEN ps[id + 1].ch ELSE <<>>
DescAll(ps, ch, i) == IF i > Len(ch) THEN <<>> ELSE <<ch[i]>> \o Desc(ps, ch[i]) \o DescAll(ps, ch, i + 1)
\* all parts below id, in document order
Desc(ps, id) == DescAll(ps, Kids(ps, id), 1)
\* parts inspected by a test at part id
Scope(ps, id, anychild) == IF anychild THEN <<id>> \o Desc(ps, id) ELSE <<id>>
\* parts visited by foreverypart started at part id
Visit(ps, id, outer) == (IF outer THEN <<id>> ELSE <<>>) \o Desc(ps, id)

\* Header fields addressed by (names, index, anychild) from part id: a sequence of
\* [p |-> part, i |-> position], part by part, name by name, in order.
HPos(p, n) == SelectSeq([i \in 1..Len(p.h) |-> i], LAMBDA i : HdrIs(p.h[i], n))
HPick(pos, idx) ==
    IF idx = 0 THEN pos
    ELSE IF idx > 0 THEN IF idx <= Len(pos) THEN <<pos[idx]>> ELSE <<>>
    ELSE IF 0 - idx <= Len(pos) THEN <<pos[Len(pos) + 1 + idx]>> ELSE <<>>
FindH(ps, id, names, idx, anychild) ==
    LET sc == Scope(ps, id, anychild) IN
    FlattenSeq([a \in 1..Len(sc) |->
        FlattenSeq([b \in 1..Len(names) |->
            LET pk == HPick(HPos(ps[sc[a] + 1], names[b]), idx) IN
            [c \in 1..Len(pk) |-> [p |-> sc[a], i |-> pk[c]]]])])
HAt(ps, f) == ps[f.p + 1].h[f.i]
CountH(ps, n) == Len(HPos(ps[1], n))

------------------------------------------------------------------------------
(* Header values *)
\* content type of a generated field "type/sub; name=value; ..."
CtParse(v) ==
    LET f == SplitOn(v, ";")
        ty == SplitOn(Lower(Trim(f[1])), "/")
        unq(s) == IF Len(s) >= 2 /\ Ch(s, 1) = "\"" /\ Ch(s, Len(s)) = "\"" THEN SubSeq(s, 2, Len(s) - 1) ELSE s
        at == [i \in 1..(Len(f) - 1) |-> LET p == SplitOn(f[i + 1], "=") IN
                  [n |-> Trim(p[1]), v |-> IF Len(p) > 1 THEN unq(Trim(p[2])) ELSE ""]]
    IN [t |-> ty[1], s |-> IF Len(ty) > 1 THEN ty[2] ELSE "", at |-> at]
CtOf(h) == IF h.old THEN (IF Has(h, "ct") THEN <<h.ct>> ELSE <<>>)
           ELSE <<CtParse(h.v)>>
HVals(h, mo) == \* values inspected by the header test, mo = [k, ps (parameter names)]
    IF mo.k = "" THEN <<h.v>>
    ELSE LET c == CtOf(h) IN
         IF c = <<>> THEN <<"">>
         ELSE CASE mo.k = "type" -> <<c[1].t>>
                [] mo.k = "subtype" -> <<c[1].s>>
                [] mo.k = "contenttype" -> <<IF c[1].s = "" THEN c[1].t ELSE c[1].t \o "/" \o c[1].s>>
                [] mo.k = "param" ->
                     FlattenSeq([i \in 1..Len(mo.ps) |->
                        LET m == SelectSeq(c[1].at, LAMBDA a : EqNC(a.n, mo.ps[i])) IN
                        [j \in 1..Len(m) |-> m[j].v]]) \o <<"">>
HCount(h, mo) ==
    IF mo.k = "" THEN 1
    ELSE LET c == IF h.old THEN CtOf(h) ELSE <<>> IN
         IF c = <<>> THEN 0
         ELSE IF mo.k = "param"
              THEN Len(SelectSeq(c[1].at, LAMBDA a : \E i \in 1..Len(mo.ps) : EqNC(a.n, mo.ps[i])))
              ELSE 1

\* Addresses.  A part of an address that is absent is <<>>, else <<text>>.
AtIdx(s) == IndexFrom(s, "@", 1)
LocalPart(s) == LET a == AtIdx(s) IN IF a > 1 /\ a < Len(s) THEN <<Upto(s, a - 1)>> ELSE <<>>
DomainPart(s) == LET a == AtIdx(s) IN IF a > 1 /\ a < Len(s) THEN <<From(s, a + 1)>> ELSE <<>>
UserPart(s) ==
    LET l == LocalPart(s) IN
    IF l = <<>> THEN <<>>
    ELSE LET p == IndexFrom(l[1], "+", 1)
         IN IF p = 1 THEN <<>> ELSE <<IF p = 0 THEN l[1] ELSE Upto(l[1], p - 1)>>
RECURSIVE LastIdx(_, _, _)
LastIdx(s, c, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE LastIdx(s, c, i - 1)
DetailPart(s) ==
    LET l == LocalPart(s) IN
    IF l = <<>> THEN <<>>
    ELSE LET p == LastIdx(l[1], "+", Len(l[1])) IN IF p = 0 THEN <<>> ELSE <<From(l[1], p + 1)>>
AddrPart(part, s) ==
    IF s = "" THEN <<s>>
    ELSE CASE part = "all" -> <<s>> [] part = "localpart" -> LocalPart(s) [] part = "domain" -> DomainPart(s)
           [] part = "user" -> UserPart(s) [] part = "detail" -> DetailPart(s)
\* an address record [nm, a] of a header field (either may be "": absent)
AddrOf(part, r) ==
    IF part = "name" THEN (IF r.nm = "" THEN <<>> ELSE <<r.nm>>)
    ELSE LET e == IF r.a # "" THEN r.a ELSE r.nm IN
         IF e = "" THEN <<>> ELSE AddrPart(part, e)

\* address list of a generated field: a, "n" <a>, ...
OneAddr(s0) ==
    LET s == Trim(s0)
        l == IndexFrom(s, "<", 1)
        r == IndexFrom(s, ">", 1)
        nm == IF l > 1 THEN Trim(Upto(s, l - 1)) ELSE ""
        un == IF Len(nm) >= 2 /\ Ch(nm, 1) = "\"" THEN SubSeq(nm, 2, Len(nm) - 1) ELSE nm
    IN IF l > 0 /\ r > l THEN [nm |-> un, a |-> SubSeq(s, l + 1, r - 1)] ELSE [nm |-> "", a |-> s]
AddrList(h) ==
    IF h.old THEN (IF Has(h, "ad") THEN <<h.ad>> ELSE <<>>)
    ELSE LET p == SelectSeq(SplitOn(h.v, ","), LAMBDA x : Trim(x) # "") IN
         IF p = <<>> THEN <<>> ELSE <<[i \in 1..Len(p) |-> OneAddr(p[i])]>>
AVals(h, part) ==
    LET l == AddrList(h) IN
    IF l = <<>> THEN <<"">> ELSE FlattenSeq([i \in 1..Len(l[1]) |-> AddrOf(part, l[1][i])])
==============================================================================
