-------------------------------- MODULE Util --------------------------------
(***************************************************************************)
(* String and sequence vocabulary used by the Sieve specification.  Strings *)
(* are TLA+ strings; TLC lets Len, SubSeq and \o apply to them.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* Known departures of the implementation from the intended behaviour
\* (KNOWN_FINDINGS.txt).  With the empty set this is the intended behaviour.
\*   nonnum0       i;ascii-numeric: inspected text that is not a number is 0, not infinity
\*   stringkeys    string/environment: the outcome is that of the last key only
\*   nocapture     a position without a capture keeps the value of an earlier match
\*   existsbadname exists ignores names that cannot be header names
\*   spamcount     :count of spamtest/virustest compares 1.1 instead of 1
\*   nearest       ${n} makes only the match tests of the nearest enclosing block record
\*   prologue      body :content takes the first part of a multipart without a preamble for its preamble
\*   leave         break/continue keep the variables and captures of the blocks they leave
CONSTANT Deviations
Dev(d) == d \in Deviations

Range(f) == {f[x] : x \in DOMAIN f}

RECURSIVE FoldSeq(_, _, _)
\* FoldSeq(op, base, s) = op(...op(op(base, s[1]), s[2])..., s[n])
FoldSeq(op(_, _), base, s) ==
    IF s = <<>> THEN base ELSE FoldSeq(op, op(base, Head(s)), Tail(s))

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SelSeq(s, T(_)) == SelectSeq(s, T)
MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
AnySeq(s, T(_)) == \E i \in 1..Len(s) : T(s[i])
AllSeq(s, T(_)) == \A i \in 1..Len(s) : T(s[i])
Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
FirstIdx(s, T(_)) ==  \* least index satisfying T, 0 if none
    IF \E i \in 1..Len(s) : T(s[i])
    THEN CHOOSE i \in 1..Len(s) : T(s[i]) /\ \A j \in 1..(i-1) : ~T(s[j])
    ELSE 0

RECURSIVE FlattenSeq(_)
FlattenSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq(Tail(ss))

------------------------------------------------------------------------------
(* Characters *)
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

LowerAlpha == "abcdefghijklmnopqrstuvwxyz"
UpperAlpha == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
\* Printable ASCII in code point order (32..126)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharSet(s) == {Ch(s, i) : i \in 1..Len(s)}
Digits == CharSet("0123456789")
Alnum == CharSet(LowerAlpha) \cup CharSet(UpperAlpha) \cup Digits
WS == {" ", "\t", "\r", "\n"}

\* Letters beyond ASCII are described by a data file (their source form does
\* not survive every TLA+ parser setting): c, its lower and upper case, and the
\* number of octets of its encoding.
Extra == TLCEval(ndJsonDeserialize("chars.ndjson"))
ExtraRng == 1..Len(Extra)
LowerTab == TLCEval(
    [c \in CharSet(UpperAlpha) |-> Ch(LowerAlpha, CHOOSE i \in 1..26 : Ch(UpperAlpha, i) = c)]
    @@ [c \in {Extra[i].c : i \in ExtraRng} |-> Extra[CHOOSE i \in ExtraRng : Extra[i].c = c].lo])
UpperTab == TLCEval(
    [c \in CharSet(LowerAlpha) |-> Ch(UpperAlpha, CHOOSE i \in 1..26 : Ch(LowerAlpha, i) = c)]
    @@ [c \in {Extra[i].c : i \in ExtraRng} |-> Extra[CHOOSE i \in ExtraRng : Extra[i].c = c].up])
ByteTab == TLCEval([c \in {Extra[i].c : i \in ExtraRng} |-> Extra[CHOOSE i \in ExtraRng : Extra[i].c = c].b])
HexTab == TLCEval([c \in {Extra[i].c : i \in ExtraRng} |-> Extra[CHOOSE i \in ExtraRng : Extra[i].c = c].x])
LowC(c) == IF c \in DOMAIN LowerTab THEN LowerTab[c] ELSE c
UpC(c) == IF c \in DOMAIN UpperTab THEN UpperTab[c] ELSE c
OrdTab == TLCEval([c \in CharSet(Ascii) |-> 31 + CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c]
            @@ ("\t" :> 9) @@ ("\n" :> 10) @@ ("\r" :> 13))
Ord(c) == IF c \in DOMAIN OrdTab THEN OrdTab[c] ELSE 1000
CLen(c) == IF c \in DOMAIN OrdTab THEN 1 ELSE IF c \in DOMAIN ByteTab THEN ByteTab[c] ELSE 1
DigitTab == TLCEval([c \in Digits |-> (CHOOSE i \in 0..9 : Ch("0123456789", i + 1) = c)])
DigitVal(c) == DigitTab[c]

RECURSIVE SumC(_, _, _)
SumC(s, i, n) == IF i > Len(s) THEN n ELSE SumC(s, i + 1, n + CLen(Ch(s, i)))
IsAscii(s) == \A i \in 1..Len(s) : Ch(s, i) \in DOMAIN OrdTab
ByteLen(s) == IF IsAscii(s) THEN Len(s) ELSE SumC(s, 1, 0)
RECURSIVE CutFrom(_, _, _)
CutFrom(s, i, room) ==
    IF i > Len(s) THEN s
    ELSE IF CLen(Ch(s, i)) > room THEN SubSeq(s, 1, i - 1)
    ELSE CutFrom(s, i + 1, room - CLen(Ch(s, i)))
\* longest prefix of whole characters that fits in n octets
CutTo(s, n) == IF ByteLen(s) <= n THEN s ELSE CutFrom(s, 1, n)

RECURSIVE JoinChars(_)
JoinChars(cs) ==
    IF cs = <<>> THEN ""
    ELSE IF Len(cs) = 1 THEN cs[1]
    ELSE LET h == Len(cs) \div 2 IN JoinChars(SubSeq(cs, 1, h)) \o JoinChars(SubSeq(cs, h + 1, Len(cs)))

Lower(s) == JoinChars([i \in 1..Len(s) |-> LowC(Ch(s, i))])
Upper(s) == JoinChars([i \in 1..Len(s) |-> UpC(Ch(s, i))])
EqNC(a, b) == a = b \/ (Len(a) = Len(b) /\ \A i \in 1..Len(a) : LowC(Ch(a, i)) = LowC(Ch(b, i)))

RECURSIVE Join(_, _)
Join(ss, sep) ==
    IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

Contains(h, n) == n = "" \/ \E i \in 1..(Len(h) - Len(n) + 1) : SubSeq(h, i, i + Len(n) - 1) = n
StartsWith(h, n) == Len(h) >= Len(n) /\ SubSeq(h, 1, Len(n)) = n
EndsWith(h, n) == Len(h) >= Len(n) /\ SubSeq(h, Len(h) - Len(n) + 1, Len(h)) = n
IndexFrom(h, n, k) == \* first index >= k at which n occurs, 0 if none (n # "")
    LET S == {i \in k..(Len(h) - Len(n) + 1) : SubSeq(h, i, i + Len(n) - 1) = n}
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
LastIdxOf(h, n) == \* last index at which n occurs, 0 if none
    LET S == {i \in 1..(Len(h) - Len(n) + 1) : SubSeq(h, i, i + Len(n) - 1) = n}
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i >= j
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)

RECURSIVE SplitOn(_, _)
SplitOn(s, sep) == \* like str::split
    LET i == IndexFrom(s, sep, 1) IN
    IF i = 0 THEN <<s>> ELSE <<Upto(s, i - 1)>> \o SplitOn(From(s, i + Len(sep)), sep)

SplitWS(s) == \* like split_ascii_whitespace (blank separated, no empty tokens)
    SelectSeq(SplitOn(JoinChars([i \in 1..Len(s) |-> IF Ch(s, i) \in WS THEN " " ELSE Ch(s, i)]), " "),
              LAMBDA x : x # "")

RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # "" /\ Ch(s, 1) \in WS THEN TrimL(From(s, 2)) ELSE s
TrimR(s) == IF s # "" /\ Ch(s, Len(s)) \in WS THEN TrimR(Upto(s, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(s, f, r) ==
    IF f = "" THEN
        IF s = "" THEN r
        ELSE r \o JoinChars([i \in 1..Len(s) |-> Ch(s, i)  \o r])
    ELSE LET i == IndexFrom(s, f, 1) IN
         IF i = 0 THEN s ELSE Upto(s, i - 1) \o r \o ReplaceAll(From(s, i + Len(f)), f, r)

------------------------------------------------------------------------------
(* Numbers *)
IsDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits
RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0 ELSE NatOf(Upto(s, Len(s) - 1)) * 10 + DigitVal(Ch(s, Len(s)))
IsInt(s) == Len(s) <= 9 /\ (IsDigits(s) \/ (s # "" /\ Ch(s, 1) \in {"-", "+"} /\ IsDigits(From(s, 2))))
IntOf(s) == IF Ch(s, 1) = "-" THEN 0 - NatOf(From(s, 2))
            ELSE IF Ch(s, 1) = "+" THEN NatOf(From(s, 2)) ELSE NatOf(s)
CanonInt(s) == IsInt(s) /\ ToString(IntOf(s)) = s

\* Lexicographic comparison by code point
RECURSIVE StrLt(_, _)
StrLt(a, b) ==
    IF b = "" THEN FALSE
    ELSE IF a = "" THEN TRUE
    ELSE LET x == Ord(Ch(a, 1)) y == Ord(Ch(b, 1)) IN
         IF Ch(a,1) = Ch(b,1) THEN StrLt(From(a, 2), From(b, 2)) ELSE x < y
==============================================================================
