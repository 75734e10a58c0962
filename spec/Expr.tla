-------------------------------- MODULE Expr --------------------------------
(* Operators of the expression language, on run-time values. *)
EXTENDS Match

FmtThou(n) == \* text of a number given in thousandths
    LET a == IF n < 0 THEN 0 - n ELSE n
        w == a \div 1000  f == a % 1000
        fs == SubSeq(ToString(1000 + f), 2, 4)
        RECURSIVE Cut(_)
        Cut(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN Cut(Upto(s, Len(s) - 1)) ELSE s
    IN (IF n < 0 THEN "-" ELSE "") \o ToString(w) \o (IF f = 0 THEN "" ELSE "." \o Cut(fs))
F(n) == [t |-> "f", v |-> FmtThou(n)]
\* floating point zero has a sign
Signed(n, neg) == IF n = 0 /\ neg THEN [t |-> "f", v |-> "-0"] ELSE F(n)
B(b) == I(IF b THEN 1 ELSE 0)
ToBool(v) == CASE v.t = "i" -> v.v # 0 [] v.t = "f" -> NumOfStr(v.v) # Num(0)
               [] v.t = "s" -> v.v # "" [] OTHER -> v.v # <<>>
IsNum(v) == v.t \in {"i", "f"}
ParseNum(v) == \* text that is not a number counts as 0
    CASE IsNum(v) -> v
      [] v.t = "s" -> IF IsInt(v.v) THEN I(IntOf(v.v)) ELSE
                      LET x == NumOfStr(v.v) IN IF x.inf THEN I(0) ELSE F(1000 * x.n + x.f)
      [] OTHER -> I(IF v.v = <<>> THEN 1 ELSE 0)
Thou(v) == LET x == NumOf(v) IN 1000 * x.n + x.f     \* of a number, in thousandths
IsNegN(v) == IF v.t = "i" THEN v.v < 0 ELSE Ch(v.v, 1) = "-"
RECURSIVE Disp(_)
Disp(v) == IF v.t = "a" THEN Join([i \in 1..Len(v.v) |-> Disp(v.v[i])], "\n") ELSE Str(v)

RECURSIVE VEq(_, _)
VEq(a, b) ==
    CASE IsNum(a) /\ IsNum(b) -> NumOf(a) = NumOf(b)
      [] a.t = "s" /\ b.t = "s" -> a.v = b.v
      [] a.t = "s" /\ IsNum(b) -> NumOf(ParseNum(a)) = NumOf(b)
      [] IsNum(a) /\ b.t = "s" -> NumOf(a) = NumOf(ParseNum(b))
      [] a.t = "a" /\ b.t = "a" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : VEq(a.v[i], b.v[i])
      [] OTHER -> FALSE
RECURSIVE VLt(_, _), SeqLt(_, _)
VLt(a, b) ==
    CASE IsNum(a) /\ IsNum(b) -> NumLt(NumOf(a), NumOf(b))
      [] a.t = "s" /\ b.t = "s" -> StrLt(a.v, b.v)
      [] a.t = "s" /\ IsNum(b) -> NumLt(NumOf(ParseNum(a)), NumOf(b))
      [] IsNum(a) /\ b.t = "s" -> NumLt(NumOf(a), NumOf(ParseNum(b)))
      [] a.t = "a" /\ b.t = "a" -> SeqLt(a.v, b.v)
      [] a.t \in {"a", "s"} -> FALSE
      [] OTHER -> TRUE
SeqLt(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
               ELSE IF VEq(x[1], y[1]) THEN SeqLt(Tail(x), Tail(y)) ELSE VLt(x[1], y[1])
ArrV(s) == [t |-> "a", v |-> s]
RECURSIVE BinOp(_, _, _)
BinOp(op, a, b) ==
    CASE op = "+" ->
            IF a.t = "i" /\ b.t = "i" THEN I(a.v + b.v)
            ELSE IF IsNum(a) /\ IsNum(b) THEN Signed(Thou(a) + Thou(b), IsNegN(a) /\ IsNegN(b))
            ELSE IF a.t = "a" /\ b.t = "a" THEN ArrV(a.v \o b.v)
            ELSE IF a.t = "a" THEN ArrV(Append(a.v, b))
            ELSE IF b.t = "a" THEN ArrV(<<a>> \o b.v)
            ELSE IF a.t = "s" THEN (IF a.v = "" THEN b ELSE S(a.v \o Disp(b)))
            ELSE IF b.v = "" THEN a ELSE S(Disp(a) \o b.v)
      [] op = "-" ->
            IF a.t = "i" /\ b.t = "i" THEN I(a.v - b.v)
            ELSE IF IsNum(a) /\ IsNum(b) THEN Signed(Thou(a) - Thou(b), IsNegN(a) /\ ~IsNegN(b) /\ Thou(a) = 0)
            ELSE IF a.t = "a" THEN ArrV(SelectSeq(a.v, LAMBDA x : ~VEq(x, b)))
            ELSE IF b.t = "a" THEN ArrV(SelectSeq(b.v, LAMBDA x : ~VEq(x, a)))
            ELSE BinOp("-", ParseNum(a), ParseNum(b))
      [] op = "*" ->
            IF a.t = "i" /\ b.t = "i" THEN I(a.v * b.v)
            ELSE IF IsNum(a) /\ IsNum(b) THEN Signed((Thou(a) * Thou(b)) \div 1000, IsNegN(a) # IsNegN(b))
            ELSE BinOp("*", ParseNum(a), ParseNum(b))
      [] op = "/" ->
            IF IsNum(a) /\ IsNum(b)
            THEN LET x == Thou(a) y == Thou(b) q == IF y < 0 THEN (0 - x) ELSE x
                     m == IF y < 0 THEN 0 - y ELSE y
                 IN IF y = 0 THEN F(0)
                    ELSE Signed(IF q < 0 THEN 0 - (((0 - q) * 1000) \div m) ELSE (q * 1000) \div m, IsNegN(a) # IsNegN(b))
            ELSE BinOp("/", ParseNum(a), ParseNum(b))
      [] op = "&&" -> B(ToBool(a) /\ ToBool(b))
      [] op = "||" -> B(ToBool(a) \/ ToBool(b))
      [] op = "^" -> B(ToBool(a) # ToBool(b))
      [] op = "==" -> B(VEq(a, b))
      [] op = "!=" -> B(~VEq(a, b))
      [] op = "<" -> B(VLt(a, b))
      [] op = "<=" -> B(VLt(a, b) \/ VEq(a, b))
      [] op = ">" -> B(~VLt(a, b) /\ ~VEq(a, b))
      [] op = ">=" -> B(~VLt(a, b))
UnOp(op, a) ==
    IF op = "!" THEN B(~ToBool(a))
    ELSE LET x == ParseNum(a) IN IF x.t = "i" THEN I(0 - x.v) ELSE Signed(0 - Thou(x), ~IsNegN(x))
ToIdx(v) == \* array index
    CASE v.t = "i" -> v.v
      [] v.t = "s" -> IF IsDigits(v.v) /\ Len(v.v) < 9 THEN NatOf(v.v) ELSE 0
      [] v.t = "f" -> Thou(v) \div 1000
      [] OTHER -> 0
ToArr(v) == IF v.t = "a" THEN v.v ELSE IF IsNul(v) THEN <<>> ELSE <<v>>
Index(a, i) == LET s == ToArr(a) k == ToIdx(i) IN IF k >= 0 /\ k < Len(s) THEN s[k + 1] ELSE Nul

\* Functions registered by the harness with the run time
Builtin(fn, args) ==
    CASE fn = "f_cat" -> S(Str(args[1]) \o Str(args[2]))
      [] fn = "f_id" -> args[1]
      [] fn = "f_len" -> I(VLen(args[1]))
      [] fn = "f_one" -> I(1)
      [] fn = "f_four" -> S(Str(args[1]) \o "," \o Str(args[2]) \o "," \o Str(args[3]) \o "," \o Str(args[4]))
=============================================================================
