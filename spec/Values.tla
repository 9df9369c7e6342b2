------------------------------- MODULE Values -------------------------------
(* The data pilo maps: tagged values, their Python equality and order, and the *)
(* texts they can be written as (integers, reals, dates, identifiers, simple   *)
(* regular expressions).  Everything here is a pure function of its arguments.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ------------------------------ constructors ------------------------------ *)
Null     == [t |-> "null"]
BoolV(b) == [t |-> "bool", b |-> b]
IntV(i)  == [t |-> "int", i |-> i]
FltV(m)  == [t |-> "flt", m |-> m]        \* m thousandths
DecV(m)  == [t |-> "dec", m |-> m]        \* decimal.Decimal, m thousandths
NanV(k)  == [t |-> "nan", k |-> k]        \* k in {"flt", "dec"}
InfV(k,s)== [t |-> "inf", k |-> k, s |-> s]
BigV(k,s)== [t |-> "big", k |-> k, s |-> s] \* s * 10^400
WideV(k,s)== [t |-> "wide", k |-> k, s |-> s] \* a whole number of more than six digits, as text
StrV(s)  == [t |-> "str", s |-> s]
ListV(l) == [t |-> "list", l |-> l]
TupV(l)  == [t |-> "tup", l |-> l]
DictV(d) == [t |-> "dict", d |-> d]       \* d: sequence of <<key, value>>
UuidV(s) == [t |-> "uuid", s |-> s]
NONE     == [t |-> "NONE"]
ERROR    == [t |-> "ERROR"]
NOTSET   == [t |-> "NOTSET"]
IsMark(v) == v.t \in {"NONE", "ERROR", "NOTSET"}
KS(s)    == [k |-> s]                      \* a string key
KN(n)    == [n |-> n]                      \* an integer key
IsKS(x)  == "k" \in DOMAIN x

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Last1(s) == s[Len(s)]
Front1(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) == IF ss = <<>> THEN "" ELSE
                    IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)
Sel(s, P(_)) == SelectSeq(s, P)

(* --------------------------------- text ----------------------------------- *)
Ch(s, i) == SubSeq(s, i, i)
DigitChars == <<"0","1","2","3","4","5","6","7","8","9">>
IsDigit(c) == \E i \in 1..10 : DigitChars[i] = c
DigitVal(c) == (CHOOSE i \in 1..10 : DigitChars[i] = c) - 1
SpaceChars == {" ", "\t", "\n", "\r"}
UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerS == "abcdefghijklmnopqrstuvwxyz"
UpperC == {Ch(UpperS, i) : i \in 1..26}
LowC(c) == IF c \in UpperC THEN Ch(LowerS, CHOOSE i \in 1..26 : Ch(UpperS, i) = c) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowC(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))
RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ Ch(s, 1) \in SpaceChars THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # "" /\ Ch(s, Len(s)) \in SpaceChars THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))
HasCh(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
IndexCh(s, c) == IF HasCh(s, c) THEN MinOf({i \in 1..Len(s) : Ch(s, i) = c}) ELSE 0
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE SplitCh(_, _)
SplitCh(s, c) == LET i == IndexCh(s, c) IN
                 IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitCh(From(s, i + 1), c)
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
RECURSIVE CharSeq(_)
CharSeq(s) == IF s = "" THEN <<>> ELSE <<Ch(s, 1)>> \o CharSeq(From(s, 2))
RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN DigitChars[n + 1] ELSE NatStr(n \div 10) \o DigitChars[(n % 10) + 1]
IntStr(i) == IF i < 0 THEN "-" \o NatStr(-i) ELSE NatStr(i)

(* digits, with single underscores between them *)
DigRun(s) == /\ s # ""
             /\ IsDigit(Ch(s, 1)) /\ IsDigit(Ch(s, Len(s)))
             /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i)) \/ (Ch(s, i) = "_" /\ Ch(s, i + 1) # "_")
RECURSIVE NatOf(_, _)
NatOf(s, acc) == IF s = "" THEN acc ELSE
                 NatOf(From(s, 2), IF Ch(s, 1) = "_" THEN acc ELSE acc * 10 + DigitVal(Ch(s, 1)))
Signed(s) == IF s # "" /\ Ch(s, 1) \in {"+", "-"}
             THEN [neg |-> Ch(s, 1) = "-", rest |-> From(s, 2)] ELSE [neg |-> FALSE, rest |-> s]

RECURSIVE NoUnder(_)
NoUnder(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "_" THEN "" ELSE Ch(s, 1)) \o NoUnder(From(s, 2))
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoZeros(From(s, 2)) ELSE s
Plain(s) == NoZeros(NoUnder(s))
IsWide(s) == Len(Plain(s)) > 6
\* the floating point number nearest to a wide one
RoundF(s) == CASE s = "9007199254740993" -> "9007199254740992"
               [] s = "9007199254740995" -> "9007199254740996"
               [] s = "-9007199254740993" -> "-9007199254740992"
               [] s = "-9007199254740995" -> "-9007199254740996"
               [] OTHER -> s
(* int(text): an integer value, or NONE when the text is not an integer *)
ParseInt(s) == LET g == Signed(Strip(s)) IN
               IF DigRun(g.rest)
               THEN IF IsWide(g.rest) THEN WideV("int", (IF g.neg THEN "-" ELSE "") \o Plain(g.rest))
                    ELSE LET n == NatOf(g.rest, 0) IN IntV(IF g.neg THEN -n ELSE n)
               ELSE NONE

RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
Frac3(fp) == LET f == SubSeq(NoUnder(fp) \o "000", 1, 3) IN NatOf(f, 0)
EPos(s) == LET P == {i \in 1..Len(s) : Ch(s, i) \in {"e", "E"}} IN IF P = {} THEN 0 ELSE MinOf(P)
(* float(text) / Decimal(text); kind is "flt" or "dec"; NONE when not a number *)
ParseReal(s, kind) ==
  LET g   == Signed(Strip(s))
      b   == g.rest
      sg  == IF g.neg THEN -1 ELSE 1
      low == Lower(b)
      ep  == EPos(b)
      man == IF ep = 0 THEN b ELSE SubSeq(b, 1, ep - 1)
      eg  == IF ep = 0 THEN [neg |-> FALSE, rest |-> "0"] ELSE Signed(From(b, ep + 1))
      dot == IndexCh(man, ".")
      ip  == IF dot = 0 THEN man ELSE SubSeq(man, 1, dot - 1)
      fp  == IF dot = 0 THEN "" ELSE From(man, dot + 1)
      ok  == /\ ip # "" \/ fp # ""
             /\ ip = "" \/ DigRun(ip)
             /\ fp = "" \/ DigRun(fp)
             /\ DigRun(eg.rest)
      m0  == (IF ip = "" THEN 0 ELSE NatOf(ip, 0)) * 1000 + Frac3(fp)
      e   == NatOf(eg.rest, 0)
      m   == IF e = 0 THEN m0 ELSE
             IF ~eg.neg THEN m0 * Pow10(e) ELSE m0 \div Pow10(e)
  IN IF low \in {"inf", "infinity"} THEN InfV(kind, sg)
     ELSE IF low = "nan" THEN NanV(kind)
     ELSE IF ~ok THEN NONE
     ELSE IF ip # "" /\ IsWide(ip)
          THEN LET w == (IF g.neg THEN "-" ELSE "") \o Plain(ip) IN WideV(kind, IF kind = "flt" THEN RoundF(w) ELSE w)
     ELSE IF m0 # 0 /\ e >= 300 THEN (IF eg.neg THEN [t |-> kind, m |-> 0]
                                      ELSE IF kind = "flt" THEN InfV("flt", sg) ELSE BigV("dec", sg))
     ELSE [t |-> kind, m |-> sg * m]

Boolish(s) == LET l == Lower(s) IN
              IF l \in {"0", "f", "false"} THEN BoolV(FALSE)
              ELSE IF l \in {"1", "t", "true"} THEN BoolV(TRUE) ELSE NONE

HexChars == {Ch("0123456789abcdef", i) : i \in 1..16}
RECURSIVE Drop(_, _)
Drop(s, C) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in C THEN "" ELSE Ch(s, 1)) \o Drop(From(s, 2), C)
(* uuid.UUID(text) *)
ParseUuid(s) == LET h == Drop(Lower(s), {"-", "{", "}"}) IN
                IF Len(h) = 32 /\ \A i \in 1..32 : Ch(h, i) \in HexChars
                THEN UuidV(SubSeq(h, 1, 8) \o "-" \o SubSeq(h, 9, 12) \o "-" \o SubSeq(h, 13, 16)
                           \o "-" \o SubSeq(h, 17, 20) \o "-" \o SubSeq(h, 21, 32))
                ELSE NONE

(* ------------------------------- numbers ---------------------------------- *)
IsNum(v) == v.t \in {"bool", "int", "flt", "dec", "nan", "inf", "big", "wide"}
NumM(v) == CASE v.t = "bool" -> (IF v.b THEN 1000 ELSE 0)
             [] v.t = "int" -> v.i * 1000
             [] OTHER -> v.m
NumC(v) == CASE v.t = "inf" -> 3 * v.s
             [] v.t = "big" -> 2 * v.s
             [] v.t = "wide" -> (IF Ch(v.s, 1) = "-" THEN -1 ELSE 1)
             [] OTHER -> 0
NumLt(a, b) == IF a.t = "nan" \/ b.t = "nan" THEN FALSE
               ELSE IF NumC(a) # NumC(b) THEN NumC(a) < NumC(b)
               ELSE NumC(a) = 0 /\ NumM(a) < NumM(b)
NumEq(a, b) == IF a.t = "nan" \/ b.t = "nan" THEN FALSE
               ELSE /\ NumC(a) = NumC(b)
                    /\ NumC(a) = 0 => NumM(a) = NumM(b)
                    /\ a.t = "wide" => a.s = b.s
IsWhole(v) == v.t = "flt" /\ v.m % 1000 = 0

(* -------------------------------- dates ----------------------------------- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, mo) == IF mo = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                 ELSE IF mo \in {4, 6, 9, 11} THEN 30 ELSE 31
DateV(y, mo, d) == [t |-> "date", y |-> y, mo |-> mo, d |-> d]
DtV(y, mo, d, h, mi, s, z) == [t |-> "dt", y |-> y, mo |-> mo, d |-> d, h |-> h, mi |-> mi, s |-> s, z |-> z]
TimeV(h, mi, s) == [t |-> "time", h |-> h, mi |-> mi, s |-> s]
StV(y, mo, d, h, mi, s) == [t |-> "st", y |-> y, mo |-> mo, d |-> d, h |-> h, mi |-> mi, s |-> s]
Chrono(v) == CASE v.t = "date" -> <<v.y, v.mo, v.d>>
               [] v.t \in {"dt", "st"} -> <<v.y, v.mo, v.d, v.h, v.mi, v.s>>
               [] OTHER -> <<v.h, v.mi, v.s>>
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF a = <<>> THEN FALSE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLt(Tail(a), Tail(b))
RECURSIVE DaysBefore(_, _)
DaysBefore(y, mo) == IF mo = 1 THEN 0 ELSE DaysIn(y, mo - 1) + DaysBefore(y, mo - 1)
DayNo(y, mo, d) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400 + DaysBefore(y, mo) + d
\* an aware date-time is a moment: its day, minute and second in UTC
Aware(v) == v.t = "dt" /\ v.z # -9999
Moment(v) == LET mm == v.h * 60 + v.mi - v.z IN <<DayNo(v.y, v.mo, v.d) + mm \div 1440, mm % 1440, v.s>>
\* two values that have an order (an aware date-time has none against a naive one)
Comparable(a, b) == a.t = b.t /\ Aware(a) = Aware(b)
ChronoLt(a, b) == IF Aware(a) THEN LexLt(Moment(a), Moment(b)) ELSE LexLt(Chrono(a), Chrono(b))

(* strptime: the fields a text denotes under a format, or [ok |-> FALSE] *)
NoTime == [ok |-> FALSE]
Dig2(s) == Len(s) >= 2 /\ IsDigit(Ch(s, 1)) /\ IsDigit(Ch(s, 2))
N2(s) == DigitVal(Ch(s, 1)) * 10 + DigitVal(Ch(s, 2))
RECURSIVE Strp(_, _, _)
Strp2(f, s, acc, fld, lo2, hi, lo1) ==
  \* a one- or two-digit number, two digits preferred
  LET two == IF Dig2(s) /\ N2(s) >= lo2 /\ N2(s) <= hi
             THEN Strp(f, From(s, 3), [acc EXCEPT ![fld] = N2(s)]) ELSE NoTime
  IN IF two.ok THEN two
     ELSE IF s # "" /\ IsDigit(Ch(s, 1)) /\ DigitVal(Ch(s, 1)) >= lo1
          THEN Strp(f, From(s, 2), [acc EXCEPT ![fld] = DigitVal(Ch(s, 1))]) ELSE NoTime
Strp(f, s, acc) ==
  IF f = "" THEN (IF s = "" THEN acc ELSE NoTime)
  ELSE IF Ch(f, 1) = "%" THEN
    LET d == Ch(f, 2)  r == From(f, 3) IN
    CASE d = "Y" -> IF Len(s) >= 4 /\ \A i \in 1..4 : IsDigit(Ch(s, i))
                    THEN Strp(r, From(s, 5), [acc EXCEPT !.y = NatOf(SubSeq(s, 1, 4), 0)]) ELSE NoTime
      [] d = "m" -> Strp2(r, s, acc, "mo", 1, 12, 1)
      [] d = "d" -> Strp2(r, s, acc, "d", 1, 31, 1)
      [] d = "H" -> Strp2(r, s, acc, "h", 0, 23, 0)
      [] d = "M" -> Strp2(r, s, acc, "mi", 0, 59, 0)
      [] d = "S" -> Strp2(r, s, acc, "s", 0, 61, 0)
      [] OTHER -> NoTime
  ELSE IF s # "" /\ LowC(Ch(s, 1)) = LowC(Ch(f, 1)) THEN Strp(From(f, 2), From(s, 2), acc)
  ELSE NoTime
Strptime(f, s) ==
  LET r == Strp(f, s, [ok |-> TRUE, y |-> 1900, mo |-> 1, d |-> 1, h |-> 0, mi |-> 0, s |-> 0]) IN
  IF r.ok /\ r.y >= 1 /\ r.d <= DaysIn(r.y, r.mo) THEN r ELSE NoTime

(* iso8601.parse_date over texts YYYY-MM-DD[(T| )HH:MM[:SS]][Z|+HH:MM|-HH:MM] *)
IsoParse(s) ==
  LET d  == IF Len(s) >= 10 THEN SubSeq(s, 1, 10) ELSE s
      dr == Strp("%Y-%m-%d", d, [ok |-> TRUE, y |-> 1900, mo |-> 1, d |-> 1, h |-> 0, mi |-> 0, s |-> 0])
      r  == IF Len(s) > 10 THEN From(s, 11) ELSE ""
      zp == LET P == {i \in 1..Len(r) : Ch(r, i) \in {"Z", "+", "-"}} IN IF P = {} THEN 0 ELSE MinOf(P)
      tm == IF zp = 0 THEN r ELSE SubSeq(r, 1, zp - 1)
      zs == IF zp = 0 THEN "Z" ELSE From(r, zp)
      t1 == IF tm = "" THEN [dr EXCEPT !.ok = TRUE]
            ELSE IF Ch(tm, 1) \in {"T", " "} /\ Len(tm) \in {6, 9}
                 THEN Strp(IF Len(tm) = 6 THEN "%H:%M" ELSE "%H:%M:%S", From(tm, 2), [dr EXCEPT !.ok = TRUE])
                 ELSE NoTime
      zok == \/ zs = "Z"
             \/ Len(zs) = 6 /\ Ch(zs, 4) = ":" /\ Dig2(From(zs, 2)) /\ Dig2(From(zs, 5))
      z   == IF zs = "Z" THEN 0
             ELSE (IF Ch(zs, 1) = "-" THEN -1 ELSE 1) * (N2(From(zs, 2)) * 60 + N2(From(zs, 5)))
  IN IF Len(s) >= 10 /\ Len(d) = 10 /\ dr.ok /\ dr.y >= 1 /\ dr.d <= DaysIn(dr.y, dr.mo)
        /\ t1.ok /\ t1.s < 60 /\ zok /\ (tm = "" => zp = 0)
     THEN [ok |-> TRUE, y |-> dr.y, mo |-> dr.mo, d |-> dr.d, h |-> t1.h, mi |-> t1.mi, s |-> t1.s, z |-> z]
     ELSE NoTime

(* strftime: the text of a date or time in a format *)
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Part(v, d) == CASE d = "Y" -> ToString(v.y)
                [] d = "m" -> Pad2(v.mo)
                [] d = "d" -> Pad2(v.d)
                [] v.t = "date" -> "00"
                [] d = "H" -> Pad2(v.h)
                [] d = "M" -> Pad2(v.mi)
                [] d = "S" -> Pad2(v.s)
RECURSIVE Strftime(_, _)
Strftime(f, v) == IF f = "" THEN ""
                  ELSE IF Ch(f, 1) = "%" THEN Part(v, Ch(f, 2)) \o Strftime(From(f, 3), v)
                  ELSE Ch(f, 1) \o Strftime(From(f, 2), v)

(* ------------------------------- code ------------------------------------- *)
(* what a reference "module:name" or a block of code denotes, given these       *)
(* modules                                                                      *)
CodeV(s) == [t |-> "code", s |-> s]
Importable == <<<<"vmod:f", "vmod:f">>, <<"vmod:K", "vmod:K">>, <<"vmod:K.g", "vmod:K.g">>,
                <<"vpkg.inner:f", "vpkg.inner:f">>, <<"vpkg:inner.f", "vpkg.inner:f">>>>
WordSet == UpperC \cup {Ch(LowerS, i) : i \in 1..26} \cup {DigitChars[i] : i \in 1..10} \cup {"_", ".", "~"}
RECURSIVE WordLen(_, _)
WordLen(s, i) == IF i <= Len(s) /\ Ch(s, i) \in WordSet THEN 1 + WordLen(s, i + 1) ELSE 0
Denoted(s) ==
  IF \E i \in 1..Len(s) : Ch(s, i) = "\n"
  THEN IF Strip(s) = "" \/ (IsDigit(Ch(s, 1)) /\ ParseInt(s) # NONE /\ ParseInt(s).t = "int"
                             /\ (Ch(s, 1) # "0" \/ ParseInt(s).i = 0)) THEN CodeV("inline None")
       ELSE LET n == Len(s) - 5 IN      \* a block
       IF StartsWith(s, "x = ") /\ n > 0 /\ Ch(s, Len(s)) = "\n" /\ \A i \in 5..n + 4 : IsDigit(Ch(s, i))
       THEN CodeV("inline " \o SubSeq(s, 5, n + 4)) ELSE NONE
  ELSE LET n == WordLen(s, 1)
           k == IF n > 0 /\ n < Len(s) /\ Ch(s, n + 1) = ":" THEN WordLen(s, n + 2) ELSE 0
           S == {i \in 1..Len(Importable) : Importable[i][1] = SubSeq(s, 1, n + 1 + k)}
       IN IF k = 0 \/ S = {} THEN NONE ELSE CodeV(Importable[MinOf(S)][2])

(* ---------------------- small regular expressions ------------------------- *)
(* pre([cls]{mn,mx})suf with an optional end anchor; match() is anchored at    *)
(* the start, the class is greedy.                                             *)
RECURSIVE RunLen(_, _, _)
RunLen(s, i, cls) == IF i <= Len(s) /\ HasCh(cls, Ch(s, i)) THEN 1 + RunLen(s, i + 1, cls) ELSE 0
PatMatch(p, s) ==
  LET st  == Len(p.pre) + 1
      ok0 == StartsWith(s, p.pre)
      mxn == IF ok0 THEN Min2(p.mx, RunLen(s, st, p.cls)) ELSE -1
      fits(n) == LET r == From(s, st + n) IN
                 /\ StartsWith(r, p.suf)
                 /\ p.end => From(r, Len(p.suf) + 1) \in {"", "\n"}
      C   == {n \in p.mn..mxn : fits(n)}
  IN IF ~ok0 \/ C = {} THEN [ok |-> FALSE, all |-> "", grp |-> ""]
     ELSE LET n == MaxOf(C) IN
          [ok |-> TRUE, all |-> SubSeq(s, 1, Len(p.pre) + n + Len(p.suf)), grp |-> SubSeq(s, st, st + n - 1)]

(* ------------------------------ str and repr ------------------------------ *)
FltStr(m) == LET a == Abs(m)  f == a % 1000
                 d1 == f \div 100  d2 == (f \div 10) % 10  d3 == f % 10
             IN (IF m < 0 THEN "-" ELSE "") \o NatStr(a \div 1000) \o "." \o
                (IF f = 0 THEN "0"
                 ELSE DigitChars[d1 + 1] \o (IF d2 = 0 /\ d3 = 0 THEN ""
                      ELSE DigitChars[d2 + 1] \o (IF d3 = 0 THEN "" ELSE DigitChars[d3 + 1])))
Zeros100 == "0000000000" \o "0000000000" \o "0000000000" \o "0000000000" \o "0000000000"
            \o "0000000000" \o "0000000000" \o "0000000000" \o "0000000000" \o "0000000000"
BigZeros == Zeros100 \o Zeros100 \o Zeros100 \o Zeros100
RECURSIVE Escaped(_, _)
Escaped(s, q) == IF s = "" THEN ""
                 ELSE LET c == Ch(s, 1) IN
                      (CASE c = q \/ c = "\\" -> "\\" \o c [] c = "\n" -> "\\n" [] c = "\t" -> "\\t" [] c = "\r" -> "\\r"
                         [] OTHER -> c) \o Escaped(From(s, 2), q)
StrRepr(s) == LET q == IF HasCh(s, "'") /\ ~HasCh(s, "\"") THEN "\"" ELSE "'" IN q \o Escaped(s, q) \o q
RECURSIVE PyRepr(_)
PyRepr(v) ==
  CASE v.t = "null" -> "None"
    [] v.t = "bool" -> (IF v.b THEN "True" ELSE "False")
    [] v.t = "int" -> IntStr(v.i)
    [] v.t = "flt" -> FltStr(v.m)
    [] v.t = "nan" -> (IF v.k = "dec" THEN "?" ELSE "nan")
    [] v.t = "big" -> (IF v.s < 0 THEN "-1" ELSE "1") \o BigZeros
    [] v.t = "wide" -> (IF v.k = "dec" THEN "?" ELSE IF v.k = "flt" THEN v.s \o ".0" ELSE v.s)
    [] v.t = "inf" -> (IF v.k = "dec" THEN "?" ELSE IF v.s < 0 THEN "-inf" ELSE "inf")
    [] v.t = "str" -> StrRepr(v.s)
    [] v.t = "list" -> "[" \o JoinStr([i \in 1..Len(v.l) |-> PyRepr(v.l[i])], ", ") \o "]"
    [] v.t = "tup" -> "(" \o JoinStr([i \in 1..Len(v.l) |-> PyRepr(v.l[i])], ", ")
                      \o (IF Len(v.l) = 1 THEN ",)" ELSE ")")
    [] v.t = "dict" -> "{" \o JoinStr([i \in 1..Len(v.d) |->
                        (IF IsKS(v.d[i][1]) THEN StrRepr(v.d[i][1].k) ELSE IntStr(v.d[i][1].n))
                        \o ": " \o PyRepr(v.d[i][2])], ", ") \o "}"
    [] OTHER -> "?"
Two(n) == IF n < 10 THEN "0" \o IntStr(n) ELSE IntStr(n)
DateStr(v) == IntStr(v.y) \o "-" \o Two(v.mo) \o "-" \o Two(v.d)
PyStr(v) == CASE v.t = "str" -> v.s
              [] v.t = "date" -> DateStr(v)
              [] v.t = "dt" /\ v.z = -9999 -> DateStr(v) \o " " \o Two(v.h) \o ":" \o Two(v.mi) \o ":" \o Two(v.s)
              [] v.t = "uuid" -> v.s
              [] v.t = "nan" /\ v.k = "dec" -> "NaN"
              [] v.t = "wide" /\ v.k = "dec" -> v.s
              [] v.t = "inf" /\ v.k = "dec" -> (IF v.s < 0 THEN "-" ELSE "") \o "Infinity"
              [] OTHER -> PyRepr(v)

(* -------------------------------- equality -------------------------------- *)
DGet(d, k) == LET S == {i \in 1..Len(d) : d[i][1] = k} IN IF S = {} THEN NONE ELSE d[MaxOf(S)][2]
DHas(d, k) == \E i \in 1..Len(d) : d[i][1] = k
DPut(d, k, v) == IF DHas(d, k)
                 THEN [i \in 1..Len(d) |-> IF d[i][1] = k THEN <<k, v>> ELSE d[i]]
                 ELSE Append(d, <<k, v>>)
DDel(d, k) == SelectSeq(d, LAMBDA e : e[1] # k)
DKeys(d) == [i \in 1..Len(d) |-> d[i][1]]

(* Python's == *)
RECURSIVE PyEq(_, _)
PyEq(a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN NumEq(a, b)
  ELSE IF a.t # b.t THEN FALSE
  ELSE CASE a.t \in {"list", "tup"} ->
              Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : PyEq(a.l[i], b.l[i])
         [] a.t = "dict" ->
              Len(a.d) = Len(b.d) /\ \A i \in 1..Len(a.d) :
                 DHas(b.d, a.d[i][1]) /\ PyEq(a.d[i][2], DGet(b.d, a.d[i][1]))
         [] a.t = "dt" -> Aware(a) = Aware(b) /\ (IF Aware(a) THEN Moment(a) = Moment(b) ELSE a = b)
         [] OTHER -> a = b
PyIn(v, seq) == \E i \in 1..Len(seq) : PyEq(v, seq[i])
Hashable(v) == v.t \notin {"list", "dict", "form"}

(* the same value, type included; entries of forms in any order, and entries   *)
(* of dicts too when ord is FALSE                                               *)
RECURSIVE Same(_, _, _)
SameD(a, b, ord) ==
  /\ Len(a) = Len(b)
  /\ IF ord THEN \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ Same(a[i][2], b[i][2], ord)
     ELSE \A i \in 1..Len(a) : DHas(b, a[i][1]) /\ Same(a[i][2], DGet(b, a[i][1]), ord)
Same(a, b, ord) ==
  /\ a.t = b.t
  /\ CASE a.t \in {"list", "tup"} ->
            Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : Same(a.l[i], b.l[i], ord)
       [] a.t = "dict" -> SameD(a.d, b.d, ord)
       [] a.t = "form" -> a.c = b.c /\ SameD(a.d, b.d, FALSE)
       [] OTHER -> a = b

SeqOfSet(S) == LET RECURSIVE go(_)
                   go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o go(T \ {x})
               IN go(S)
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE
           LET r == Uniq(Front1(s)) IN
           IF \E i \in 1..Len(r) : r[i] = Last1(s) THEN r ELSE Append(r, Last1(s))
=============================================================================
