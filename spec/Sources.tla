------------------------------ MODULE Sources -------------------------------
(* What is at a location of a source: a location is (source, sequence of keys), *)
(* and everything below is a function of the two alone.                         *)
(*                                                                              *)
(*   native  a mapping, sequence or object graph, optionally with aliases       *)
(*   json    JSON text, lenient or strict                                       *)
(*   config  an INI document                                                    *)
(*   union   several sources merged by policy                                   *)
(*   mount   several sources below keys                                         *)
EXTENDS Values

Abs0 == [t |-> "NONE"]         \* "nothing there"
Ok(v)  == [ok |-> TRUE, v |-> v]
Bad    == [ok |-> FALSE, v |-> NONE]

Native(v) == [k |-> "native", v |-> v, al |-> <<>>]

(* ------------------------- one step in plain data ------------------------- *)
\* a parsed time is a tuple of nine numbers (always of the 1st of January 1900)
TimeTuple(v) == <<IntV(v.y), IntV(v.mo), IntV(v.d), IntV(v.h), IntV(v.mi), IntV(v.s), IntV(0), IntV(1), IntV(-1)>>
RECURSIVE Item(_, _)
Item(c, key) ==
  CASE c.t = "dict" -> DGet(c.d, key)
    [] c.t \in {"list", "tup"} /\ ~IsKS(key) ->
         (IF key.n >= 0 /\ key.n < Len(c.l) THEN c.l[key.n + 1]
          ELSE IF key.n < 0 /\ -key.n <= Len(c.l) THEN c.l[Len(c.l) + key.n + 1] ELSE NONE)
    [] c.t = "st" -> Item([t |-> "tup", l |-> TimeTuple(c)], key)
    [] c.t = "str" /\ ~IsKS(key) ->
         (IF key.n >= 0 /\ key.n < Len(c.s) THEN StrV(Ch(c.s, key.n + 1))
          ELSE IF key.n < 0 /\ -key.n <= Len(c.s) THEN StrV(Ch(c.s, Len(c.s) + key.n + 1)) ELSE NONE)
    [] OTHER -> NONE
Attr(c, key) == IF c.t = "obj" THEN DGet(c.a, key) ELSE NONE
Call(c, name) == IF c.t = "obj" THEN DGet(c.ms, KS(name)) ELSE NONE

(* al: aliases in force here (only for the first key of a native source) *)
Atom(c, key, al) ==
  LET i == Item(c, key) IN
  IF i # NONE THEN i
  ELSE LET a == IF DHas(al, key) THEN Item(c, DGet(al, key)) ELSE NONE IN
       IF a # NONE THEN a ELSE Attr(c, key)
RECURSIVE Atoms(_, _, _)
Atoms(c, names, al) == IF names = <<>> \/ c = NONE THEN c
                       ELSE Atoms(Atom(c, KS(Head(names)), al), Tail(names), al)
NativeStep(c, key, al) ==
  IF ~IsKS(key) THEN Atom(c, key, al)
  ELSE LET v == Atom(c, key, al) IN
       IF v # NONE THEN v
       ELSE IF EndsWith(key.k, "()")
            THEN LET names == SplitCh(SubSeq(key.k, 1, Len(key.k) - 2), ".")
                     o     == Atoms(c, Front1(names), al)
                 IN IF o = NONE THEN NONE ELSE Call(o, Last1(names))
       ELSE IF HasCh(key.k, ".") THEN Atoms(c, SplitCh(key.k, "."), al)
       ELSE NONE
RECURSIVE NativeAt(_, _, _)
NativeAt(c, ks, al) == IF ks = <<>> \/ c = NONE THEN c
                       ELSE NativeAt(NativeStep(c, Head(ks), al), Tail(ks), <<>>)

RECURSIVE JsonAtoms(_, _)
JsonAtoms(c, names) == IF names = <<>> \/ c = NONE THEN c
                       ELSE JsonAtoms(Item(c, KS(Head(names))), Tail(names))
JsonStep(c, key) == LET v == Item(c, key) IN
                    IF v # NONE \/ ~IsKS(key) \/ ~HasCh(key.k, ".") THEN v
                    ELSE JsonAtoms(c, SplitCh(key.k, "."))
RECURSIVE JsonAt(_, _)
JsonAt(c, ks) == IF ks = <<>> \/ c = NONE THEN c ELSE JsonAt(JsonStep(c, Head(ks)), Tail(ks))

(* --------------------------------- config --------------------------------- *)
(* src.secs: <<section name, <<option, lines>> ...>> ; a line is [i, s]: indent *)
(* and text, the first one standing on the option's own line.                   *)
OptX(src, o) == IF src.case THEN o ELSE Lower(o)
IsComment(l) == l.s # "" /\ Ch(l.s, 1) \in {"#", ";"}
LineText(lines) ==
  LET ls == <<lines[1]>> \o SelectSeq(Tail(lines), LAMBDA l : ~IsComment(l)) IN
  RStrip(JoinStr([i \in 1..Len(ls) |-> ls[i].s], "\n"))
OwnOpts(src, sec) == LET S == {i \in 1..Len(src.secs) : src.secs[i][1] = sec} IN
                     src.secs[MinOf(S)][2]
\* what the text says for every section (its DEFAULT section) comes first
SecOpts(src, sec) ==
  LET own  == OwnOpts(src, sec)
      base == IF "base" \in DOMAIN src THEN src.base ELSE <<>>
      in(e, os) == \E i \in 1..Len(os) : OptX(src, os[i][1]) = OptX(src, e[1])
  IN [i \in 1..Len(base) |-> IF in(base[i], own) THEN SelectSeq(own, LAMBDA e : OptX(src, e[1]) = OptX(src, base[i][1]))[1] ELSE base[i]]
     \o SelectSeq(own, LAMBDA e : ~in(e, base))
HasSec(src, sec) == \E i \in 1..Len(src.secs) : src.secs[i][1] = sec
\* an option called name[key] is entry key of the mapping name
SubName(o) == LET i == IndexCh(o, "[") IN IF i > 1 /\ EndsWith(o, "]") THEN SubSeq(o, 1, i - 1) ELSE ""
SubKey(o) == LET i == IndexCh(o, "[") IN SubSeq(o, i + 1, Len(o) - 1)
SecSubs(src, sec) ==   \* the mappings, in order of appearance
  LET os == SecOpts(src, sec) IN
  Uniq([i \in 1..Len(SelectSeq(os, LAMBDA e : SubName(OptX(src, e[1])) # "")) |->
        SubName(OptX(src, SelectSeq(os, LAMBDA e : SubName(OptX(src, e[1])) # "")[i][1]))])
SubDict(src, sec, name) ==
  LET os == SelectSeq(SecOpts(src, sec), LAMBDA e : SubName(OptX(src, e[1])) = name) IN
  DictV([i \in 1..Len(os) |-> <<KS(SubKey(OptX(src, os[i][1]))), StrV(LineText(os[i][2]))>>])
SecDefaults(src, sec) == IF src.section # "" THEN src.dflt
                         ELSE LET d == DGet(src.dflt, KS(sec)) IN IF d = NONE THEN <<>> ELSE d.d
SecGet(src, sec, key) ==
  IF ~IsKS(key) THEN NONE
  ELSE IF \E i \in 1..Len(SecSubs(src, sec)) : SecSubs(src, sec)[i] = key.k THEN SubDict(src, sec, key.k)
  ELSE LET os == SelectSeq(SecOpts(src, sec), LAMBDA e : OptX(src, e[1]) = OptX(src, key.k)) IN
       IF os # <<>> THEN StrV(LineText(os[1][2]))
       ELSE DGet(SecDefaults(src, sec), key)
SecKeys(src, sec) ==
  [i \in 1..Len(SecSubs(src, sec)) |-> KS(SecSubs(src, sec)[i])]
  \o [i \in 1..Len(SecOpts(src, sec)) |-> KS(OptX(src, SecOpts(src, sec)[i][1]))]

(* the items of a text: its non-blank lines, or its shell-style words *)
RECURSIVE Words(_, _, _, _)
Words(s, cur, has, q) ==      \* q: the open quote; "!" marks an unbalanced one
  IF s = "" THEN (IF q # "" THEN <<"!">> ELSE IF has THEN <<cur>> ELSE <<>>)
  ELSE LET c == Ch(s, 1)  r == From(s, 2) IN
       IF q # "" THEN (IF c = q THEN Words(r, cur, TRUE, "") ELSE Words(r, cur \o c, TRUE, q))
       ELSE IF c \in {"\"", "'"} THEN Words(r, cur, TRUE, c)
       ELSE IF c \in SpaceChars THEN (IF has THEN <<cur>> \o Words(r, "", FALSE, "") ELSE Words(r, "", FALSE, ""))
       ELSE Words(r, cur \o c, TRUE, "")
Unbalanced(s) == LET w == Words(s, "", FALSE, "") IN w # <<>> /\ Last1(w) = "!" /\ ~HasCh(s, "!")
TextItems(s) ==
  IF HasCh(s, "\n")
  THEN LET ls == SplitCh(s, "\n")
           st == [i \in 1..Len(ls) |-> Strip(ls[i])]
       IN SelectSeq(st, LAMBDA l : l # "")
  ELSE Words(s, "", FALSE, "")

CfgSec(src, ks) == IF src.section # "" THEN src.section ELSE ks[1].k
CfgRest(src, ks) == IF src.section # "" THEN ks ELSE Tail(ks)
RECURSIVE CfgBelow(_, _)
CfgBelow(v, ks) ==
  IF ks = <<>> \/ v = NONE THEN v
  ELSE IF v.t = "str"
       THEN LET it == TextItems(v.s)  key == Head(ks) IN
            IF IsKS(key) \/ key.n < 0 \/ key.n >= Len(it) THEN NONE
            ELSE CfgBelow(StrV(it[key.n + 1]), Tail(ks))
       ELSE CfgBelow(Item(v, Head(ks)), Tail(ks))
\* kind of node: "croot", "csec" (a section) or "val"
CfgKind(src, ks) ==
  IF src.section = "" /\ ks = <<>> THEN "croot"
  ELSE IF CfgRest(src, ks) = <<>> THEN
       (IF src.section # "" \/ (IsKS(ks[1]) /\ HasSec(src, ks[1].k)) THEN "csec" ELSE "abs")
  ELSE "val"
CfgAt(src, ks) ==
  IF src.section = "" /\ ~(IsKS(ks[1]) /\ HasSec(src, ks[1].k)) THEN NONE
  ELSE LET r == CfgRest(src, ks) IN
       CfgBelow(SecGet(src, CfgSec(src, ks), Head(r)), Tail(r))
(* the indented block below an option, as written *)
MinIndent(ls) == LET I == {ls[i].i : i \in {j \in 1..Len(ls) : ls[j].s # ""}} IN
                 IF I = {} THEN 0 ELSE MinOf(I)
RawBlock(all) ==
  LET ls == SelectSeq(all, LAMBDA l : ~(IsComment(l) /\ l.i = 0))
      m == MinIndent(ls) IN
  JoinStr([i \in 1..Len(ls) |-> (IF ls[i].s = "" THEN "" ELSE Spaces(ls[i].i - m) \o ls[i].s) \o "\n"], "")
CfgRaw(src, ks) ==    \* for a text with line breaks read from a file
  LET r   == CfgRest(src, ks)
      opt == OptX(src, r[1].k \o JoinStr([i \in 1..Len(Tail(r)) |->
                     "[" \o (IF IsKS(Tail(r)[i]) THEN Tail(r)[i].k ELSE IntStr(Tail(r)[i].n)) \o "]"], ""))
      all == OwnOpts(src, CfgSec(src, ks))
      os  == SelectSeq(all, LAMBDA e : OptX(src, e[1]) = opt)
      \* a section ends with an empty line, which belongs to its last block
      more == IF os # <<>> /\ os[1] = all[Len(all)] THEN <<[i |-> 0, s |-> ""]>> ELSE <<>>
  IN IF os = <<>> THEN NONE ELSE StrV(RawBlock(Tail(os[1][2]) \o more))

(* -------------------------- reading one scalar ---------------------------- *)
ParserPrim(ty, v) ==
  CASE ty = "auto" -> Ok(v)
    [] ty = "str" -> IF v.t = "str" THEN Ok(v) ELSE Bad
    [] ty = "int" ->
         (CASE v.t = "int" -> Ok(v)
            [] v.t = "big" /\ v.k = "int" -> Ok(v)
            [] v.t = "wide" -> IF v.k = "dec" THEN Bad ELSE Ok(WideV("int", v.s))
            [] v.t = "flt" -> IF IsWhole(v) THEN Ok(IntV(v.m \div 1000)) ELSE Bad
            [] v.t = "str" -> LET r == ParseInt(v.s) IN IF r = NONE THEN Bad ELSE Ok(r)
            [] OTHER -> Bad)
    [] ty = "float" ->
         (CASE v.t \in {"flt"} -> Ok(v)
            [] v.t \in {"nan", "inf"} -> IF v.k = "flt" THEN Ok(v) ELSE Bad
            [] v.t = "int" -> Ok(FltV(v.i * 1000))
            [] v.t = "wide" -> IF v.k = "dec" THEN Bad ELSE Ok(WideV("flt", RoundF(v.s)))
            [] v.t = "bool" -> Ok(FltV(NumM(v)))
            [] v.t = "str" -> LET r == ParseReal(v.s, "flt") IN IF r = NONE THEN Bad ELSE Ok(r)
            [] OTHER -> Bad)
    [] ty = "bool" ->
         (CASE v.t = "bool" -> Ok(v)
            [] v.t = "int" -> Ok(BoolV(v.i # 0))
            [] v.t \in {"big", "wide"} /\ v.k = "int" -> Ok(BoolV(TRUE))
            [] v.t = "str" -> LET r == Boolish(v.s) IN IF r = NONE THEN Bad ELSE Ok(r)
            [] OTHER -> Bad)
JsonPrim(strict, ty, v) ==
  CASE ty = "auto" -> Ok(v)
    [] ty = "str" -> IF v.t = "str" THEN Ok(v) ELSE IF strict THEN Bad ELSE Ok(StrV(PyStr(v)))
    [] ty = "int" ->
         (CASE v.t = "int" -> Ok(v)
            [] v.t = "big" -> Ok(v)
            [] v.t = "wide" -> IF v.k = "int" \/ ~strict THEN Ok(WideV("int", v.s)) ELSE Bad
            [] v.t = "flt" /\ ~strict -> IF IsWhole(v) THEN Ok(IntV(v.m \div 1000)) ELSE Bad
            [] v.t = "str" /\ ~strict -> LET r == ParseInt(v.s) IN IF r = NONE THEN Bad ELSE Ok(r)
            [] OTHER -> Bad)
    [] ty = "float" ->
         (CASE v.t \in {"flt", "nan", "inf"} -> Ok(v)
            [] v.t = "int" -> Ok(FltV(v.i * 1000))
            [] v.t = "wide" -> Ok(WideV("flt", RoundF(v.s)))
            [] v.t = "bool" -> Ok(FltV(NumM(v)))
            [] v.t = "str" /\ ~strict -> LET r == ParseReal(v.s, "flt") IN IF r = NONE THEN Bad ELSE Ok(r)
            [] OTHER -> Bad)
    [] ty = "bool" ->
         (CASE v.t = "bool" -> Ok(v)
            [] v.t = "int" /\ ~strict -> Ok(BoolV(v.i # 0))
            [] v.t \in {"big", "wide"} /\ v.k = "int" /\ ~strict -> Ok(BoolV(TRUE))
            [] OTHER -> Bad)

(* ------------------------------ any source -------------------------------- *)
P(s, k) == [s |-> s, k |-> k]          \* a location
RECURSIVE Exists(_, _), IsNull(_, _), MapOp(_, _), SeqOp(_, _), UPaths(_, _)

(* union: which of the member locations make up the mapping / the sequence *)
RECURSIVE UMapGo(_, _, _)
UMapGo(ps, merge, acc) ==
  IF ps = <<>> THEN [ok |-> TRUE, ps |-> acc]
  ELSE LET p == Head(ps) IN
       IF ~Exists(p.s, p.k) THEN UMapGo(Tail(ps), merge, acc)
       ELSE IF IsNull(p.s, p.k) THEN
              (IF merge = "first" THEN [ok |-> TRUE, ps |-> acc] ELSE UMapGo(Tail(ps), merge, acc))
       ELSE IF ~MapOp(p.s, p.k).ok THEN [ok |-> FALSE, ps |-> <<>>]
       ELSE IF merge = "first" THEN [ok |-> TRUE, ps |-> <<p>>]
       ELSE UMapGo(Tail(ps), merge, IF merge = "combine" THEN Append(acc, p) ELSE <<p>>)
USeqParts(u, ps) ==
  LET live == SelectSeq(ps, LAMBDA p : Exists(p.s, p.k) /\ ~IsNull(p.s, p.k))
      ok   == \A i \in 1..Len(live) : SeqOp(live[i].s, live[i].k).ok
      merge == IF u.depth >= 0 /\ live # <<>> /\ u.depth <= Len(live[1].k) THEN "first" ELSE u.sm
  IN IF ~ok THEN [ok |-> FALSE, ps |-> <<>>]
     ELSE [ok |-> TRUE, ps |-> IF live = <<>> THEN <<>>
                               ELSE IF merge = "first" THEN <<live[1]>>
                               ELSE IF merge = "last" THEN <<Last1(live)>> ELSE live]
UMapParts(u, ks) ==
  LET ps == UPaths(u, ks)
      merge == IF ks = <<>> THEN "combine"
               ELSE IF u.depth >= 0 /\ ps # <<>> /\ u.depth <= Len(ps[1].k) THEN "first" ELSE u.mm
  IN UMapGo(ps, merge, <<>>)
KeyIn(p, key) == LET m == MapOp(p.s, p.k) IN \E i \in 1..Len(m.v) : m.v[i] = key
RECURSIVE SeqPick(_, _)
SeqPick(ps, n) == IF ps = <<>> THEN <<>>
                  ELSE LET l == SeqOp(ps[1].s, ps[1].k).v IN
                       IF n < l THEN <<P(ps[1].s, Append(ps[1].k, KN(n)))>> ELSE SeqPick(Tail(ps), n - l)
(* the member locations behind a location of a union; none: nothing is there *)
UPaths(u, ks) ==
  IF ks = <<>> THEN [i \in 1..Len(u.ms) |-> P(u.ms[i], <<>>)]
  ELSE LET up == Front1(ks)  key == Last1(ks) IN
       IF up # <<>> /\ UPaths(u, up) = <<>> THEN <<>>
       ELSE IF IsKS(key) THEN
              LET m  == UMapParts(u, up)
                  in == SelectSeq(m.ps, LAMBDA p : KeyIn(p, key))
              IN [i \in 1..Len(in) |-> P(in[i].s, Append(in[i].k, key))]
       ELSE IF up = <<>> THEN <<>>
       ELSE LET m == USeqParts(u, UPaths(u, up)) IN SeqPick(m.ps, key.n)

MountOf(s, key) == LET S == {i \in 1..Len(s.es) : s.es[i][1] = key} IN IF S = {} THEN 0 ELSE MinOf(S)
Sub(s, ks) == s.es[MountOf(s, ks[1])][2]

(* locations the source was told to leave out (names only), and all below them *)
Ignored(s, ks) ==
  "ig" \in DOMAIN s /\ \E i \in 1..Len(s.ig) :
      Len(s.ig[i]) <= Len(ks) /\ \A j \in 1..Len(s.ig[i]) : ks[j] = KS(s.ig[i][j])
At(s, ks) ==     \* the value at a location of a plain source
  CASE s.k = "native" -> IF Ignored(s, ks) THEN NONE ELSE NativeAt(s.v, ks, s.al)
    [] s.k = "json" -> JsonAt(s.v, ks)
    [] s.k = "config" -> CfgAt(s, ks)

Exists(s, ks) ==
  CASE s.k = "union" -> ks = <<>> \/ UPaths(s, ks) # <<>>
    [] s.k = "mount" -> ks = <<>> \/ (MountOf(s, ks[1]) > 0 /\ Exists(Sub(s, ks), Tail(ks)))
    [] s.k = "config" -> CfgKind(s, ks) \in {"croot", "csec"} \/ (CfgKind(s, ks) = "val" /\ CfgAt(s, ks) # NONE)
    [] OTHER -> At(s, ks) # NONE
IsNull(s, ks) ==
  CASE s.k = "union" ->
         IF ks = <<>> THEN UMapParts(s, ks).ps = <<>>
         ELSE LET ps == UPaths(s, ks) IN ps # <<>> /\ \A i \in 1..Len(ps) : IsNull(ps[i].s, ps[i].k)
    [] s.k = "mount" -> ks # <<>> /\ MountOf(s, ks[1]) > 0 /\ IsNull(Sub(s, ks), Tail(ks))
    [] s.k = "config" -> CfgKind(s, ks) = "val" /\ CfgAt(s, ks).t = "null"
    [] OTHER -> At(s, ks).t = "null"
(* the keys of the mapping there *)
MapOp(s, ks) ==
  CASE s.k = "union" ->
         LET m == UMapParts(s, ks) IN
         IF ~m.ok \/ (ks # <<>> /\ UPaths(s, ks) = <<>>) THEN Bad
         ELSE Ok(Uniq(Concat([i \in 1..Len(m.ps) |-> MapOp(m.ps[i].s, m.ps[i].k).v])))
    [] s.k = "mount" ->
         IF ks = <<>> THEN Ok([i \in 1..Len(s.es) |-> s.es[i][1]])
         ELSE IF MountOf(s, ks[1]) = 0 THEN Bad ELSE MapOp(Sub(s, ks), Tail(ks))
    [] s.k = "config" ->
         (CASE CfgKind(s, ks) = "croot" -> Ok([i \in 1..Len(s.secs) |-> KS(s.secs[i][1])])
            [] CfgKind(s, ks) = "csec" -> Ok(SecKeys(s, CfgSec(s, ks)))
            [] CfgKind(s, ks) = "abs" -> Bad
            [] OTHER -> LET v == CfgAt(s, ks) IN IF v.t = "dict" THEN Ok(DKeys(v.d)) ELSE Bad)
    [] OTHER ->
         LET v == At(s, ks)
             al == IF s.k = "native" /\ ks = <<>> THEN s.al ELSE <<>>
         IN CASE v.t = "dict" -> Ok(IF al # <<>> THEN DKeys(al) ELSE DKeys(v.d))
              [] v.t \in {"list", "tup"} /\ s.k = "native" /\ al # <<>> -> Ok(DKeys(al))
              [] v.t = "str" /\ s.k = "native" /\ al # <<>> -> Ok(DKeys(al))
              [] OTHER -> Bad
(* the length of the sequence there *)
SeqOp(s, ks) ==
  CASE s.k = "union" ->
         IF ks = <<>> \/ UPaths(s, ks) = <<>> THEN Bad
         ELSE LET m == USeqParts(s, UPaths(s, ks))
                  RECURSIVE sum(_)
                  sum(ps) == IF ps = <<>> THEN 0 ELSE SeqOp(ps[1].s, ps[1].k).v + sum(Tail(ps))
              IN IF m.ok THEN Ok(sum(m.ps)) ELSE Bad
    [] s.k = "mount" ->
         IF ks = <<>> \/ MountOf(s, ks[1]) = 0 THEN Bad ELSE SeqOp(Sub(s, ks), Tail(ks))
    [] s.k = "config" ->
         IF CfgKind(s, ks) # "val" THEN Bad
         ELSE LET v == CfgAt(s, ks) IN
              CASE v.t = "str" -> IF Unbalanced(v.s) /\ ~HasCh(v.s, "\n") THEN Bad ELSE Ok(Len(TextItems(v.s)))
                [] v.t \in {"list", "tup"} -> Ok(Len(v.l))
                [] OTHER -> Bad
    [] OTHER ->
         LET v == At(s, ks) IN
         CASE v.t \in {"list", "tup"} -> Ok(Len(v.l))
           [] v.t = "st" -> Ok(9)
           [] v.t = "str" /\ s.k = "native" -> Ok(Len(v.s))
           [] OTHER -> Bad
(* the scalar there, read as a type *)
RECURSIVE Prim(_, _, _)
Prim(s, ks, ty) ==
  CASE s.k = "union" ->
         LET ps == UPaths(s, ks)
             S  == {i \in 1..Len(ps) : ~IsNull(ps[i].s, ps[i].k)}
             p  == ps[IF S = {} THEN 1 ELSE MinOf(S)]
         IN IF ks = <<>> \/ ps = <<>> THEN Bad ELSE Prim(p.s, p.k, ty)
    [] s.k = "mount" -> IF ks = <<>> \/ MountOf(s, ks[1]) = 0 THEN Bad ELSE Prim(Sub(s, ks), Tail(ks), ty)
    [] s.k = "config" ->
         IF CfgKind(s, ks) # "val" THEN Bad
         ELSE LET r == ParserPrim(ty, CfgAt(s, ks)) IN
              IF r.ok /\ s.raw /\ r.v.t = "str" /\ HasCh(r.v.s, "\n")
              THEN LET b == CfgRaw(s, ks) IN IF b = NONE THEN r ELSE Ok(b)
              ELSE r
    [] s.k = "json" -> JsonPrim(s.strict, ty, At(s, ks))
    [] OTHER -> ParserPrim(ty, At(s, ks))

(* can the root of the source be opened at all (a union reads its roots) *)
RECURSIVE Opens(_)
Opens(s) == CASE s.k = "union" -> (\A i \in 1..Len(s.ms) : Opens(s.ms[i])) /\ UMapParts(s, <<>>).ok
              [] s.k = "mount" -> \A i \in 1..Len(s.es) : Opens(s.es[i][2])
              [] OTHER -> TRUE

(* the location as it is named in errors *)
KeyName(key) == IF IsKS(key) THEN key.k ELSE IntStr(key.n)
KeysStr(ks) == IF ks = <<>> THEN "" ELSE
               KeyName(ks[1]) \o JoinStr([i \in 1..Len(ks) - 1 |->
                  IF IsKS(ks[i + 1]) THEN "." \o ks[i + 1].k ELSE "[" \o IntStr(ks[i + 1].n) \o "]"], "")
RECURSIVE PathStr(_, _)
PathStr(s, ks) ==
  CASE s.k = "mount" -> IF ks = <<>> THEN ""
                        ELSE IF Len(ks) = 1 \/ MountOf(s, ks[1]) = 0
                             THEN "@" \o KeyName(ks[1]) \o (IF Len(ks) = 1 THEN "" ELSE ":" \o KeysStr(Tail(ks)))
                        ELSE "@" \o KeyName(ks[1]) \o ":" \o PathStr(Sub(s, ks), Tail(ks))
    [] s.k = "config" -> JoinStr((IF s.loc # "" THEN <<s.loc>> ELSE <<>>)
                                 \o (IF s.section # "" THEN <<"[" \o s.section \o "]">> ELSE <<>>)
                                 \o <<KeysStr(ks)>>, ":")
    [] s.k \in {"native", "json"} /\ "loc" \in DOMAIN s ->
                         IF s.loc # "" THEN s.loc \o ":" \o KeysStr(ks) ELSE KeysStr(ks)
    [] OTHER -> KeysStr(ks)
=============================================================================
