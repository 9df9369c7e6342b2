------------------------------ MODULE Families ------------------------------
(* Exhaustive small scopes.  A family is a set of programs spanned by a few       *)
(* dimensions (declaration, option, presence, hook outcome, ...), every           *)
(* combination of which is one program, numbered in mixed radix.  TLC prints the  *)
(* programs; the harness has the real library run them and TLC compare what they   *)
(* showed (Trace.tla) and check the laws on them (LawsRun.tla).  A quick run takes *)
(* an even sample of a family, a thorough run all of it.                          *)
EXTENDS Sources, Json, IOUtils

NoPat == [k |-> "none"]
Pat(pre, cls, mn, mx, suf, end) == [k |-> "pat", pre |-> pre, cls |-> cls, mn |-> mn, mx |-> mx, suf |-> suf, end |-> end, g |-> TRUE]
NoH == [compute |-> 0, resolve |-> 0, parse |-> 0, munge |-> 0, filter |-> 0, validate |-> 0, keyf |-> 0]
X == [x |-> 0]
\* a field declaration with options o
F(kind, nm, c, o) ==
  o @@ (CASE kind \in {"String", "Type"} -> [minl |-> -1, maxl |-> -1, pat |-> NoPat, alpha |-> "", ch |-> <<>>]
          [] kind \in {"Integer", "Float", "Decimal"} -> [lo |-> NONE, hi |-> NONE, ipat |-> NoPat]
          [] kind = "Date" -> [after |-> NONE, before |-> NONE, fmts |-> <<"%Y-%m-%d">>]
          [] kind = "Datetime" -> [after |-> NONE, before |-> NONE, fmts |-> <<"iso8601">>]
          [] kind = "Time" -> [after |-> NONE, before |-> NONE, fmts |-> <<"%H:%M:%S">>]
          [] kind = "List" -> [minl |-> -1, maxl |-> -1, allow |-> FALSE]
          [] kind = "Dict" -> [req |-> <<>>, maxk |-> -1]
          [] kind = "SubForm" -> [reset |-> FALSE, unm |-> [k |-> "ignore"]]
          [] kind = "Poly" -> [reset |-> FALSE, unm |-> [k |-> "ignore"]]
          [] kind = "Group" -> [src |-> X, dflt |-> [k |-> "list", v |-> NONE, h |-> 0]]
          [] OTHER -> [style |-> 0])
    @@ [kind |-> kind, name |-> nm, owner |-> c, src |-> IF nm = "" THEN X ELSE KS(nm), null |-> "unset",
        dflt |-> [k |-> "unset", v |-> NONE, h |-> 0], ign |-> <<>>, tr |-> <<>>, tags |-> <<>>, hooks |-> NoH,
        bc |-> [k |-> "none"], cap |-> NoPat, fromctx |-> FALSE, style |-> 0]
O == [style |-> 0]          \* no options
Lit(v) == [k |-> "lit", v |-> v, h |-> 0]
Dk(k) == [k |-> k, v |-> NONE, h |-> 0]
Dh(h) == [k |-> "hook", v |-> NONE, h |-> h]
C(n, bases, own) == [name |-> n, bases |-> bases, own |-> own, hide |-> <<>>, anon |-> FALSE]
Hk(op, arg) == [reads |-> <<>>, op |-> op, arg |-> arg]
H1(hk, h) == [NoH EXCEPT ![hk] = h]
(* operations *)
oNew(x, c) == [o |-> "new", x |-> x, c |-> c, style |-> 0]
oMapX(x, a, tags, reset, unm, mode) == [o |-> "map", x |-> x, src |-> a, tags |-> tags, reset |-> reset, unm |-> unm, mode |-> mode, style |-> 0]
Ign == [k |-> "ignore"]
oMap(x, a) == oMapX(x, a, <<>>, FALSE, Ign, "collect")
oMapM(x, a, mode) == oMapX(x, a, <<>>, FALSE, Ign, mode)
oMake(x, c, a) == [o |-> "make", x |-> x, c |-> c, src |-> a, kw |-> FALSE, style |-> 0]
oEnter(c) == [o |-> "enter", x |-> 1, c |-> c, style |-> 0]
oLeave == [o |-> "leave", x |-> 1, style |-> 0]
oAsk(qs) == [o |-> "ask", x |-> 1, qs |-> qs, style |-> 0]
oRewind(c) == [o |-> "rewind", x |-> 1, c |-> c, style |-> 0]
Raw(v) == IF v = Null THEN [a |-> "none"] ELSE [a |-> "raw", v |-> v]
ASrc(i) == [a |-> "src", i |-> i]
NatS(v) == [k |-> "native", v |-> v, al |-> <<>>, style |-> 0]
JsonS(v, strict) == [k |-> "json", v |-> v, strict |-> strict, style |-> 0]
Program(flds, classes, hooks, srcs, ops, ns) ==
  [flds |-> flds, classes |-> classes, hooks |-> hooks, srcs |-> srcs, ops |-> ops, nslots |-> ns, ord |-> TRUE]
D1(k, v) == DictV(<< <<KS(k), v>> >>)
Ent(k, v) == IF v = NONE THEN <<>> ELSE << <<KS(k), v>> >>     \* an entry, or its absence
S(s) == StrV(s)
I(i) == IntV(i)
Pick(seq, d) == seq[d + 1]

(* ------------------------------- C01, C02: values --------------------------- *)
U0 == "a2345678-1234-5678-1234-567812345678"
PlainVals == <<Null, BoolV(TRUE), BoolV(FALSE), I(0), I(1), I(2), I(3), I(4), I(-1), FltV(500), FltV(1000), FltV(1500), FltV(2000),
  FltV(2125), FltV(3000), FltV(3125), FltV(-500), NanV("flt"), InfV("flt", 1), InfV("flt", -1), S(""), S("a"), S("ab"), S("abc"), S("abcd"), S("v"), S("v1"), S("v12"),
  S("v123"), S("v1q"), S("1"), S("2"), S("3"), S("4"), S("+2"), S(" 2 "), S("02"), S("1.5"), S("2.0"), S("-1"), S("1e0"), S("nan"), S("inf"), S("true"),
  S("False"), S("T"), S("f"), S("yes"), S("xyz"), S("2020-02-01"), S("2020-02-02"), S("2020-02-03"), S("2020-02-04"), S("2020-02-30"),
  S("2020-02-02T10:00:00Z"), S("2020-02-02T11:30:00Z"), S("2020-02-02T12:00:00Z"), S("2020-02-02T12:00:01Z"), S("2020-02-02T13:30:00+02:00"), S("2020-02-02T13:29:59+02:00"),
  S("2020-02-03T00:00:00+12:00"), S("2020-02-02T06:30:01-05:30"), S("10:00:00"), S("11:30:00"),
  S("12:00:00"), S("12:00:01"), S("24:00:00"), S(U0), S("{" \o U0 \o "}"), S("a23456781234567812345678123456"),
  ListV(<<>>), ListV(<<I(1)>>), ListV(<<I(1), I(2)>>), ListV(<<I(2), S("ab")>>), ListV(<<I(1), Null>>), ListV(<<S("x"), I(3), I(4)>>),
  DictV(<<>>), D1("a", I(1)), DictV(<< <<KS("a"), I(1)>>, <<KS("b"), I(2)>> >>), D1("b", S("x")), D1("a", Null)>>
TypedVals == <<DecV(1500), DecV(3000), DecV(3125), DateV(2020, 2, 1), DateV(2020, 2, 2), DateV(2020, 2, 4), DtV(2020, 2, 2, 10, 0, 0, 0),
  DtV(2020, 2, 2, 12, 0, 1, 0), DtV(2020, 2, 2, 13, 30, 0, 120), DtV(2020, 2, 2, 11, 59, 0, -9999), TimeV(11, 30, 0), TimeV(12, 0, 1), StV(1900, 1, 1, 11, 30, 0), StV(1900, 1, 1, 12, 0, 1), UuidV(U0), TupV(<<I(1), S("ab")>>), TupV(<<>>),
  DictV(<< <<KS("a"), I(1)>>, <<KN(1), I(2)>> >>)>>
AllVals == PlainVals \o TypedVals
\* declarations: the fields from the given number on, the first of them the one in question
Decls == <<
  <<"Integer", O>>, <<"Integer", [lo |-> I(1)]>>, <<"Integer", [hi |-> I(2)]>>, <<"Integer", [lo |-> I(1), hi |-> I(3)]>>, <<"Integer", [null |-> "no"]>>,
  <<"Integer", [ipat |-> Pat("v", "0123456789", 1, 2, "", TRUE)]>>,
  <<"Float", O>>, <<"Float", [lo |-> FltV(1500)]>>, <<"Float", [hi |-> FltV(2000)]>>, <<"Float", [lo |-> I(1), hi |-> FltV(3000), null |-> "no"]>>,
  <<"Decimal", O>>, <<"Decimal", [lo |-> DecV(1500)]>>, <<"Decimal", [hi |-> DecV(3000), null |-> "yes"]>>,
  <<"String", O>>, <<"String", [minl |-> 2]>>, <<"String", [maxl |-> 2]>>, <<"String", [minl |-> 1, maxl |-> 3, null |-> "no"]>>,
  <<"String", [maxl |-> 0]>>, <<"String", [pat |-> Pat("v", "0123456789", 1, 2, "", FALSE)]>>, <<"String", [pat |-> Pat("v", "0123456789", 1, 2, "", TRUE)]>>,
  <<"String", [alpha |-> "abc"]>>, <<"String", [ch |-> <<S("ab"), S("v1")>>]>>, <<"String", [ch |-> <<S("ab")>>, tr |-> << <<S("a"), S("xyz")>> >>]>>,
  <<"Boolean", O>>, <<"Boolean", [null |-> "no"]>>,
  <<"Date", O>>, <<"Date", [after |-> DateV(2020, 2, 2)]>>, <<"Date", [before |-> DateV(2020, 2, 3)]>>, <<"Date", [fmts |-> <<"%d/%m/%Y", "iso8601">>]>>,
  <<"Datetime", O>>, <<"Datetime", [after |-> DtV(2020, 2, 2, 11, 30, 0, 0)]>>, <<"Datetime", [before |-> DtV(2020, 2, 2, 12, 0, 0, 0)]>>,
  <<"Datetime", [after |-> DtV(2020, 2, 2, 13, 30, 0, 120), before |-> DtV(2020, 2, 2, 13, 30, 0, 60)]>>,
  <<"Datetime", [before |-> DtV(2020, 2, 2, 12, 0, 0, -9999), null |-> "yes"]>>,
  <<"Time", O>>, <<"Time", [after |-> StV(1900, 1, 1, 11, 30, 0)]>>, <<"Time", [before |-> StV(1900, 1, 1, 12, 0, 0), null |-> "no"]>>,
  <<"Time", [after |-> TimeV(11, 30, 0), before |-> TimeV(12, 0, 0)]>>,
  <<"UUID", O>>, <<"Field", O>>, <<"Field", [null |-> "no"]>>,
  <<"List", O>>, <<"List", [minl |-> 1]>>, <<"List", [maxl |-> 1]>>, <<"List", [minl |-> 2, maxl |-> 2, allow |-> TRUE]>>,
  <<"Tuple", O>>, <<"Dict", O>>, <<"Dict", [req |-> <<KS("a")>>]>>, <<"Dict", [maxk |-> 1]>>, <<"Dict", [req |-> <<KS("a"), KN(1)>>]>>, <<"SubForm", O>>, <<"Group", O>> >>
\* the fields of declaration i, the first one numbered n, and its helpers after it; helper class hc
DeclFlds(i, nm, c, n, hc) ==
  LET d == Decls[i]  k == d[1]  o == d[2] IN
  CASE k = "List" -> <<F(k, nm, c, o @@ [fs |-> <<n + 1>>]), F("Integer", "", 0, O)>>
    [] k = "Tuple" -> <<F(k, nm, c, o @@ [fs |-> <<n + 1, n + 2>>]), F("Integer", "", 0, [lo |-> I(1)]), F("String", "", 0, O)>>
    [] k = "Dict" -> <<F(k, nm, c, o @@ [fs |-> <<n + 1, n + 2>>]), F("String", "", 0, O), F("Integer", "", 0, [hi |-> I(2)])>>
    [] k = "SubForm" -> <<F(k, nm, c, o @@ [cls |-> hc]), F("Integer", "a", hc, [lo |-> I(1)])>>
    [] k = "Group" -> <<F(k, nm, c, o @@ [gs |-> << [k |-> "key", key |-> KS("a"), f |-> n + 1, bare |-> FALSE],
                                                    [k |-> "pat", pat |-> Pat("", "ab", 1, 2, "", TRUE), f |-> n + 2] >>]),
                        F("Integer", "", 0, O), F("Integer", "", 0, [hi |-> I(1)])>>
    [] OTHER -> <<F(k, nm, c, o)>>
DeclCls(i, n, name) == IF Decls[i][1] = "SubForm" THEN <<C(name, <<>>, <<n + 1>>)>> ELSE <<>>
\* places: 0 top, 1 item of a list, 2 entry of a dict, 3 in a sub-form, 4 in a tuple, 5 a bare list item
VDims == <<Len(Decls), Len(AllVals), 6, 3>>
VMake(d) ==
  LET di == d[1] + 1
      v  == Pick(AllVals, d[2])
      json == d[4] = 1
      pl == d[3]
      k == Decls[di][1]
      item == pl \in {1, 2, 4, 5}
      hc == IF pl = 3 THEN 3 ELSE 2
      core == DeclFlds(di, IF item THEN "" ELSE "a", IF item THEN 0 ELSE IF pl = 3 THEN 2 ELSE 1, 1, hc)
      n == Len(core) + 1
      wrap == CASE pl = 0 -> <<>>
                [] pl = 1 -> <<F("List", "l", 1, [fs |-> <<1>>])>>
                [] pl = 2 -> <<F("Dict", "l", 1, [fs |-> <<n + 1, 1>>]), F("String", "", 0, O)>>
                [] pl = 3 -> <<F("SubForm", "l", 1, [cls |-> 2])>>
                [] pl = 4 -> <<F("Tuple", "l", 1, [fs |-> <<n + 1, 1>>]), F("Field", "", 0, O)>>
                [] pl = 5 -> <<F("List", "l", 1, [fs |-> <<1>>, allow |-> TRUE])>>
      top == IF pl = 0 THEN 1 ELSE n
      cls == <<C("K1", <<>>, <<top>>)>> \o (IF pl = 3 THEN <<C("K2", <<>>, <<1>>)>> ELSE <<>>) \o DeclCls(di, 1, "K9")
      doc == CASE pl = 0 -> (IF k = "Group" THEN (IF v.t = "dict" THEN v ELSE D1("a", v)) ELSE D1("a", v))
               [] pl = 1 -> D1("l", ListV(<<v, v>>))
               [] pl = 2 -> D1("l", DictV(<< <<KS("k"), v>>, <<KS("z"), v>> >>))
               [] pl = 3 -> D1("l", IF k = "Group" /\ v.t = "dict" THEN v ELSE D1("a", v))
               [] pl = 4 -> D1("l", ListV(<<I(0), v>>))
               [] pl = 5 -> D1("l", v)
      ok == /\ ~(k = "Group" /\ item)
            /\ json => d[2] < Len(PlainVals)
            /\ ~(k = "Datetime" /\ v.t = "date")
  IN IF ~ok THEN NONE
     ELSE Program(core \o wrap, cls, <<>>, <<JsonS(doc, FALSE), NatS(doc)>>,
                  <<oNew(1, 1), oMapM(1, CASE d[4] = 0 -> Raw(doc) [] d[4] = 1 -> ASrc(1) [] d[4] = 2 -> ASrc(2), IF d[4] = 2 THEN "raise" ELSE "collect")>>, 1)

(* ------------------------------- C03: defaults ------------------------------ *)
\* hooks 1.. : munge/filter outcomes and default hooks
DHooks == <<Hk("id", NONE), Hk("NONE", NONE), Hk("const", I(8)), Hk("true", NONE), Hk("false", NONE), Hk("const", I(6)), Hk("NONE", NONE), Hk("call", NONE)>>
DDims == <<9, 3, 3, 3, 4, 5, 4, 3>>
DMake(d) ==
  LET dflt == Pick(<<Dk("unset"), Dk("optional"), Lit(I(5)), Lit(Null), Dk("call"), Dh(6), Dh(7), Dh(8), Dk("list")>>, d[1])
      null == Pick(<<"unset", "yes", "no">>, d[2])
      ign  == Pick(<< <<>>, <<I(3)>>, <<I(3), Null>> >>, d[3])
      filt == Pick(<<0, 4, 5>>, d[4])
      mung == Pick(<<0, 1, 2, 3>>, d[5])
      v    == Pick(<<NONE, Null, I(2), I(3), S("x")>>, d[6])
      ctx  == Pick(<< <<>>, <<"ignore_default">>, <<"ignore_missing">>, <<"ignore_default", "ignore_missing">> >>, d[7])
      pl   == d[8]
      kind == IF d[1] = 8 THEN "Field" ELSE "Integer"
      f(nm, c) == F(kind, nm, c, [dflt |-> dflt, null |-> null, ign |-> ign, hooks |-> [NoH EXCEPT !.filter = filt, !.munge = mung]])
      flds == CASE pl = 0 -> <<f("a", 1)>>
                [] pl = 1 -> <<f("a", 2), F("SubForm", "s", 1, [cls |-> 2])>>
                [] pl = 2 -> <<f("", 0), F("List", "s", 1, [fs |-> <<1>>])>>
      cls == CASE pl = 0 -> <<C("K1", <<>>, <<1>>)>> [] pl = 1 -> <<C("K1", <<>>, <<2>>), C("K2", <<>>, <<1>>)>> [] pl = 2 -> <<C("K1", <<>>, <<2>>)>>
      doc == CASE pl = 0 -> DictV(Ent("a", v)) [] pl = 1 -> D1("s", DictV(Ent("a", v))) [] pl = 2 -> D1("s", ListV(<<v>>))
      pre == IF ctx = <<>> THEN <<>> ELSE <<oEnter([k |-> "vars", vars |-> IF Len(ctx) = 2 THEN [ignore_default |-> TRUE, ignore_missing |-> TRUE]
                                            ELSE IF ctx[1] = "ignore_default" THEN [ignore_default |-> TRUE] ELSE [ignore_missing |-> TRUE]])>>
      post == IF ctx = <<>> THEN <<>> ELSE <<oLeave>>
  IN IF (pl = 2 /\ v = NONE) \/ (dflt.k = "lit" /\ dflt.v = Null /\ null # "yes") THEN NONE
     ELSE Program(flds, cls, DHooks, <<>>, pre \o <<oNew(1, 1), oMap(1, Raw(doc))>> \o post \o <<oNew(1, 1), oMap(1, Raw(doc))>>, 1)

(* -------------------------------- C04: stages ------------------------------- *)
SHooks == <<Hk("dflt", NONE), Hk("at", KS("z")), Hk("const", I(1)), Hk("NONE", NONE), Hk("ERROR", NONE), Hk("prim", S("int")),
            Hk("invalid", NONE), Hk("add", NONE), Hk("true", NONE), Hk("false", NONE), Hk("raisev", NONE), Hk("NOTSET", NONE), Hk("lt", I(3))>>
SDims == <<4, 3, 5, 5, 5, 4, 4, 2>>
SMake(d) ==
  LET v == Pick(<<NONE, Null, I(2), S("x")>>, d[1])
      hk == [NoH EXCEPT !.resolve = Pick(<<0, 1, 2>>, d[2]), !.compute = Pick(<<0, 3, 4, 5, 12>>, d[3]), !.parse = Pick(<<0, 6, 4, 7, 11>>, d[4]),
                        !.munge = Pick(<<0, 8, 4, 5, 7>>, d[5]), !.filter = Pick(<<0, 9, 10, 7>>, d[6]), !.validate = Pick(<<0, 9, 7, 13>>, d[7])]
      f == F("Integer", "a", 1, [hooks |-> hk, dflt |-> IF d[8] = 1 THEN Dh(3) ELSE Dk("unset")])
  IN Program(<<f, F("Integer", "b", 1, [dflt |-> Dk("optional")])>>, <<C("K1", <<>>, <<1, 2>>)>>, SHooks, <<>>,
             <<oNew(1, 1), oMap(1, Raw(DictV(Ent("a", v) \o Ent("z", I(4)))))>>, 1)

(* ------------------------------- C05, C06: errors --------------------------- *)
\* a field of every container, each location fine, wrong, absent or null
EFlds == <<F("Integer", "i", 1, [hi |-> I(5), src |-> KS("eye")]),                       \* 1
           F("List", "l", 1, [fs |-> <<3>>]), F("Integer", "", 0, [hi |-> I(5), null |-> "no"]),            \* 2 3
           F("SubForm", "s", 1, [cls |-> 2]), F("Integer", "b", 2, [hi |-> I(5), src |-> KS("n.b")]),   \* 4 5
           F("Tuple", "t", 2, [fs |-> <<7, 8>>]), F("Integer", "", 0, [hi |-> I(5)]), F("String", "", 0, O),       \* 6 7 8
           F("Dict", "d", 1, [fs |-> <<10, 11>>]), F("String", "", 0, [maxl |-> 2]), F("SubForm", "", 0, [cls |-> 3]),  \* 9 10 11
           F("Integer", "x", 3, [hi |-> I(5)]), F("String", "y", 3, [dflt |-> Dk("optional"), null |-> "no"]),              \* 12 13
           F("Group", "g", 1, [gs |-> << [k |-> "pat", pat |-> Pat("g", "12", 1, 1, "", TRUE), f |-> 15] >>]), F("Integer", "", 0, [hi |-> I(5)])>>
ECls == <<C("K1", <<>>, <<1, 2, 4, 9, 14>>), C("K2", <<>>, <<5, 6>>), C("K3", <<>>, <<12, 13>>)>>
EDoc(q) ==      \* q: what is wrong with each place (0 nothing, 1 a bad value, 2 absent, 3 null)
  LET v(i) == Pick(<<I(3), I(9), NONE, Null>>, q[i])
      it(i) == Pick(<<I(3), I(9), S("q"), Null>>, q[i])
  IN DictV(Ent("eye", v(1)) \o
     << <<KS("l"), ListV(<<it(2), I(1), it(3)>>)>> >> \o
     (IF q[4] = 2 THEN <<>> ELSE << <<KS("s"), Pick(<<DictV(<< <<KS("n"), DictV(Ent("b", v(5)))>>, <<KS("t"), ListV(<<it(6), S("a")>>)>> >>), I(1), NONE, Null>>, q[4])>> >>) \o
     << <<KS("d"), DictV(<< <<KS(IF q[7] = 1 THEN "kkk" ELSE "k"), DictV(Ent("x", v(8)) \o Ent("y", Pick(<<S("y"), I(1), NONE, Null>>, q[9])))>>,
                             <<KS("m"), DictV(Ent("x", I(1)))>> >>)>>,
        <<KS("g1"), it(10)>> >>)
EDims == <<4, 2, 2, 4, 3, 2, 2, 3, 3, 2>>
EMake(d) == LET doc == EDoc(d) IN
            Program(EFlds, ECls, <<>>, <<JsonS(doc, FALSE)>>, <<oNew(1, 1), oMap(1, IF (d[1] + d[10]) % 2 = 0 THEN Raw(doc) ELSE ASrc(1))>>, 1)
WDims == <<4, 2, 3, 4, 2, 2, 2, 2, 4>>
WMake(d) == LET doc == EDoc(<<d[1], d[2], 0, d[3], d[4], 0, d[5], d[6], 0, d[7]>>)
                good == EDoc(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>)
                a == CASE d[9] = 0 -> Raw(doc) [] d[9] = 1 -> ASrc(1) [] d[9] = 2 -> ASrc(2) [] OTHER -> Raw(doc)
                pre == IF d[8] = 1 THEN <<oMap(1, Raw(good)), oMap(2, Raw(good))>> ELSE <<>>
            IN Program(EFlds, ECls, <<>>, <<JsonS(doc, FALSE), NatS(doc)>>,
                       <<oNew(1, 1), oNew(2, 1)>> \o pre \o <<oMapM(1, a, "collect"), oMapM(2, a, "raise"), oMake(3, 1, a)>>, 3)

(* ------------------------------ C08: exceptions ----------------------------- *)
\* a hook that raises, at every kind of hook and in every kind of place
XKinds == <<"compute", "resolve", "parse", "munge", "filter", "validate", "default", "keyf">>
XDims == <<Len(XKinds), 9, 3, 2, 2, 2>>
XMake(d) ==
  LET hk == Pick(XKinds, d[1])
      pl == d[2]
      op == Pick(<<"raise", "raisev", "invalid">>, d[3])
      mode == Pick(<<"collect", "raise">>, d[4])
      outer == d[5] = 1       \* inside a scope of the user's
      amb == d[6] = 1         \* a sub-form's hook maps another form before it fails
      rds == IF amb THEN <<[k |-> "map", c |-> 4, s |-> 1, mode |-> "collect"]>> ELSE <<>>
      o == IF hk = "default" THEN [dflt |-> Dh(1)] ELSE IF hk = "keyf" THEN [style |-> 0] ELSE [hooks |-> H1(hk, 1)]
      bad(nm, c) == F("Integer", nm, c, o)
      flds == CASE pl = 0 -> <<bad("a", 1)>>
                [] pl = 1 -> <<bad("a", 2), F("SubForm", "s", 1, [cls |-> 2])>>
                [] pl = 2 -> <<bad("", 0), F("List", "s", 1, [fs |-> <<1>>])>>
                [] pl = 3 -> <<bad("", 0), F("Tuple", "s", 1, [fs |-> <<3, 1>>]), F("Field", "", 0, O)>>
                [] pl = 4 -> <<bad("", 0), F("Dict", "s", 1, [fs |-> <<3, 1>>] @@ IF hk = "keyf" THEN [hooks |-> H1("keyf", 1)] ELSE O), F("String", "", 0, O)>>
                [] pl = 5 -> <<bad("", 0), F("Group", "s", 1, [gs |-> <<[k |-> "key", key |-> KS("s"), f |-> 1, bare |-> FALSE]>>])>>
                [] pl = 6 -> <<bad("a", 2), F("SubForm", "s", 1, [cls |-> 3]), F("List", "l", 3, [fs |-> <<4>>]), F("SubForm", "", 0, [cls |-> 2])>>
                [] pl = 7 -> <<bad("", 0), F("List", "s", 1, [fs |-> <<1>>, allow |-> TRUE])>>
                [] pl = 8 -> <<F("Integer", "s", 1, [hooks |-> H1("munge", 2)]), bad("a", 1)>>      \* read early by another
      cl == CASE pl \in {0} -> <<C("K1", <<>>, <<1>>)>>
              [] pl = 8 -> <<C("K1", <<>>, <<1, 2>>)>>
              [] pl = 1 -> <<C("K1", <<>>, <<2>>), C("K2", <<>>, <<1>>)>>
              [] pl = 6 -> <<C("K1", <<>>, <<2>>), C("K2", <<>>, <<1>>), C("K3", <<>>, <<3>>)>>
              [] OTHER -> <<C("K1", <<>>, <<2>>)>>
      n == Len(flds)
      pad == [i \in 1..3 - Len(cl) |-> C("P" \o ToString(i), <<>>, <<>>)]
      in(v) == IF hk = "default" THEN DictV(<<>>) ELSE D1("a", v)
      el(v) == IF hk = "default" THEN Null ELSE v
      doc == CASE pl = 0 -> in(I(1)) [] pl = 1 -> D1("s", in(I(1))) [] pl = 2 -> D1("s", ListV(<<I(1), I(2)>>)) [] pl = 3 -> D1("s", ListV(<<I(1), I(2)>>))
               [] pl = 4 -> D1("s", D1("k", I(1))) [] pl = 5 -> D1("s", I(1)) [] pl = 6 -> D1("s", D1("l", ListV(<<in(I(1))>>))) [] pl = 7 -> D1("s", I(1))
               [] pl = 8 -> DictV(Ent("s", I(3)) \o (IF hk = "default" THEN <<>> ELSE Ent("a", I(1))))
      vars == [k |-> "vars", vars |-> [u |-> I(1)]]
      ask == oAsk(<<[q |-> "vars", v |-> "u"], [q |-> "path"]>>)
  IN IF (hk = "keyf" /\ pl # 4) \/ (op = "invalid" /\ hk \in {"resolve", "default"}) \/ (pl \in {2, 3, 4, 5, 7} /\ hk = "default") THEN NONE
     ELSE Program(flds \o <<F("Integer", "z", 4, [dflt |-> Lit(I(3))])>>, cl \o pad \o <<C("K4", <<>>, <<n + 1>>)>>,
                  <<[reads |-> rds, op |-> op, arg |-> NONE],
                    [reads |-> <<[k |-> "get", up |-> 0, ch |-> <<"a">>, catch |-> TRUE]>>, op |-> "id", arg |-> NONE]>>,
                  <<NatS(DictV(<<>>))>>,
                  (IF outer THEN <<oEnter(vars)>> ELSE <<>>) \o <<oNew(1, 1), oMapM(1, Raw(doc), mode), ask, oNew(2, 4), oMap(2, Raw(DictV(<<>>)))>>
                  \o (IF outer THEN <<oLeave, ask>> ELSE <<>>), 2)

(* ------------------------------- C10: read order ---------------------------- *)
\* three fields a b c; hooks of each read some of the others, without circles
Reads(ns) == [i \in 1..Len(ns) |-> [k |-> "get", up |-> 0, ch |-> <<ns[i]>>, catch |-> TRUE]]
RDims == <<4, 4, 2, 3, 3, 3, 6, 3, 2>>
RMake(d) ==
  LET nm == <<"a", "b", "c">>
      perm == Pick(<< <<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>> >>, d[7])
      sets2 == << <<>>, <<1>>, <<2>>, <<2, 1>> >>
      \* in rank order r1 r2 r3: the third may read the others, the second the first
      r(j) == nm[perm[j]]
      h3 == Reads([i \in 1..Len(Pick(sets2, d[1])) |-> r(Pick(sets2, d[1])[i])])
      h2 == IF d[3] = 1 THEN Reads(<<r(1)>>) ELSE <<>>
      hkk == Pick(<<"munge", "validate", "compute">>, d[8])
      op == Pick(<<"id", "true", "const">>, d[8])
      hooks == <<[reads |-> <<>>, op |-> op, arg |-> I(7)], [reads |-> h2, op |-> op, arg |-> I(7)], [reads |-> h3, op |-> op, arg |-> I(7)]>>
      rank(i) == CHOOSE j \in 1..3 : perm[j] = i
      v(i) == Pick(<<NONE, I(2), I(9)>>, d[3 + i])
      out == d[9] = 1       \* are they fields of a sub-form (whose outer form reads through it)
      f(i) == F("Integer", nm[i], IF out THEN 2 ELSE 1, [hi |-> I(8), hooks |-> H1(hkk, rank(i)), dflt |-> IF i = 1 THEN Lit(I(4)) ELSE Dk("unset")])
      doc == DictV(Ent("a", v(1)) \o Ent("b", v(2)) \o Ent("c", v(3)))
  IN IF d[2] # 0 /\ (~out) THEN NONE
     ELSE IF ~out THEN Program([i \in 1..3 |-> f(i)], <<C("K1", <<>>, <<1, 2, 3>>)>>, hooks, <<>>, <<oNew(1, 1), oMap(1, Raw(doc))>>, 1)
     ELSE LET ch == Pick(<< <<"s">>, <<"s", "a">>, <<"s", "b">>, <<"s", "c">> >>, d[2]) IN
          Program([i \in 1..3 |-> f(i)] \o <<F("Integer", "o", 1, [hooks |-> H1("munge", 4)]), F("SubForm", "s", 1, [cls |-> 2])>>,
                  <<C("K1", <<>>, <<4, 5>>), C("K2", <<>>, <<1, 2, 3>>)>>,
                  hooks \o <<[reads |-> <<[k |-> "get", up |-> 0, ch |-> ch, catch |-> TRUE]>>, op |-> "id", arg |-> NONE]>>, <<>>,
                  <<oNew(1, 1), oMap(1, Raw(DictV(<< <<KS("o"), I(1)>>, <<KS("s"), doc>> >>)))>>, 1)

(* ------------------------- C11: scopes and rewinding ------------------------ *)
ScOps == <<oEnter([k |-> "vars", vars |-> [u |-> I(1)]]), oEnter([k |-> "vars", vars |-> [w |-> I(2)]]), oEnter([k |-> "src", s |-> 1]),
           oEnter([k |-> "key", key |-> KS("a")]), oEnter([k |-> "key", key |-> KS("b")]), oEnter([k |-> "reset"]), oEnter([k |-> "src", s |-> 2]),
           oRewind([k |-> "var", v |-> "u"]), oRewind([k |-> "src", v |-> "u"]), oRewind([k |-> "any", v |-> "u"]), oLeave>>
ScDoc == D1("a", DictV(<< <<KS("a"), I(1)>>, <<KS("b"), ListV(<<I(5)>>)>> >>))
ScQs == <<[q |-> "vars", v |-> "u"], [q |-> "vars", v |-> "w"], [q |-> "var", v |-> "u"], [q |-> "path"], [q |-> "exists"], [q |-> "depth"], [q |-> "prim", ty |-> "auto"]>>
\* what is open after a prefix, as far as deciding what may follow: scopes, and what each leave undoes
RECURSIVE Shape(_, _, _)
Shape(ops, sc, opens) ==       \* sc: kinds of the scopes; opens: "p" or the scopes put aside
  IF ops = <<>> THEN [ok |-> TRUE, n |-> Len(opens)]
  ELSE LET o == Head(ops)
           bases == {i \in 1..Len(sc) : sc[i] \in {"src", "reset"}}
           srcd == bases # {} /\ sc[MaxOf(bases)] = "src" 
       IN CASE o.o = "leave" -> IF opens = <<>> THEN [ok |-> FALSE, n |-> 0]
                                ELSE IF Last1(opens) = <<"p">> THEN Shape(Tail(ops), Front1(sc), Front1(opens))
                                ELSE Shape(Tail(ops), sc \o Tail(Last1(opens)), Front1(opens))
            [] o.o = "rewind" ->
                 LET S1 == {i \in 1..Len(sc) : CASE o.c.k = "var" -> sc[i] = "u" [] o.c.k = "src" -> sc[i] \in {"src", "reset"} [] OTHER -> TRUE}
                     at == IF S1 # {} THEN MaxOf(S1) ELSE 0
                 IN IF S1 = {} /\ o.c.k = "var" THEN Shape(Tail(ops), sc, opens)    \* refused
                    ELSE IF S1 = {} THEN Shape(Tail(ops), <<>>, Append(opens, <<"b">> \o sc))   \* down to the base
                    ELSE Shape(Tail(ops), SubSeq(sc, 1, at), Append(opens, <<"b">> \o SubSeq(sc, at + 1, Len(sc))))
            [] o.c.k = "key" /\ ~srcd -> Shape(Tail(ops), sc, opens)      \* refused
            [] OTHER -> Shape(Tail(ops), Append(sc, CASE o.c.k = "vars" -> (IF "u" \in DOMAIN o.c.vars THEN "u" ELSE "w") [] OTHER -> o.c.k), Append(opens, <<"p">>))
QDims == <<11, 11, 11, 11>>
QMake(d) ==
  LET ops == [i \in 1..4 |-> Pick(ScOps, d[i])]
      sh == Shape(ops, <<>>, <<>>)
      body == Concat([i \in 1..4 |-> <<ops[i], oAsk(ScQs)>>])
  IN IF ~sh.ok THEN NONE
     ELSE Program(<<F("Integer", "a", 1, O)>>, <<C("K1", <<>>, <<1>>)>>, <<>>, <<NatS(ScDoc), JsonS(D1("b", ScDoc), FALSE)>>,
                  body \o Concat([i \in 1..sh.n |-> <<oLeave, oAsk(ScQs)>>]), 1)

(* ------------------------------- C14: unions -------------------------------- *)
UTrees == <<NONE, Null, I(1), S("x"), ListV(<<>>), ListV(<<I(1)>>), ListV(<<I(2), Null>>), DictV(<<>>), D1("p", I(1)), D1("p", Null), D1("q", I(2)), D1("p", ListV(<<I(3)>>))>>
UDims == <<12, 12, 3, 3, 4, 4>>
UDecl(k) == CASE k = 0 -> <<F("Field", "a", 1, O)>>
              [] k = 1 -> <<F("List", "a", 1, [fs |-> <<2>>]), F("Integer", "", 0, O)>>
              [] k = 2 -> <<F("Dict", "a", 1, [fs |-> <<2, 3>>]), F("String", "", 0, O), F("Field", "", 0, O)>>
              [] k = 3 -> <<F("SubForm", "a", 1, [cls |-> 2]), F("Integer", "p", 2, [dflt |-> Dk("optional")]), F("List", "q", 2, [fs |-> <<4>>, dflt |-> Dk("optional")]), F("Integer", "", 0, O)>>
UMake(d) ==
  LET da == DictV(Ent("a", Pick(UTrees, d[1])))  db == DictV(Ent("a", Pick(UTrees, d[2])))
      mm == Pick(<<"first", "last", "combine">>, d[3])  sm == Pick(<<"first", "last", "combine">>, d[4])
      u == [k |-> "union", ms |-> <<NatS(da), JsonS(db, FALSE)>>, mm |-> mm, sm |-> sm, depth |-> Pick(<<-1, 0, 1, 2>>, d[5]), style |-> 0]
      raw == d[6] = 0
      ok == ~(d[6] = 0 /\ (Pick(UTrees, d[1]).t \in {"list", "dict"} \/ Pick(UTrees, d[2]).t \in {"list", "dict"}))
  IN IF ~ok THEN NONE
     ELSE [Program(UDecl(d[6]), <<C("K1", <<>>, <<1>>)>> \o (IF d[6] = 3 THEN <<C("K2", <<>>, <<2, 3>>)>> ELSE <<>>), <<>>, <<u>>, <<oNew(1, 1), oMap(1, ASrc(1))>>, 1)
           EXCEPT !.ord = FALSE]

(* --------------------------- C20: inheritance ------------------------------- *)
\* a diamond: K1; K2(K1); K3(K1); K4(K2, K3), each declaring some of a and b, K2..K4 hiding some
Owns == << <<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">> >>
IDims == <<5, 5, 5, 5, 3, 3, 2>>
IMake(d) ==
  LET own(c) == Pick(Owns, d[c])
      cnt(c) == IF c = 0 THEN 0 ELSE Len(own(1)) + (IF c > 1 THEN Len(own(2)) ELSE 0) + (IF c > 2 THEN Len(own(3)) ELSE 0) + (IF c > 3 THEN Len(own(4)) ELSE 0)
      ids(c) == [i \in 1..Len(own(c)) |-> cnt(c - 1) + i]
      flds == Concat([c \in 1..4 |-> [i \in 1..Len(own(c)) |-> F("Integer", own(c)[i], c, [dflt |-> Lit(I(10 * c + i))])]])
      hid(c) == IF c = 3 THEN Pick(<< <<>>, <<"a">>, <<"b">> >>, d[5]) ELSE IF c = 4 THEN Pick(<< <<>>, <<"a">>, <<"b">> >>, d[6]) ELSE <<>>
      inh(c) == {own(1)[i] : i \in 1..Len(own(1))} \cup (IF c = 4 THEN {own(2)[i] : i \in 1..Len(own(2))} \cup {own(3)[i] : i \in 1..Len(own(3))} ELSE {})
      ok == \A c \in {3, 4} : \A i \in 1..Len(hid(c)) : hid(c)[i] \in inh(c) /\ ~\E j \in 1..Len(own(c)) : own(c)[j] = hid(c)[i]
      B == << <<>>, <<1>>, <<1>>, IF d[7] = 0 THEN <<2, 3>> ELSE <<3, 2>> >>
  IN IF ~ok THEN NONE
     ELSE Program(flds, [c \in 1..4 |-> [name |-> "K" \o ToString(c), bases |-> B[c], own |-> ids(c), hide |-> hid(c), anon |-> FALSE]], <<>>, <<>>,
                  [c \in 1..4 |-> [o |-> "fields", x |-> 1, c |-> c, style |-> 0]] \o
                  <<oNew(1, 4), oMap(1, Raw(D1("a", I(1)))), [o |-> "get", x |-> 1, n |-> "b", attr |-> TRUE, style |-> 0],
                    oNew(1, 3), oMap(1, Raw(D1("b", I(2)))), oNew(1, 1), oMap(1, Raw(DictV(<<>>)))>>, 1)

(* ------------------------------- C07: junk ---------------------------------- *)
JFlds == <<F("Integer", "i", 1, [hi |-> I(5)]), F("Float", "f", 1, O), F("Boolean", "b", 1, O), F("String", "s", 1, [pat |-> Pat("v", "012", 1, 2, "", FALSE)]),   \* 1-4
           F("Date", "d", 1, O), F("Time", "tm", 1, O), F("UUID", "u", 1, O), F("Datetime", "dt", 1, O), F("Decimal", "dc", 1, [lo |-> DecV(1500)]),          \* 5-9
           F("List", "l", 1, [fs |-> <<11>>]), F("Integer", "", 0, O), F("SubForm", "sf", 1, [cls |-> 2]), F("Integer", "x", 2, O),               \* 10-13
           F("Tuple", "t", 1, [fs |-> <<15, 16>>]), F("Integer", "", 0, O), F("String", "", 0, O),                                                \* 14-16
           F("Dict", "m", 1, [fs |-> <<18, 19>>]), F("String", "", 0, [maxl |-> 1]), F("SubForm", "", 0, [cls |-> 2]),                               \* 17-19
           F("Group", "g", 1, [gs |-> << [k |-> "pat", pat |-> Pat("g", "12", 1, 1, "", TRUE), f |-> 21] >>]), F("List", "", 0, [fs |-> <<22>>, allow |-> TRUE]), F("Boolean", "", 0, O), \* 20-22
           F("Poly", "p", 1, [tf |-> 24]), F("Type", "t", 3, [tstyle |-> "abstract"]), F("Type", "t", 4, [tstyle |-> "instance", ch |-> <<S("v1")>>, dflt |-> Lit(S("v1"))]),
           F("Integer", "y", 4, O)>>      \* 23-26
JCls == <<C("K1", <<>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 20, 23>>), C("K2", <<>>, <<13>>), C("K3", <<>>, <<24>>), C("K4", <<3>>, <<25, 26>>)>>
JVals == <<Null, BoolV(TRUE), I(0), BigV("int", 1), BigV("int", -1), NanV("flt"), InfV("flt", 1), WideV("int", "9007199254740993"), FltV(2500), S(""), S("x"), S(" 7 "),
           S("v1"), S("2020-02-30"), ListV(<<>>), ListV(<<S("x")>>), ListV(<<ListV(<<I(1)>>)>>), ListV(<<D1("x", I(1))>>), DictV(<<>>), D1("x", ListV(<<I(1)>>)), D1("x", Null),
           D1("t", S("v1")), D1("t", ListV(<<S("v1")>>)), D1("t", D1("t", I(1))), DictV(Ent("t", Null) \o Ent("y", S("q"))), D1("k", DictV(<<>>)), D1("", ListV(<<>>)),
           D1("k", ListV(<<Null, I(3)>>)), ListV(<<S("a"), Null>>)>>
JNames == <<"i", "f", "b", "s", "d", "tm", "u", "dt", "dc", "l", "sf", "t", "m", "g1", "p">>
JDims == <<16, Len(JVals), 4, 4>>
JMake(d) ==
  LET v == Pick(JVals, d[2])
      w == CASE d[3] = 0 -> v [] d[3] = 1 -> ListV(<<v, v>>) [] d[3] = 2 -> D1("x", v) [] d[3] = 3 -> D1("k", D1("x", v))
      doc == IF d[1] = 15 THEN w ELSE D1(JNames[d[1] + 1], w)
      a == CASE d[4] = 0 -> Raw(doc) [] OTHER -> ASrc(d[4])
  IN IF d[1] = 15 /\ d[4] = 0 /\ d[3] = 0 THEN NONE
     ELSE Program(JFlds, JCls, <<>>, <<JsonS(doc, FALSE), JsonS(doc, TRUE), NatS(doc)>>, <<oNew(1, 1), oMap(1, a)>>, 1)

(* --------------------------- C12: tours of a document ------------------------ *)
TD1 == DictV(Ent("a", DictV(Ent("b", ListV(<<I(1), Null>>)) \o Ent("c", S("xy")))) \o Ent("l", ListV(<<D1("a", I(2)), ListV(<<>>)>>)) \o Ent("n", Null))
TD2 == DictV(Ent("a", DictV(Ent("b", ListV(<<I(3)>>)) \o Ent("d", D1("e", I(4))))) \o Ent("l", Null) \o Ent("m", S("t")) \o Ent("a.b", I(5)))
Un(ms, mm, sm, dp) == [k |-> "union", ms |-> ms, mm |-> mm, sm |-> sm, depth |-> dp, style |-> 0]
Mt(es) == [k |-> "mount", es |-> es, style |-> 0]
TSrcs == <<NatS(TD1), NatS(TD2), JsonS(TD1, FALSE), JsonS(TD2, TRUE), Un(<<NatS(TD1), JsonS(TD2, FALSE)>>, "combine", "combine", -1),
           Un(<<JsonS(TD2, FALSE), NatS(TD1)>>, "first", "last", -1), Un(<<NatS(TD2), NatS(TD1)>>, "combine", "combine", 1), Un(<<JsonS(TD1, TRUE), JsonS(TD2, TRUE)>>, "last", "first", -1),
           Mt(<< <<KS("a"), NatS(TD1)>>, <<KS("l"), JsonS(TD2, FALSE)>> >>), Mt(<< <<KS("a"), JsonS(TD2, FALSE)>>, <<KS("n"), Un(<<NatS(TD1), NatS(TD2)>>, "combine", "last", -1)>> >>)>>
TPaths == << <<KS("a")>>, <<KS("a"), KS("b")>>, <<KS("a"), KS("b"), KN(0)>>, <<KS("a"), KS("b"), KN(1)>>, <<KS("a"), KS("b"), KN(2)>>, <<KS("a"), KS("c")>>, <<KS("a"), KS("c"), KN(0)>>,
             <<KS("a"), KS("a"), KS("b")>>, <<KS("l")>>, <<KS("l"), KN(0), KS("a")>>, <<KS("l"), KN(1)>>, <<KS("l"), KS("a"), KS("b")>>, <<KS("n")>>, <<KS("n"), KS("a")>>, <<KS("n"), KS("a"), KS("b")>>,
             <<KS("q")>>, <<KS("q"), KS("a")>>, <<KS("m")>>, <<KS("a"), KS("d"), KS("e")>>, <<KS("a.b")>>, <<KS("a.c")>>, <<KS("a.d.e")>> >>
TAsks == << <<[q |-> "exists"], [q |-> "null"], [q |-> "prim", ty |-> "auto"], [q |-> "len"], [q |-> "keys"], [q |-> "path"]>>,
            <<[q |-> "keys"], [q |-> "len"], [q |-> "exists"], [q |-> "null"]>>, <<[q |-> "prim", ty |-> "int"], [q |-> "prim", ty |-> "str"], [q |-> "null"], [q |-> "exists"]>>,
            <<[q |-> "len"], [q |-> "prim", ty |-> "auto"], [q |-> "depth"]>> >>
TWalk(ks, un) == Concat([i \in 1..Len(ks) |-> (IF un /\ i > 1 THEN <<oAsk(<<[q |-> IF IsKS(ks[i]) THEN "keys" ELSE "len"]>>)>> ELSE <<>>) \o <<oEnter([k |-> "key", key |-> ks[i]])>>])
TBack(ks, qs) == Concat([i \in 1..Len(ks) |-> IF i = 1 THEN <<oLeave>> ELSE <<oLeave, oAsk(qs)>>])
TDims == <<Len(TSrcs), Len(TPaths), Len(TPaths), 4, 2>>
TMake(d) ==
  LET p1 == Pick(TPaths, d[2])  p2 == Pick(TPaths, d[3])  qs == Pick(TAsks, d[4])
      un == d[1] \in {4, 5, 6, 7, 9}
  IN Program(<<F("Integer", "a", 1, O)>>, <<C("K1", <<>>, <<1>>)>>, <<>>, <<TSrcs[d[1] + 1]>>,
             <<oEnter([k |-> "src", s |-> 1])>> \o TWalk(p1, un) \o <<oAsk(qs)>> \o TBack(p1, TAsks[1]) \o TWalk(p2, un) \o <<oAsk(qs), oAsk(TAsks[1])>> \o TBack(p2, qs)
             \o (IF d[5] = 1 THEN <<oAsk(TAsks[2])>> ELSE <<>>) \o TWalk(p1, un) \o <<oAsk(TAsks[1])>> \o TBack(p1, qs) \o <<oLeave>>, 1)

(* ----------------------- C13: one document, every source -------------------- *)
KDims == <<7, 6, 7, 6, 5, 2>>
KMake(d) ==
  LET va == Pick(<<NONE, Null, I(3), S("7"), I(9), FltV(2000), BoolV(TRUE)>>, d[1])
      vx == Pick(<<NONE, Null, S("q"), ListV(<<I(1), D1("z", Null)>>), DictV(<<>>), FltV(1500)>>, d[2])
      vl == Pick(<<NONE, Null, ListV(<<>>), ListV(<<S("q")>>), ListV(<<S("qqq"), Null, S("r")>>), I(4), D1("z", I(1))>>, d[3])
      vs == Pick(<<NONE, Null, DictV(<<>>), D1("b", I(1)), D1("b", S("x")), ListV(<<I(1)>>)>>, d[4])
      vm == Pick(<<NONE, Null, DictV(<<>>), D1("k", I(1)), DictV(Ent("k", ListV(<<>>)) \o Ent("z", I(2)))>>, d[5])
      doc == DictV(Ent("a", va) \o Ent("x", vx) \o Ent("l", vl) \o Ent("s", vs) \o Ent("m", vm))
      dv == IF d[6] = 1 THEN Dk("optional") ELSE Dk("unset")
      flds == <<F("Integer", "a", 1, [hi |-> I(8)]), F("Field", "x", 1, [dflt |-> dv]), F("List", "l", 1, [fs |-> <<4>>, dflt |-> dv]), F("String", "", 0, [maxl |-> 2]),
                F("SubForm", "s", 1, [cls |-> 2, dflt |-> dv]), F("Dict", "m", 1, [fs |-> <<7, 8>>]), F("String", "", 0, O), F("Integer", "", 0, O),
                F("Integer", "b", 2, O), F("SubForm", "m", 3, [cls |-> 1]), F("SubForm", "no", 3, [cls |-> 1, dflt |-> dv])>>
      vals == <<va, vx, vl, vs, vm>>
      gap == {i \in 1..5 : vals[i] = NONE}
      n == IF gap = {} THEN 5 ELSE MinOf(gap) - 1
      seq == SubSeq(vals, 1, n)
      srcs == <<NatS(doc), JsonS(doc, FALSE), JsonS(doc, TRUE), Un(<<NatS(doc)>>, "first", "first", -1), Un(<<JsonS(doc, FALSE)>>, "combine", "combine", -1),
                Mt(<< <<KS("m"), JsonS(doc, FALSE)>> >>)>>
  IN Program(flds, <<C("K1", <<>>, <<1, 2, 3, 5, 6>>), C("K2", <<>>, <<9>>), C("K3", <<>>, <<10, 11>>)>>, <<>>, srcs,
             <<oNew(1, 1), oMap(1, Raw(doc))>> \o Concat([i \in 1..5 |-> <<oNew(1, 1), oMap(1, ASrc(i))>>])
             \o <<oNew(1, 3), oMap(1, ASrc(6)), oNew(1, 1), oMap(1, Raw(ListV(seq))), oNew(1, 1), oMap(1, Raw(TupV(seq))), oMake(1, 1, Raw(doc))>>, 1)

(* ------------------------------ C15: collections ---------------------------- *)
\* lists: items fine, wrong, dropped or null, between size bounds
Its == <<NONE, I(1), S("q"), I(7), Null>>       \* (none: the end)
LDims == <<4, 4, 2, 5, 5, 5, 3, 3>>
LMake(d) ==
  LET its == <<Pick(Its, d[4]), Pick(Its, d[5]), Pick(Its, d[6])>>
      gap == {i \in 1..3 : its[i] = NONE}
      n == IF gap = {} THEN 3 ELSE MinOf(gap) - 1
      items == SubSeq(its, 1, n)
      v == CASE d[7] = 1 -> TupV(items) [] OTHER -> ListV(items)
      inner == Pick(<<O, [null |-> "no"], [dflt |-> Lit(I(5))]>>, d[8])
      doc == D1("l", IF d[7] = 2 /\ n = 1 THEN items[1] ELSE v)     \* a bare element
  IN IF (\E i \in n + 1..3 : its[i] # NONE) \/ (d[7] = 2 /\ n # 1) THEN NONE
     ELSE Program(<<F("List", "l", 1, [fs |-> <<2>>, minl |-> d[1] - 1, maxl |-> d[2] - 1, allow |-> d[3] = 1]), F("Integer", "", 0, inner @@ [ign |-> <<I(7)>>])>>,
                  <<C("K1", <<>>, <<1>>)>>, <<>>, <<JsonS(doc, FALSE)>>,
                  <<oNew(1, 1), oMap(1, Raw(doc))>> \o (IF d[7] = 1 THEN <<>> ELSE <<oNew(1, 1), oMapM(1, ASrc(1), "raise")>>), 1)
\* tuples
PDims == <<3, 6, 5, 5, 5, 2, 2>>
PMake(d) ==
  LET n == d[1] + 1   \* fields
      len == d[2]
      base == <<Pick(Its, d[3]), Pick(Its, d[4]), Pick(Its, d[5]), I(1), I(1), I(1)>>
      items == SubSeq(base, 1, len)
      v == IF d[6] = 1 THEN TupV(items) ELSE ListV(items)
      f(i) == F("Integer", "", 0, [ign |-> <<I(7)>>] @@ IF d[7] = 1 /\ i = 2 THEN [dflt |-> Lit(I(4))] ELSE O)
  IN IF (\E i \in 1..len : items[i] = NONE) \/ (\E i \in len + 1..3 : base[i] # I(1)) THEN NONE
     ELSE Program(<<F("Tuple", "t", 1, [fs |-> [i \in 1..n |-> i + 1]])>> \o [i \in 1..n |-> f(i)], <<C("K1", <<>>, <<1>>)>>, <<>>, <<NatS(D1("t", v))>>,
                  <<oNew(1, 1), oMap(1, Raw(D1("t", v))), oNew(1, 1), oMap(1, ASrc(1))>>, 1)
\* dicts: keys fine or refused by the key field, values as above; required keys, greatest number, key filters
GDims == <<5, 5, 5, 4, 4, 4, 2>>
GMake(d) ==
  LET doc == D1("m", DictV(Ent("a", Pick(Its, d[1])) \o Ent("bb", Pick(Its, d[2])) \o Ent("long", Pick(Its, d[3]))))
      req == Pick(<< <<>>, <<KS("a")>>, <<KS("bb")>>, <<KS("a"), KS("long")>> >>, d[4])
      kf == Pick(<<O, [maxl |-> 2], [tr |-> << <<S("bb"), S("a")>> >>], [ign |-> <<S("a")>>]>>, d[6])
  IN IF d[6] = 2 /\ d[1] # 0 /\ d[2] # 0 THEN NONE      \* (two keys becoming one: the later one stays)
     ELSE Program(<<F("Dict", "m", 1, [fs |-> <<2, 3>>, req |-> req, maxk |-> d[5] - 1]), F("String", "", 0, kf), F("Integer", "", 0, [ign |-> <<I(7)>>])>>,
                  <<C("K1", <<>>, <<1>>)>>, <<>>, <<JsonS(doc, FALSE)>>, <<oNew(1, 1), oMap(1, IF d[7] = 1 THEN ASrc(1) ELSE Raw(doc))>>, 1)
\* groups: entries in order of preference, keys matched by none, one or several
BSpecs(n) == <<[k |-> "key", key |-> KS("a"), f |-> n, bare |-> FALSE], [k |-> "key", key |-> KS("k1"), f |-> n, bare |-> FALSE], [k |-> "pat", pat |-> Pat("a", "12", 0, 1, "", TRUE), f |-> n],
               [k |-> "pat", pat |-> Pat("k", "12", 1, 2, "", FALSE), f |-> n], [k |-> "pat", pat |-> Pat("", "ak", 1, 1, "1", FALSE), f |-> n]>>
BDims == <<5, 6, 64, 3, 2>>
Bit(n, i) == (n \div (2 ^ i)) % 2 = 1
BMake(d) ==
  LET keys == <<"a", "a1", "k1", "k12", "ak1", "b">>
      v == Pick(<<I(1), S("q"), I(7)>>, d[4])
      doc == DictV(Concat([i \in 1..6 |-> IF Bit(d[3], i - 1) THEN Ent(keys[i], IF i = 3 THEN I(2) ELSE v) ELSE <<>>]))
      gs == <<BSpecs(2)[d[1] + 1]>> \o (IF d[2] = 5 THEN <<>> ELSE <<BSpecs(3)[d[2] + 1]>>)
  IN Program(<<F("Group", "g", 1, [gs |-> gs]), F("Integer", "", 0, [ign |-> <<I(7)>>]), F("Integer", "", 0, [hi |-> I(1)])>>, <<C("K1", <<>>, <<1>>)>>, <<>>, <<JsonS(doc, FALSE)>>,
             <<oNew(1, 1), oMap(1, IF d[5] = 1 THEN ASrc(1) ELSE Raw(doc))>>, 1)

(* ----------------------------- C16: polymorphism ---------------------------- *)
NDims == <<5, 6, 11, 3, 2, 3, 2>>
NMake(d) ==
  LET srct == IF d[1] = 1 THEN KS("kind") ELSE KS("t")
      tf == [src |-> srct, tstyle |-> "abstract"] @@ (CASE d[1] = 2 -> [dflt |-> Lit(S("v1"))] [] d[1] = 3 -> [dflt |-> Dk("optional")] [] OTHER -> O)
            @@ (IF d[1] = 4 THEN [tr |-> << <<S("one"), S("v1")>> >>] ELSE O)
      inst(vs) == [src |-> srct, tstyle |-> "instance", ch |-> vs, dflt |-> IF Len(vs) = 1 THEN Lit(vs[1]) ELSE Dk("optional")]
                  @@ (IF d[1] = 4 THEN [tr |-> << <<S("one"), S("v1")>> >>] ELSE O)
      two == d[5] = 1
      \* 1 base type, 2 base integer, 3-4 first sub-class, 5-6 second, 7-8 third (below the first)
      fam == <<F("Type", "t", 2, tf), F("Integer", "a", 2, [dflt |-> Dk("optional")]),
               F("Type", "t", 3, inst(IF two THEN <<S("v1"), S("v4")>> ELSE <<S("v1")>>)), F("Integer", "c", 3, O),
               F("Type", "t", 4, inst(<<S("v2")>>)), F("Integer", "c", 4, [hi |-> I(0)]),
               F("Type", "t", 5, inst(<<S("v3")>>)), F("Integer", "e", 5, [dflt |-> Lit(I(0))])>>
      pd == Pick(<<O, [dflt |-> Lit(Null), null |-> "yes"], [dflt |-> Dk("optional")]>>, d[6])
      pl == d[2]
      place == CASE pl = 0 -> <<F("Poly", "p", 1, pd @@ [tf |-> 1])>>
                 [] pl = 1 -> <<F("List", "p", 1, [fs |-> <<10>>]), F("Poly", "", 0, pd @@ [tf |-> 1])>>
                 [] pl = 2 -> <<F("Dict", "p", 1, [fs |-> <<10, 11>>]), F("String", "", 0, O), F("Poly", "", 0, pd @@ [tf |-> 1])>>
                 [] pl = 3 -> <<F("SubForm", "p", 1, [cls |-> 6]), F("Poly", "q", 6, pd @@ [tf |-> 1])>>
                 [] pl = 4 -> <<F("Poly", "p", 1, pd @@ [tf |-> 1]), F("Poly", "q", 1, [tf |-> 1, src |-> KS("p")])>>
                 [] pl = 5 -> <<F("Integer", "p", 1, [dflt |-> Dk("optional")])>>
      tv == Pick(<<NONE, Null, S("v1"), S("v2"), S("v3"), S("v4"), S("v9"), I(5), ListV(<<>>), S("one"), S("V1")>>, d[3])
      c == Pick(<<I(1), S("q"), NONE>>, d[4])
      v == DictV(Ent(IF d[1] = 1 THEN "kind" ELSE "t", tv) \o Ent("a", I(2)) \o Ent("c", c) \o Ent("e", c))
      ok1 == D1(IF d[1] = 1 THEN "kind" ELSE "t", S("v2"))
      doc == CASE pl = 0 -> D1("p", v) [] pl = 1 -> D1("p", ListV(<<v, ok1, v>>)) [] pl = 2 -> D1("p", DictV(Ent("k", v) \o Ent("z", ok1)))
               [] pl = 3 -> D1("p", D1("q", v)) [] pl = 4 -> D1("p", v) [] pl = 5 -> v
      cls == <<C("K1", <<>>, IF pl = 4 THEN <<9, 10>> ELSE <<9>>), C("K2", <<>>, <<1, 2>>), C("K3", <<2>>, <<3, 4>>), C("K4", <<2>>, <<5, 6>>), C("K5", <<3>>, <<7, 8>>)>>
             \o (IF pl = 3 THEN <<C("K6", <<>>, <<10>>)>> ELSE <<>>)
      cast == [o |-> "cast", x |-> 1, f |-> 1, src |-> IF d[7] = 1 THEN ASrc(1) ELSE Raw(doc), style |-> 0]
      go == <<oNew(1, 1), oMap(1, IF d[7] = 1 THEN ASrc(1) ELSE Raw(doc))>>
  IN IF pl = 5 /\ d[6] # 0 THEN NONE
     ELSE Program(fam \o place, cls, <<>>, <<JsonS(doc, FALSE)>>, IF pl = 5 THEN <<oNew(1, 1), cast, cast>> ELSE go \o go, 1)

(* ------------------------ C17: mapping into a form again -------------------- *)
MDims == <<4, 3, 3, 3, 4, 3, 2, 2, 3, 2>>
TagArg(i) == Pick(<< <<>>, <<"red">>, <<"blue">>, <<"red", "blue">> >>, i)
MMake(d) ==
  LET dv == Pick(<<Dk("optional"), Dk("unset"), Lit(I(6))>>, d[9])
      flds == <<F("Integer", "a", 1, [tags |-> <<"red">>, dflt |-> dv]), F("Integer", "b", 1, [tags |-> <<"blue">>, src |-> KS("bee")]),
                F("SubForm", "s", 1, [cls |-> 2, tags |-> <<"red">>, reset |-> d[8] = 1, dflt |-> Dk("optional")]), F("Integer", "c", 2, [tags |-> <<"red">>, dflt |-> dv]),
                F("Integer", "d", 2, [dflt |-> Dk("optional")])>>
      doc1 == Pick(<<DictV(<<>>), DictV(Ent("a", I(1)) \o Ent("bee", I(1)) \o Ent("s", DictV(Ent("c", I(1)) \o Ent("d", I(1))))),
                     DictV(Ent("a", I(1)) \o Ent("s", D1("d", I(1)))), DictV(Ent("bee", I(1)) \o Ent("s", DictV(<<>>)))>>, d[1])
      doc2 == DictV(Ent("a", Pick(<<NONE, I(2), S("q")>>, d[2])) \o Ent("bee", Pick(<<NONE, I(2), S("q")>>, d[3]))
                    \o Ent("s", Pick(<<NONE, D1("d", I(2)), DictV(Ent("c", S("q")) \o Ent("d", I(2)))>>, d[4])))
      ctxt == d[6] > 0
      go == <<oMapX(1, Raw(doc2), TagArg(d[5]), d[7] = 1, Ign, IF d[10] = 1 THEN "raise" ELSE "collect")>>
  IN Program(flds, <<C("K1", <<>>, <<1, 2, 3>>), C("K2", <<>>, <<4, 5>>)>>, <<>>, <<>>,
             <<oNew(1, 1), oMap(1, Raw(doc1)), [o |-> "set", x |-> 1, n |-> "zz", v |-> I(0), attr |-> FALSE, style |-> 0]>>
             \o (IF ctxt THEN <<oEnter([k |-> "tags", tags |-> TagArg(d[6])])>> \o go \o <<oLeave>> ELSE go) \o <<oMap(1, Raw(DictV(<<>>)))>>, 1)

(* ------------------------------- C18: strays -------------------------------- *)
YDims == <<2, 3, 3, 3, 2, 5, 5, 6, 2, 4>>
YMake(d) ==
  LET asrc == Pick(<<"a", "aa">>, d[1])
      tags == Pick(<< <<>>, <<"red">>, <<"blue">>, <<"blue", "none">> >>, d[10])
      flds == <<F("Integer", "a", 1, [src |-> KS(asrc), dflt |-> Dk("optional"), tags |-> <<"red">>]),
                F("SubForm", "s", 1, [tags |-> <<"blue", "red">>, cls |-> 2, unm |-> IF d[7] = 0 THEN Ign ELSE [k |-> "capture", df |-> 3 * d[7] + 1, how |-> Pick(<<"", "str", "field", "pair", "pair">>, d[7])], dflt |-> Dk("optional")]),
                F("Integer", "b", 2, [src |-> KS("bb"), dflt |-> Dk("optional")]),
                \* 4-6, 7-9, 10-12, 13-15: dicts to capture into
                F("Dict", "", 0, [fs |-> <<5, 6>>]), F("String", "", 0, O), F("Field", "", 0, O),
                F("Dict", "", 0, [fs |-> <<8, 9>>]), F("String", "", 0, O), F("Integer", "", 0, O),
                F("Dict", "", 0, [fs |-> <<11, 12>>]), F("String", "", 0, [maxl |-> 1]), F("Integer", "", 0, [dflt |-> Lit(I(0)), ign |-> <<I(3)>>]),
                F("Dict", "", 0, [fs |-> <<14, 15>>]), F("String", "", 0, [tr |-> <<<<S("z"), S("a")>>, <<S("zz"), S("aa")>>, <<S("y"), S("b")>>, <<S("yy"), S("bb")>>>>]), F("Field", "", 0, O)>>
      vs == <<NONE, I(1), S("q")>>
      sub == Pick(<<NONE, DictV(<<>>), DictV(Ent("b", I(1)) \o Ent("y", I(3))), DictV(Ent("bb", S("q")) \o Ent("b", I(1)) \o Ent("y", S("r"))), DictV(Ent("bb", I(2)) \o Ent("yy", I(2))), D1("a", I(1))>>, d[8])
      doc == DictV(Ent("a", Pick(vs, d[2])) \o Ent("aa", Pick(vs, d[3])) \o Ent("z", Pick(<<NONE, I(3), S("q")>>, d[4])) \o Ent("zz", IF d[5] = 1 THEN Null ELSE NONE) \o Ent("s", sub))
      u == IF d[6] = 0 THEN Ign ELSE [k |-> "capture", df |-> 3 * d[6] + 1, how |-> Pick(<<"", "str", "field", "pair", "pair">>, d[6])]
  IN Program(flds, <<C("K1", <<>>, <<1, 2>>), C("K2", <<>>, <<3>>)>>, <<>>, <<JsonS(doc, FALSE)>>,
             <<oNew(1, 1), oMapX(1, IF d[9] = 1 THEN ASrc(1) ELSE Raw(doc), tags, FALSE, u, "collect"), oMapX(1, Raw(D1("z", I(1))), <<>>, d[9] = 1, u, "collect")>>, 1)

(* -------------------------- C19: histories of a form ------------------------ *)
oGet(x, n) == [o |-> "get", x |-> x, n |-> n, style |-> 0]
oSet(x, n, v, at) == [o |-> "set", x |-> x, n |-> n, v |-> v, attr |-> at, style |-> 0]
oDel(x, n, at) == [o |-> "del", x |-> x, n |-> n, attr |-> at, style |-> 0]
oMunge(x, y, fn) == [o |-> "munge", x |-> x, y |-> y, fn |-> fn, style |-> 0]
HOps == <<oGet(1, "a"), oGet(2, "s"), oSet(1, "a", I(5), TRUE), oSet(1, "a", S("q"), FALSE), oSet(2, "b", Null, FALSE), oDel(1, "a", TRUE), oDel(1, "s", FALSE), oDel(2, "b", FALSE),
          [o |-> "has", x |-> 1, n |-> "a", byfield |-> FALSE, style |-> 0], [o |-> "has", x |-> 2, n |-> "s", byfield |-> TRUE, style |-> 0], [o |-> "item", x |-> 2, n |-> "b", style |-> 0],
          [o |-> "in", x |-> 1, n |-> "b", style |-> 0], [o |-> "flatten", x |-> 1, style |-> 0], [o |-> "copy", x |-> 1, y |-> 2, style |-> 0], oMunge(1, 2, [k |-> "tags", tags |-> <<"red">>, inv |-> FALSE]),
          oMunge(1, 2, [k |-> "tags", tags |-> <<"red">>, inv |-> TRUE]), oMunge(2, 1, [k |-> "drop", n |-> "b"]), oMunge(1, 2, [k |-> "add"]), [o |-> "grow", x |-> 1, n |-> "l", style |-> 0],
          oMap(2, Raw(DictV(Ent("b", I(3)) \o Ent("s", D1("c", I(4))))))>>
HDims == <<20, 20, 20, 3>>
HMake(d) ==
  LET flds == <<F("Integer", "a", 1, [tags |-> <<"red">>, dflt |-> Lit(I(9))]), F("Integer", "b", 1, [tags |-> <<"blue">>, dflt |-> Dk("optional")]),
                F("SubForm", "s", 1, [cls |-> 2, tags |-> <<"red">>, dflt |-> Dk("optional")]), F("List", "l", 1, [fs |-> <<7>>, tags |-> <<"red", "blue">>, dflt |-> Dk("optional")]),
                F("Integer", "c", 2, [tags |-> <<"blue">>, dflt |-> Dk("optional")]), F("Integer", "e", 2, [tags |-> <<"red">>, dflt |-> Dk("optional")]), F("Integer", "", 0, O)>>
      init == Pick(<< <<>>, <<oMap(1, Raw(DictV(Ent("b", I(1)) \o Ent("s", DictV(Ent("c", I(2)) \o Ent("e", I(3)))) \o Ent("l", ListV(<<I(1), I(2)>>)))))>>,
                      <<oMap(1, Raw(DictV(Ent("a", S("bad")) \o Ent("s", DictV(<<>>)))))>> >>, d[4])
      ws == [i \in 1..3 |-> HOps[d[i] + 1].o]
  IN IF \E i \in 1..3 : \E j \in i..3 : ws[i] = "copy" /\ ws[j] = "grow" THEN NONE   \* a copy shares the containers it copied
     ELSE Program(flds, <<C("K1", <<>>, <<1, 2, 3, 4>>), C("K2", <<>>, <<5, 6>>)>>, <<>>, <<>>,
             <<oNew(1, 1), oNew(2, 1)>> \o init \o <<HOps[d[1] + 1], HOps[d[2] + 1], HOps[d[3] + 1], [o |-> "flatten", x |-> 1, style |-> 0], [o |-> "flatten", x |-> 2, style |-> 0]>>, 2)

(* -------------------------- C21: reading short texts ------------------------ *)
TxCh == <<"", "1", "0", "-", "+", ".", "e", "_", " ", "n">>
ZDims == <<10, 10, 10, 10, 4>>
Readings == <<"str", "int", "float", "bool", "auto">>
oFmap(s, ks, ty) == [o |-> "fmap", x |-> 1, s |-> s, ks |-> ks, ty |-> ty, style |-> 0]
CfgS(secs, o) == o @@ [k |-> "config", secs |-> secs, case |-> FALSE, raw |-> FALSE, loc |-> "", section |-> "s1", dflt |-> <<>>, style |-> 0, sep |-> " = "]
Hard(s) == \E i \in 1..Len(s) - 1 : (Ch(s, i) \in {"-", "+"} /\ Ch(s, i + 1) = " ") \/ (Ch(s, i) = "e" /\ Ch(s, i + 1) \in {"1", "0", "+", "-"} /\ i + 2 <= Len(s))
ZProg(v, si) ==
  LET doc == D1("a", v)
      src == CASE si = 0 -> NatS(doc) [] si = 1 -> JsonS(doc, FALSE) [] si = 2 -> JsonS(doc, TRUE)
              [] si = 3 -> CfgS(<< <<"s1", << <<"a", << [i |-> 0, s |-> v.s] >> >> >> >> >>, O)
      fm(n, kind) == F(kind, n, 1, [src |-> KS("a")])
  IN Program(<<fm("fi", "Integer"), fm("ff", "Float"), fm("fb", "Boolean"), fm("fs", "String"), fm("fx", "Field")>>, <<C("K1", <<>>, <<1, 2, 3, 4, 5>>)>>, <<>>, <<src>>,
             [i \in 1..5 |-> oFmap(1, <<KS("a")>>, Readings[i])] \o <<oNew(1, 1), oMap(1, ASrc(1))>>, 1)
ZMake(d) ==
  LET s == TxCh[d[1] + 1] \o TxCh[d[2] + 1] \o TxCh[d[3] + 1] \o TxCh[d[4] + 1]
      canon == \A i \in 1..3 : d[i] = 0 => d[i + 1] = 0
  IN IF ~canon \/ Hard(s) \/ (d[5] = 3 /\ (s = "" \/ Ch(s, 1) = " " \/ Ch(s, Len(s)) = " ")) THEN NONE ELSE ZProg(S(s), d[5])
RdDims == <<Len(PlainVals), 3>>
RdMake(d) == LET v == PlainVals[d[1] + 1] IN ZProg(v, d[2])

(* -------------- C13: the elements of a sequence as a form's fields ----------- *)
RoKinds == <<"plain", "renamed", "flat", "const", "optional", "list", "context">>
RoDims == <<7, 7, 7, 5, 6, 3>>
RoMake(d) ==
  LET names == <<"a", "b", "c">>
      fld(i) == LET k == RoKinds[d[i] + 1] IN
                CASE k = "plain" -> F("Integer", names[i], 1, O)
                  [] k = "renamed" -> F("Integer", names[i], 1, [src |-> KS(names[i] \o "_src")])
                  [] k = "flat" -> F("SubForm", names[i], 1, [cls |-> 2, src |-> X, dflt |-> Dk("optional")])
                  [] k = "const" -> F("Integer", names[i], 1, [bc |-> [k |-> "const", v |-> I(9)]])
                  [] k = "optional" -> F("Integer", names[i], 1, [dflt |-> Dk("optional")])
                  [] k = "list" -> F("List", names[i], 1, [fs |-> <<5>>])
                  [] k = "context" -> F("Integer", names[i], 1, [fromctx |-> TRUE, dflt |-> Lit(I(0))])
      item(i) == IF i <= 3 /\ RoKinds[d[i] + 1] = "list" THEN ListV(<<I(i), I(i + 10)>>) ELSE IF d[6] = 1 /\ i = 2 THEN Null ELSE IF d[6] = 2 /\ i = 1 THEN S("q") ELSE I(i)
      vs == [i \in 1..d[4] |-> item(i)]
      flds == <<fld(1), fld(2), fld(3), F("Integer", "z", 2, [dflt |-> Dk("optional")]), F("Integer", "", 0, O), F("SubForm", "s", 3, [cls |-> 1])>>
      cls == <<C("K1", <<>>, <<1, 2, 3>>), C("K2", <<>>, <<4>>), C("K3", <<>>, <<6>>)>>
      go == CASE d[5] = 0 -> <<oMap(1, Raw(ListV(vs)))>> [] d[5] = 1 -> <<oMap(1, Raw(TupV(vs)))>> [] d[5] = 2 -> <<oMap(1, ASrc(1))>>
              [] d[5] = 3 -> <<oMap(1, ASrc(2))>> [] d[5] = 4 -> <<oMake(1, 1, Raw(ListV(vs)))>> [] d[5] = 5 -> <<oNew(1, 3), oMap(1, Raw(D1("s", ListV(vs))))>>
  IN Program(flds, cls, <<>>, <<NatS(ListV(vs)), JsonS(ListV(vs), FALSE)>>, <<oNew(1, 1)>> \o go, 1)

(* ------------------ C01: short texts and what may be asked of them ----------- *)
SgCh == <<"", " ", "a", "b", "1", "A">>
SgDims == <<6, 6, 6, 6, 5, 5, 4, 5, 3, 3>>
SgMake(d) ==
  LET s == SgCh[d[1] + 1] \o SgCh[d[2] + 1] \o SgCh[d[3] + 1] \o SgCh[d[4] + 1]
      canon == \A i \in 1..3 : d[i] = 0 => d[i + 1] = 0
      o == [minl |-> d[5] - 1, maxl |-> d[6] - 1, alpha |-> Pick(<<"", "ab", "ab ", "1aA">>, d[7]),
            pat |-> Pick(<<NoPat, Pat("a", "ab", 0, 2, "", FALSE), Pat("", "ab 1", 1, 3, "", TRUE), Pat(" ", "a", 0, 1, "b", TRUE), Pat("", "abA", 2, 2, "1", FALSE)>>, d[8]),
            ch |-> Pick(<< <<>>, <<S("a"), S("ab"), S("")>>, <<S(" a"), S("A"), S("ab1")>> >>, d[9])]
      doc == DictV(Ent("a", S(s)) \o Ent("l", ListV(<<S("a"), S(s)>>)) \o Ent("k", D1(s, I(1))))
      src == CASE d[10] = 0 -> NatS(doc) [] d[10] = 1 -> JsonS(doc, FALSE) [] d[10] = 2 -> JsonS(doc, TRUE)
  IN IF ~canon THEN NONE
     ELSE Program(<<F("String", "a", 1, o), F("List", "l", 1, [fs |-> <<3>>]), F("String", "", 0, o),
                    F("Dict", "k", 1, [fs |-> <<5, 6>>]), F("String", "", 0, o), F("Integer", "", 0, O)>>, <<C("K1", <<>>, <<1, 2, 4>>)>>, <<>>, <<src>>,
                  <<oNew(1, 1), oMap(1, ASrc(1)), oMap(1, Raw(doc))>>, 1)

(* --------------------------- C22: derived fields ---------------------------- *)
VvDims == <<8, 4, 7, 8, 5, 6, 2, 3, 3>>
VvMake(d) ==
  LET names == Pick(<< << <<"n">> >>, << <<"s", "m">> >>, << <<"n">>, <<"s", "m">> >>, << <<"n">>, <<"n">> >>, << <<"nosuch">> >>, <<>>, << <<"s", "d", "m">> >>, << <<"s", "m">>, <<"s", "d", "m">>, <<"n">> >> >>, d[1])
      fmt == F("String", "t", 1, [bc |-> [k |-> "format", names |-> names, lits |-> [i \in 1..Len(names) + 1 |-> Pick(<<"x", "-", "">>, (i - 1) % 3)]], src |-> KS("t")])
      rest == <<F("Integer", "n", 1, [hi |-> I(8)]), F("SubForm", "s", 1, [cls |-> 2, dflt |-> Dk("optional")])>>
      cap == F("String", "cp", 1, [cap |-> Pick(<<Pat("k", "012", 1, 2, "", FALSE), Pat("", "ab", 1, 2, "1", TRUE), [Pat("k", "012", 0, 2, "", FALSE) EXCEPT !.g = FALSE]>>, d[9]), dflt |-> IF d[9] = 1 THEN Lit(S("none")) ELSE Dk("unset")])
      tr == F("Integer", "tr", 1, [tr |-> << <<I(1), I(2)>>, <<I(2), I(3)>>, <<I(3), Null>> >>, hi |-> I(2)])
      ct == F("Integer", "u", 1, [fromctx |-> TRUE, dflt |-> IF d[8] = 1 THEN Lit(I(0)) ELSE Dk("unset")])
      cn == F("Integer", "cn", 1, [bc |-> [k |-> "const", v |-> I(7)]])
      flds == (IF d[7] = 0 THEN <<fmt>> \o rest ELSE rest \o <<fmt>>) \o <<cap, tr, ct, cn, F("Integer", "m", 2, [dflt |-> Dk("optional")]), F("SubForm", "d", 2, [cls |-> 3, dflt |-> Dk("optional")]), F("Integer", "m", 3, O)>>
      vn == Pick(<<NONE, Null, I(3), I(9)>>, d[2])
      vs == Pick(<<NONE, Null, DictV(<<>>), D1("m", I(4)), D1("m", S("q")), DictV(Ent("m", I(4)) \o Ent("d", D1("m", I(6)))), D1("d", D1("m", I(6)))>>, d[3])
      doc == DictV(Ent("n", vn) \o Ent("s", vs) \o Ent("t", S("given")) \o Ent("cp", Pick(<<NONE, Null, S("k1"), S("k12x"), S("ab1"), S("a1b"), S(""), S("k")>>, d[4]))
                   \o Ent("tr", Pick(<<NONE, I(1), I(2), I(3), S("1")>>, d[5])) \o (IF d[8] = 2 THEN Ent("cn", S("bad")) \o Ent("u", I(2)) ELSE <<>>))
      vars == Pick(<<NONE, I(5), S("4"), S("x"), Null, BoolV(TRUE)>>, d[6])
      go == <<oNew(1, 1), oMap(1, Raw(doc)), oGet(1, "t"), oGet(1, "u"), oSet(1, "n", I(1), TRUE), oDel(1, "t", FALSE), oGet(1, "t")>>
  IN Program(flds, <<C("K1", <<>>, <<1, 2, 3, 4, 5, 6, 7>>), C("K2", <<>>, <<8, 9>>), C("K3", <<>>, <<10>>)>>, <<>>, <<>>,
             IF vars = NONE THEN go ELSE <<oEnter([k |-> "vars", vars |-> [u |-> vars]])>> \o go \o <<oLeave>> \o SubSeq(go, 1, 2), 1)

(* -------------------------- C23: configuration texts ------------------------ *)
Ln(i, s) == [i |-> i, s |-> s]
OptVars(n) == << <<>>, << <<n, <<Ln(0, "5")>> >> >>, << <<n, <<Ln(0, "x  y")>> >> >>, << <<n, <<Ln(0, "\"a b\" c")>> >> >>, << <<n, <<Ln(0, ""), Ln(2, "v1"), Ln(2, "12")>> >> >>,
                 << <<n, <<Ln(0, "first"), Ln(1, "ab"), Ln(3, "k: v")>> >> >>, << <<n, <<Ln(0, "")>> >> >>,
                 << <<n \o "[k]", <<Ln(0, "1")>> >>, <<n \o "[K2]", <<Ln(0, ""), Ln(4, "q r"), Ln(6, "7")>> >> >>, << <<n \o "x", <<Ln(0, "near")>> >> >> >>
CgKind(i, nm, n) ==
  CASE i = 0 -> <<F("String", nm, 1, O)>> [] i = 1 -> <<F("Integer", nm, 1, O)>> [] i = 2 -> <<F("List", nm, 1, [fs |-> <<n + 1>>]), F("String", "", 0, O)>>
    [] i = 3 -> <<F("Dict", nm, 1, [fs |-> <<n + 1, n + 2>>]), F("String", "", 0, O), F("String", "", 0, O)>>
    [] i = 4 -> <<F("Dict", nm, 1, [fs |-> <<n + 1, n + 2>>]), F("String", "", 0, O), F("List", "", 0, [fs |-> <<n + 3>>]), F("String", "", 0, O)>>
CgDims == <<9, 9, 9, 5, 4, 2, 2, 3, 2, 3>>
CgMake(d) ==
  LET fa == CgKind(d[4], "a", 1)
      fb == CgKind(d[5], "B", Len(fa) + 1)
      opts == Pick(OptVars("a"), d[1]) \o Pick(OptVars("B"), d[2])
      other == Pick(OptVars("a"), d[3])
      secs == CASE d[10] = 0 -> << <<"s1", opts>> >> [] d[10] = 1 -> << <<"s0", other>>, <<"s1", opts>> >> [] d[10] = 2 -> << <<"s1", opts>>, <<"s2", other>> >>
      dv == Pick(<< <<>>, << <<KS("a"), S("dflt")>> >>, << <<KS("b"), I(4)>> >> >>, d[8])
      o == [case |-> d[6] = 1, raw |-> d[7] = 1, loc |-> IF d[7] = 1 THEN "f.ini" ELSE ""]
      one == CfgS(secs, o @@ [section |-> "s1", dflt |-> dv])
      all == CfgS(secs, o @@ [section |-> "", dflt |-> IF dv = <<>> THEN <<>> ELSE << <<KS("s1"), DictV(dv)>> >>])
      n == Len(fa) + Len(fb)
  IN IF (d[10] = 0 /\ d[3] # 0) \/ (d[6] = 1 /\ d[8] = 2) THEN NONE
     ELSE Program(fa \o fb \o <<F("SubForm", "s", 2, [cls |-> 1, src |-> KS("s1")])>>, <<C("K1", <<>>, <<1, Len(fa) + 1>>), C("K2", <<>>, <<n + 1>>)>>, <<>>, <<one, all>>,
                  IF d[9] = 0 THEN <<oNew(1, 1), oMap(1, ASrc(1))>> ELSE <<oNew(1, 2), oMap(1, ASrc(2))>>, 1)

(* --------------------------------- running ---------------------------------- *)
FamilyNames == <<"values", "absences", "stages", "places", "modes", "raises", "orders", "stacks", "pairs", "diamonds", "junk", "tours", "kinds", "sizes", "tuples", "keys", "groups", "kin", "again", "strays", "moves", "texts", "readings", "derivations", "inis", "strings", "rows">>
DimsOf(fam) == CASE fam = "values" -> VDims [] fam = "absences" -> DDims [] fam = "stages" -> SDims [] fam = "places" -> EDims
          [] fam = "modes" -> WDims [] fam = "raises" -> XDims [] fam = "orders" -> RDims [] fam = "stacks" -> QDims
          [] fam = "pairs" -> UDims [] fam = "diamonds" -> IDims
          [] fam = "junk" -> JDims [] fam = "tours" -> TDims [] fam = "kinds" -> KDims [] fam = "sizes" -> LDims [] fam = "tuples" -> PDims
          [] fam = "keys" -> GDims [] fam = "groups" -> BDims [] fam = "kin" -> NDims [] fam = "again" -> MDims [] fam = "strays" -> YDims
          [] fam = "moves" -> HDims [] fam = "texts" -> ZDims [] fam = "readings" -> RdDims [] fam = "derivations" -> VvDims [] fam = "inis" -> CgDims [] fam = "strings" -> SgDims [] fam = "rows" -> RoDims
MakeOf(fam, d) == CASE fam = "values" -> VMake(d) [] fam = "absences" -> DMake(d) [] fam = "stages" -> SMake(d) [] fam = "places" -> EMake(d)
             [] fam = "modes" -> WMake(d) [] fam = "raises" -> XMake(d) [] fam = "orders" -> RMake(d) [] fam = "stacks" -> QMake(d)
             [] fam = "pairs" -> UMake(d) [] fam = "diamonds" -> IMake(d)
             [] fam = "junk" -> JMake(d) [] fam = "tours" -> TMake(d) [] fam = "kinds" -> KMake(d) [] fam = "sizes" -> LMake(d) [] fam = "tuples" -> PMake(d)
             [] fam = "keys" -> GMake(d) [] fam = "groups" -> BMake(d) [] fam = "kin" -> NMake(d) [] fam = "again" -> MMake(d) [] fam = "strays" -> YMake(d)
             [] fam = "moves" -> HMake(d) [] fam = "texts" -> ZMake(d) [] fam = "readings" -> RdMake(d) [] fam = "derivations" -> VvMake(d) [] fam = "inis" -> CgMake(d) [] fam = "strings" -> SgMake(d) [] fam = "rows" -> RoMake(d)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Digits(_, _)
Digits(n, dims) == IF dims = <<>> THEN <<>> ELSE <<n % Head(dims)>> \o Digits(n \div Head(dims), Tail(dims))
RECURSIVE Nat_(_)
Nat_(s) == NatOf(s, 0)
\* COUNT programs: those numbered FROM, FROM + STEP, ... modulo the size of the family; or those listed as <<family, number>>
Listed(q0) == IOEnv.PILO_LIST # ""
From_ == Nat_(IOEnv.PILO_FROM)
Step_ == Nat_(IOEnv.PILO_STEP)
Count_ == Nat_(IOEnv.PILO_COUNT)
ASSUME TLCSet(11, IF IOEnv.PILO_LIST # "" THEN TLCEval(JsonDeserialize(IOEnv.PILO_LIST)) ELSE <<>>)
Total == Prod(DimsOf(IOEnv.PILO_FAMILY))
VARIABLES at,      \* how many of the numbers have been dealt with
          num      \* the number of the next
Show(fam, n) == LET q == MakeOf(fam, Digits(n, DimsOf(fam))) IN
                IF q = NONE THEN TRUE ELSE PrintT("@P " \o ToString(n) \o " " \o fam \o " " \o ToJson(q))
Init == at = 0 /\ num = From_ 
        /\ PrintT("@N " \o ToJson([i \in 1..Len(FamilyNames) |-> <<FamilyNames[i], DimsOf(FamilyNames[i])>>]))
Next == /\ at < Count_
        /\ at' = at + 1
        /\ num' = IF Listed(0) THEN num ELSE IF Total - num > Step_ THEN num + Step_ ELSE num - (Total - Step_)
        /\ LET e == IF Listed(0) THEN TLCGet(11)[at + 1] ELSE <<IOEnv.PILO_FAMILY, num>> IN Show(e[1], e[2])
=============================================================================
