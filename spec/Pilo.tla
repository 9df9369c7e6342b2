-------------------------------- MODULE Pilo --------------------------------
(* The mapping machine of pilo.                                                *)
(*                                                                             *)
(* A "program" is a small use of the library: form classes with their fields,   *)
(* sources, user hooks, and a history of operations on forms.  A machine runs   *)
(* one program: it has the stack of context scopes, the heap of source paths,   *)
(* forms and error lists, and a control stack with one frame per activity in    *)
(* progress (an operation, a form being mapped, a field in one of its stages,   *)
(* a collection, a hook, an attribute read).  Step is one transition of it;     *)
(* exceptions unwind the control stack frame by frame, closing scopes.          *)
(* What a program shows - hook invocations, reads, results - is emitted as      *)
(* events.  In mode "gen" events are accumulated, in mode "trace" each one must *)
(* be the next event recorded from the real library.                           *)
EXTENDS Sources

CONSTANTS Prog(_),    \* the program of a number
          Mode        \* "gen" or "trace"

(* ------------------------------ declarations ------------------------------ *)
Fld(p, f) == Prog(p).flds[f]
Cls(p, c) == Prog(p).classes[c]
Dedupe(s) == \* keep the last occurrence of every element
  LET keep == {i \in 1..Len(s) : ~\E j \in i + 1..Len(s) : s[j] = s[i]}
      RECURSIVE go(_)
      go(i) == IF i > Len(s) THEN <<>> ELSE (IF i \in keep THEN <<s[i]>> ELSE <<>>) \o go(i + 1)
  IN go(1)
(* What the class declarations of a program come to: for every class its linear *)
(* order of ancestors, and the fields visible in it, in declaration order: an    *)
(* overriding declaration takes the place of the one it overrides, any other its *)
(* own.  Ancestors come before descendants in the numbering.                     *)
Named(T, nm) == LET S == {i \in 1..Len(T) : T[i].nm = nm} IN IF S = {} THEN 0 ELSE MinOf(S)
Compiled(Q) ==
  LET n == Len(Q.classes)
      RECURSIVE mros(_, _)
      mros(c, acc) ==
        IF c > n THEN acc
        ELSE mros(c + 1, TLCEval(Append(acc, Dedupe(<<c>> \o Concat([i \in 1..Len(Q.classes[c].bases) |->
                                                                 acc[Q.classes[c].bases[i]]])))))
      mro == TLCEval(mros(1, <<>>))
      own(c, acc) ==      \* the own fields of a class, with their places
        [i \in 1..Len(Q.classes[c].own) |->
           LET f  == Q.classes[c].own[i]
               nm == Q.flds[f].name
               bs == SelectSeq(Tail(mro[c]), LAMBDA b : Named(acc[b].vis, nm) # 0)
           IN [nm |-> nm, f |-> f, pl |-> IF bs = <<>> THEN f ELSE acc[bs[1]].vis[Named(acc[bs[1]].vis, nm)].pl]]
      RECURSIVE see(_, _, _)
      see(tabs, gone, out) ==   \* walk the ancestors: the first declaration or removal of a name counts
        IF tabs = <<>> THEN out
        ELSE LET o == SelectSeq(tabs[1].own, LAMBDA e : e.nm \notin gone /\ Named(out, e.nm) = 0) IN
             see(Tail(tabs), gone \cup {tabs[1].hide[i] : i \in 1..Len(tabs[1].hide)}, out \o o)
      RECURSIVE tabs(_, _)
      tabs(c, acc) ==
        IF c > n THEN acc
        ELSE LET me  == TLCEval([own |-> own(c, acc), hide |-> Q.classes[c].hide])
                 vis == TLCEval(see(<<me>> \o [i \in 1..Len(mro[c]) - 1 |->
                                       [own |-> acc[mro[c][i + 1]].own, hide |-> acc[mro[c][i + 1]].hide]], {}, <<>>))
             IN tabs(c + 1, TLCEval(Append(acc, [own |-> me.own, hide |-> me.hide, vis |-> vis])))
      tab == TLCEval(tabs(1, <<>>))
      RECURSIVE sorted(_)
      sorted(T) == IF T = <<>> THEN <<>>
                   ELSE LET i == CHOOSE i \in 1..Len(T) : \A j \in 1..Len(T) : T[i].pl <= T[j].pl IN
                        <<T[i].f>> \o sorted(SubSeq(T, 1, i - 1) \o SubSeq(T, i + 1, Len(T)))
  IN Q @@ [mro |-> mro, fof |-> TLCEval([c \in 1..n |-> sorted(tab[c].vis)])]
FieldsOfClass(p, c) == Prog(p).fof[c]
FieldNamed(p, c, nm) == LET fs == FieldsOfClass(p, c)
                            S  == {i \in 1..Len(fs) : Fld(p, fs[i]).name = nm}
                        IN IF S = {} THEN 0 ELSE fs[MinOf(S)]
\* a form's class: a declared class, or the probe for a type field (pr > 0)
FieldsOf(p, cr) ==
  IF cr.pr = 0 THEN FieldsOfClass(p, cr.c)
  ELSE LET fs == FieldsOfClass(p, cr.c)
           n  == CHOOSE i \in 1..Len(fs) : fs[i] = cr.pr
       IN SubSeq(fs, 1, n)
ClsName(p, cr) == IF cr.pr > 0 THEN "TypeProbe" ELSE Cls(p, cr.c).name
FieldByName(p, cr, nm) == LET fs == FieldsOf(p, cr)
                              S  == {i \in 1..Len(fs) : Fld(p, fs[i]).name = nm}
                          IN IF S = {} THEN 0 ELSE fs[MinOf(S)]
\* the name of a field that a subclass replaces by an ordinary attribute (None)
HidesName(p, cr, nm) == cr.pr = 0 /\ \E i \in 1..Len(Prog(p).mro[cr.c]) :
                          \E j \in 1..Len(Cls(p, Prog(p).mro[cr.c][i]).hide) :
                             Cls(p, Prog(p).mro[cr.c][i]).hide[j] = nm
HasTag(p, f, tg) == \E i \in 1..Len(Fld(p, f).tags) : Fld(p, f).tags[i] \in tg

(* the class a type value names: the last class of the family, parents before   *)
(* children, that declares it                                                    *)
RECURSIVE Family(_, _)
Family(p, c) == LET ch == SelectSeq([i \in 1..Len(Prog(p).classes) |-> i],
                            LAMBDA x : \E j \in 1..Len(Cls(p, x).bases) : Cls(p, x).bases[j] = c)
                IN <<c>> \o Concat([i \in 1..Len(ch) |-> Family(p, ch[i])])
TypeClass(p, tf, v) ==
  LET nm == Fld(p, tf).name
      fam == Family(p, Fld(p, tf).owner)
      S == {i \in 1..Len(fam) : LET f == FieldNamed(p, fam[i], nm) IN
              f # 0 /\ Fld(p, f).kind \in {"String", "Type"} /\ PyIn(v, Fld(p, f).ch)}
  IN IF ~Hashable(v) \/ S = {} THEN 0 ELSE fam[MaxOf(S)]

(* ------------------------------- the machine ------------------------------ *)
NoExc == [x |-> ""]
BaseScope == [src |-> [t |-> "none"], src_path |-> 0, ignore_default |-> FALSE, ignore_missing |-> FALSE]
InitM(p) ==
  [pid |-> p, k |-> <<[pc |-> "OP", i |-> 1, n |-> 0, cl |-> <<>>]>>, ctx |-> <<BaseScope>>,
   paths |-> <<>>, forms |-> <<>>, errs |-> <<>>, slots |-> [i \in 1..Prog(p).nslots |-> 0],
   opens |-> <<>>, ret |-> NONE, exc |-> NoExc, log |-> <<>>, l |-> 0, bad |-> <<>>, cnt |-> 0, done |-> FALSE]

Top(m) == m.k[Len(m.k)]
SetTop(m, fr) == [m EXCEPT !.k[Len(m.k)] = fr]
PopTo(m, v) == [m EXCEPT !.k = Front1(@), !.ret = v]
CallF(m, fr, callee) == [m EXCEPT !.k = Append([@ EXCEPT ![Len(@)] = fr], callee)]
Raise(m, x) == [m EXCEPT !.exc = x]
\* exceptions: isv - a ValueError or source error, which a parsing field reports
Exc(x, isv, l) == [x |-> x, isv |-> isv, l |-> l]

(* context *)
HasVar(m, v) == \E i \in 1..Len(m.ctx) : v \in DOMAIN m.ctx[i]
VarAt(m, v) == MaxOf({i \in 1..Len(m.ctx) : v \in DOMAIN m.ctx[i]})
Var(m, v) == m.ctx[VarAt(m, v)][v]
CurPath(m) == Var(m, "src_path")
Loc(m) == IF CurPath(m) = 0 THEN [s |-> Native(NONE), ks |-> <<>>] ELSE m.paths[CurPath(m)]
PStr(m) == IF CurPath(m) = 0 THEN "None" ELSE PathStr(Loc(m).s, Loc(m).ks)
Push(m, fr) == [m EXCEPT !.ctx = Append(@, fr)]
PushKey(m, key) == LET pp == CurPath(m) IN
  [Push(m, [src |-> [t |-> "key", key |-> key]]) EXCEPT !.paths[pp].ks = Append(@, key)]
PushSrc(m, s, ks, more) ==
  LET m1 == [m EXCEPT !.paths = Append(@, [s |-> s, ks |-> ks])] IN
  Push(m1, more @@ [src |-> [t |-> "source"], src_path |-> Len(m1.paths)])
PopScope(m) ==
  LET fr == Last1(m.ctx)  m1 == [m EXCEPT !.ctx = Front1(@)] IN
  IF "src" \in DOMAIN fr /\ "src_path" \notin DOMAIN fr
  THEN [m1 EXCEPT !.paths[CurPath(m1)].ks = Front1(@)] ELSE m1
\* rewinding: the scopes above a depth are put aside, the path goes back with them
RewindTo(m, depth) ==
  LET off == SubSeq(m.ctx, depth + 1, Len(m.ctx))
      m1  == [m EXCEPT !.ctx = SubSeq(@, 1, depth)]
      new == {i \in 1..Len(off) : "src_path" \in DOMAIN off[i]}
      upto == IF new = {} THEN Len(off) ELSE MinOf(new) - 1
      n   == Cardinality({i \in 1..upto : "src" \in DOMAIN off[i]})
      pp  == CurPath(m1)
  IN IF pp = 0 THEN m1
     ELSE [m1 EXCEPT !.paths[pp].ks = SubSeq(@, 1, Len(@) - n)]
Unrewind(m, c) ==
  LET m1 == IF c.pp = 0 THEN m ELSE [m EXCEPT !.paths[c.pp].ks = c.ks] IN
  [m1 EXCEPT !.ctx = @ \o c.off]
RewindClose(m, depth) ==
  LET pp == CurPath([m EXCEPT !.ctx = SubSeq(@, 1, depth)]) IN
  [c |-> "unrewind", off |-> SubSeq(m.ctx, depth + 1, Len(m.ctx)), pp |-> pp,
   ks |-> IF pp = 0 THEN <<>> ELSE m.paths[pp].ks]
PopC == [c |-> "pop"]
Close1(m, c) == IF c.c = "pop" THEN PopScope(m) ELSE Unrewind(m, c)
RECURSIVE CloseAll(_, _)
CloseAll(m, cl) == IF cl = <<>> THEN m ELSE CloseAll(Close1(m, Last1(cl)), Front1(cl))

(* errors *)
NewErrs(m, mode) == [m EXCEPT !.errs = Append(@, [mode |-> mode, l |-> <<>>])]
Says(F) == F.name \o "|" \o F.kind     \* what an error says of its field
Blamed(p, f) == Says(Fld(p, f))
Kind(m, kind) == IF HasVar(m, kind) THEN Var(m, kind) ELSE kind   \* the context can name other classes of errors
Report(m, kind) ==
  LET e  == Var(m, "errors")
      m1 == [m EXCEPT !.errs[e].l = Append(@, [k |-> Kind(m, kind), p |-> PStr(m), f |-> Blamed(m.pid, Var(m, "field"))])]
  IN IF m.errs[e].mode = "raise" THEN Raise(m1, Exc("FormError", TRUE, m1.errs[e].l)) ELSE m1

(* forms *)
NewForm(m, cr) == [m EXCEPT !.forms = Append(@, [cr |-> cr, d |-> <<>>])]
FormRef(i) == [t |-> "ref", id |-> i]
FGet(m, i, nm) == DGet(m.forms[i].d, KS(nm))
FHas(m, i, nm) == DHas(m.forms[i].d, KS(nm))
FPut(m, i, key, v) == [m EXCEPT !.forms[i].d = DPut(@, key, v)]
FDel(m, i, nm) == [m EXCEPT !.forms[i].d = DDel(@, KS(nm))]
\* a value with the forms in it written out
RECURSIVE Snap(_, _)
Snap(m, v) ==
  CASE v.t = "ref" -> [t |-> "form", c |-> ClsName(m.pid, m.forms[v.id].cr),
                       d |-> [i \in 1..Len(m.forms[v.id].d) |->
                              <<m.forms[v.id].d[i][1], Snap(m, m.forms[v.id].d[i][2])>>]]
    [] v.t \in {"list", "tup"} -> [v EXCEPT !.l = [i \in 1..Len(v.l) |-> Snap(m, v.l[i])]]
    [] v.t = "dict" -> [v EXCEPT !.d = [i \in 1..Len(v.d) |-> <<v.d[i][1], Snap(m, v.d[i][2])>>]]
    [] OTHER -> v

(* events *)
BagEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
   Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
ErrsSame(a, b, ord) == IF ord THEN a = b ELSE BagEq(a, b)
ResSame(a, b, ord) ==
  /\ a.k = b.k
  /\ CASE a.k = "errs" -> ErrsSame(a.l, b.l, ord)
       [] a.k = "exc" -> a.x = b.x /\ (a.x = "FormError" =>
             IF a.all THEN ErrsSame(a.l, b.l, ord)
             ELSE (a.l = <<>>) = (b.l = <<>>) /\ (a.l # <<>> /\ ord => a.l[1] = b.l[1]))
       [] a.k = "val" -> Same(a.v, b.v, ord)
       [] a.k = "flat" -> Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) :
             a.l[i][1] = b.l[i][1] /\ Same(a.l[i][2], b.l[i][2], ord)
       [] OTHER -> a = b
\* the clause an event disagrees with, or ""
Differs(ev, o, ord) ==
  IF ev.e # o.e THEN "event"
  ELSE CASE ev.e = "hook" ->
              IF ev.h # o.h \/ ev.f # o.f THEN "hook"
              ELSE IF ev.p # o.p THEN "hook-location"
              ELSE IF ev.c # o.c THEN "hook-form"
              ELSE IF ~Same(ev.v, o.v, ord) THEN "hook-value" ELSE ""
         [] ev.e = "read" ->
              IF ev.ok # o.ok THEN "read-presence"
              ELSE IF ~Same(ev.v, o.v, ord) THEN "read-value"
              ELSE IF ev.p # o.p THEN "read-location" ELSE ""
         [] ev.e = "var" -> IF ev.l = o.l THEN "" ELSE "variable"
         [] ev.e = "sub" -> IF ResSame(ev.r, o.r, ord) THEN "" ELSE "sub-result"
         [] ev.e = "op" ->
              IF ev.r.k # o.r.k THEN "result-kind"
              ELSE IF ~ResSame(ev.r, o.r, ord) THEN "result"
              ELSE IF Len(ev.s) # Len(o.s) \/ \E i \in 1..Len(ev.s) : ~Same(ev.s[i], o.s[i], ord) THEN "contents"
              ELSE IF ev.ctx # o.ctx THEN "context" ELSE ""
         [] ev.e = "end" -> IF ~o.docs THEN "document-changed"
                           ELSE IF "world" \in DOMAIN o THEN (IF o.world THEN "" ELSE "process-changed") ELSE ""
         [] OTHER -> "event"
Emit(m, ev) ==
  IF Mode = "gen" THEN [m EXCEPT !.log = Append(@, ev), !.l = @ + 1]
  ELSE IF "unbound" \in DOMAIN Prog(m.pid) THEN [m EXCEPT !.l = @ + 1]
  ELSE LET obs == Prog(m.pid).obs IN
       IF m.l + 1 > Len(obs) THEN [m EXCEPT !.bad = <<"missing-event", m.l + 1, ev>>]
       ELSE LET why == Differs(ev, obs[m.l + 1], Prog(m.pid).ord) IN
            IF why = "" THEN [m EXCEPT !.l = @ + 1]
            ELSE [m EXCEPT !.bad = <<why, m.l + 1, ev>>]

(* ---------------------------- scalar parsing ------------------------------ *)
\* how a scalar field reads the location: a value, a conversion failure ("exc"),
\* or a failure the field reports itself ("rep")
PV(v) == [r |-> "ok", v |-> v]
PX == [r |-> "exc", v |-> NONE]
PR == [r |-> "rep", v |-> NONE]
OfPrim(q) == IF q.ok THEN PV(q.v) ELSE PX
AsDec(v) == CASE v.t = "dec" -> v
              [] v.t \in {"nan", "inf", "big", "wide"} -> [v EXCEPT !.k = "dec"]
              [] OTHER -> DecV(NumM(v))
DateOf(r) == DateV(r.y, r.mo, r.d)
RECURSIVE TryDates(_, _)
TryDates(fmts, s) ==
  IF fmts = <<>> THEN NONE
  ELSE LET r == IF Head(fmts) = "iso8601" THEN IsoParse(s) ELSE Strptime(Head(fmts), s) IN
       IF r.ok /\ (Head(fmts) = "iso8601" \/ r.s < 60) THEN DateOf(r) ELSE TryDates(Tail(fmts), s)
ScalarParse(f, s, ks) ==
  LET auto == Prim(s, ks, "auto")
      str  == Prim(s, ks, "str")
      txt  == str.v.s
      ipat(x) == LET mt == PatMatch(f.ipat, txt)
                     n  == IF x = "int" THEN ParseInt(mt.all) ELSE ParseReal(mt.all, "flt")
                 IN IF ~str.ok \/ ~mt.ok \/ n = NONE THEN PX ELSE PV(n)
  IN CASE f.kind = "Field" -> OfPrim(auto)
       [] f.kind \in {"String", "Type"} -> OfPrim(str)
       [] f.kind = "Integer" -> IF f.ipat.k = "none" THEN OfPrim(Prim(s, ks, "int")) ELSE ipat("int")
       [] f.kind = "Float" -> IF f.ipat.k = "none" THEN OfPrim(Prim(s, ks, "float")) ELSE ipat("float")
       [] f.kind = "Boolean" -> OfPrim(Prim(s, ks, "bool"))
       [] f.kind = "Decimal" ->
            IF auto.ok /\ IsNum(auto.v) THEN PV(AsDec(auto.v))
            ELSE IF ~str.ok THEN PX
            ELSE LET d == ParseReal(txt, "dec") IN IF d = NONE THEN PX ELSE PV(d)
       [] f.kind = "Date" ->
            IF auto.ok /\ auto.v.t = "date" THEN PV(auto.v)
            ELSE IF auto.ok /\ auto.v.t = "dt" THEN PV(DateV(auto.v.y, auto.v.mo, auto.v.d))
            ELSE IF ~str.ok THEN PX
            ELSE IF f.fmts = <<>> THEN PR
            ELSE LET d == TryDates(f.fmts, txt) IN IF d = NONE THEN PR ELSE PV(d)
       [] f.kind = "Datetime" ->
            IF auto.ok /\ auto.v.t = "dt" THEN PV(auto.v)
            ELSE IF ~str.ok THEN PX
            ELSE IF f.fmts = <<>> THEN PR
            ELSE IF f.fmts[1] = "iso8601"
                 THEN LET r == IsoParse(txt) IN
                      IF r.ok THEN PV(DtV(r.y, r.mo, r.d, r.h, r.mi, r.s, r.z)) ELSE PR
            ELSE LET r == Strptime(f.fmts[1], txt) IN
                 IF r.ok /\ r.s < 60 THEN PV(DtV(r.y, r.mo, r.d, r.h, r.mi, r.s, -9999)) ELSE PX
       [] f.kind = "Time" ->
            IF auto.ok /\ auto.v.t \in {"time", "st"} THEN PV(auto.v)
            ELSE IF ~str.ok THEN PX
            ELSE IF f.fmts = <<>> THEN PR
            ELSE LET r == Strptime(f.fmts[1], txt) IN
                 IF r.ok THEN PV(StV(r.y, r.mo, r.d, r.h, r.mi, r.s)) ELSE PX
       [] f.kind = "UUID" ->
            IF auto.ok /\ auto.v.t = "uuid" THEN PV(auto.v)
            ELSE IF ~str.ok THEN PX
            ELSE LET u == ParseUuid(txt) IN IF u = NONE THEN PX ELSE PV(u)
       [] f.kind = "Code" ->
            IF ~auto.ok THEN PX
            ELSE IF auto.v.t # "str" THEN PV(auto.v)
            ELSE LET c == Denoted(auto.v.s) IN IF c = NONE THEN PR ELSE PV(c)

IsScalar(kind) == kind \in {"Field", "String", "Type", "Integer", "Float", "Boolean", "Decimal",
                            "Date", "Datetime", "Time", "UUID", "Code"}

(* ------------------------------ constraints ------------------------------- *)
(* is a (non-marker) value one the field's declaration allows                   *)
LenOf(v) == CASE v.t = "str" -> Len(v.s) [] v.t \in {"list", "tup"} -> Len(v.l) [] v.t = "dict" -> Len(v.d)
              [] OTHER -> 0
NumOk(f, v) ==
  LET bounded == f.lo.t # "NONE" \/ f.hi.t # "NONE" IN
  /\ ~(bounded /\ v.t = "nan")
  /\ f.lo.t # "NONE" => ~NumLt(v, f.lo)
  /\ f.hi.t # "NONE" => ~NumLt(f.hi, v)
StrOk(f, v) ==
  /\ f.alpha # "" => \A i \in 1..Len(v.s) : HasCh(f.alpha, Ch(v.s, i))
  /\ f.minl >= 0 => Len(v.s) >= f.minl
  /\ f.maxl >= 0 => Len(v.s) <= f.maxl
  /\ f.pat.k # "none" => PatMatch(f.pat, v.s).ok
ChoiceOk(f, v) == f.ch # <<>> => PyIn(v, f.ch) \/ \E i \in 1..Len(f.tr) : PyEq(v, f.tr[i][2])
ChronoOk(f, v) == /\ f.after.t # "NONE" => Comparable(v, f.after) /\ ~ChronoLt(v, f.after)
                  /\ f.before.t # "NONE" => Comparable(v, f.before) /\ ~ChronoLt(f.before, v)
SizeOk(f, v) == /\ f.minl >= 0 => LenOf(v) >= f.minl
                /\ f.maxl >= 0 => LenOf(v) <= f.maxl
KeysOk(f, v) == /\ \A i \in 1..Len(f.req) : DHas(v.d, f.req[i])
                /\ f.maxk >= 0 => Len(v.d) <= f.maxk
Constraint(f, v) ==
  IF v.t = "null" THEN f.null # "no"
  ELSE CASE f.kind \in {"String", "Type"} -> (v.t = "str" => StrOk(f, v)) /\ ChoiceOk(f, v)
         [] f.kind \in {"Integer", "Float", "Decimal"} -> IsNum(v) => NumOk(f, v)
         [] f.kind \in {"Date", "Datetime", "Time"} -> ChronoOk(f, v)
         [] f.kind = "List" -> SizeOk(f, v)
         [] f.kind = "Dict" -> KeysOk(f, v)
         [] OTHER -> TRUE
\* translations apply to hashable values
Translate(f, v) ==
  IF ~Hashable(v) \/ v.t = "ref" THEN v
  ELSE LET S == {i \in 1..Len(f.tr) : PyEq(v, f.tr[i][1])} IN IF S = {} THEN v ELSE f.tr[MaxOf(S)][2]

(* ------------------------------- programs --------------------------------- *)
Hook(m, h) == Prog(m.pid).hooks[h]
FrF(f, v) == [pc |-> "F0", f |-> f, val |-> v, cl |-> <<>>, cap |-> <<>>, n |-> 0]
FrH(kind, h, f, v) == [pc |-> "H0", hk |-> kind, h |-> h, f |-> f, v |-> v, i |-> 1, ch |-> <<>>,
                       last |-> NONE, cl |-> <<>>]
FrG(form, nm) == [pc |-> "G0", form |-> form, nm |-> nm, f |-> 0, cl |-> <<>>]
FrM(form, src, tags, reset, unm, mode) ==
  [pc |-> "M0", form |-> form, src |-> src, tags |-> tags, reset |-> reset, unm |-> unm, mode |-> mode,
   i |-> 1, eid |-> 0, nested |-> FALSE, cl |-> <<>>]
NoSrc == [a |-> "none"]
CollectM(form) == FrM(form, NoSrc, {}, FALSE, [k |-> "ignore"], "collect")

(* the value a hook comes to *)
AddTo(v, n) == CASE v.t = "int" -> IntV(v.i + n) [] v.t = "flt" -> FltV(v.m + 1000 * n)
                 [] v.t = "str" -> StrV(v.s \o "+") [] OTHER -> v
HookResult(m, fr) ==   \* a marker or value, or BoolV for predicates
  LET h == Hook(m, fr.h) IN
  CASE h.op = "id" -> fr.v
    [] h.op = "const" -> h.arg
    [] h.op = "add" -> AddTo(fr.v, 1)
    [] h.op = "last" -> IF fr.last.t = "NONE" THEN h.arg ELSE fr.last
    [] h.op = "NONE" -> NONE
    [] h.op = "ERROR" -> ERROR
    [] h.op = "NOTSET" -> NOTSET
    [] h.op = "true" -> BoolV(TRUE)
    [] h.op = "false" -> BoolV(FALSE)
    [] h.op = "lt" -> BoolV(IF IsNum(fr.v) THEN NumLt(fr.v, h.arg) ELSE TRUE)
    [] h.op = "notnull" -> BoolV(fr.v.t # "null")
    [] h.op = "key" -> LET ks == Loc(m).ks IN IF ks = <<>> THEN StrV("") ELSE
                       (IF IsKS(Last1(ks)) THEN StrV(Last1(ks).k) ELSE IntV(Last1(ks).n))
    [] OTHER -> NONE

(* --------------------------- steps of a field ----------------------------- *)
Fin(m, fr, v) ==        \* leave the field with a value
  PopTo(CloseAll(m, fr.cl), v)
Default(m, fr) ==       \* the built-in default stage
  LET f == Fld(m.pid, fr.f)
      none == IF Var(m, "ignore_missing") THEN Fin(m, fr, NOTSET)
              ELSE LET m1 == Report(m, "Missing") IN IF m1.exc.x # "" THEN m1 ELSE Fin(m1, fr, NOTSET)
  IN IF Var(m, "ignore_default") THEN none
     ELSE CASE f.dflt.k \in {"unset", "notset"} -> none
            [] f.dflt.k = "optional" -> Fin(m, fr, NONE)
            [] f.dflt.k = "lit" -> Fin(m, fr, f.dflt.v)
            [] f.dflt.k = "list" -> Fin(m, fr, ListV(<<>>))
            [] f.dflt.k = "call" -> Fin([m EXCEPT !.cnt = @ + 1], fr, IntV(m.cnt + 1))
            [] f.dflt.k = "hook" -> CallF(m, [fr EXCEPT !.pc = "F9"], FrH("default", f.dflt.h, fr.f, NONE))
Invalidate(m, fr) ==    \* report, then leave with ERROR
  LET m1 == Report(m, "Invalid") IN IF m1.exc.x # "" THEN m1 ELSE Fin(m1, fr, ERROR)

StepF0(m, fr) ==
  LET m1 == Push(m, [field |-> fr.f, parent |-> [t |-> "field", id |-> fr.f]])
      f1 == [fr EXCEPT !.cl = <<PopC>>, !.pc = IF fr.val = NONE THEN "F1" ELSE "F4"]
  IN SetTop(m1, f1)
StepF1(m, fr) ==        \* resolve
  LET f == Fld(m.pid, fr.f) IN
  IF f.hooks.resolve # 0
  THEN CallF(m, [fr EXCEPT !.pc = "F1r"], FrH("resolve", f.hooks.resolve, fr.f, NONE))
  ELSE IF f.fromctx
  THEN LET us == SelectSeq(<<"u", "w", f.src.k>>, LAMBDA v : HasVar(m, v))
           doc == DictV([i \in 1..Len(us) |-> <<KS(us[i]), Var(m, us[i])>>])
           m1 == PushKey(PushSrc(m, Native(doc), <<>>, <<>>), f.src)
       IN SetTop(m1, [fr EXCEPT !.cl = @ \o <<PopC, PopC>>, !.pc = "F2"])
  ELSE IF f.kind = "Group" \/ "x" \in DOMAIN f.src THEN SetTop(m, [fr EXCEPT !.pc = "F2"])
  ELSE SetTop(PushKey(m, f.src), [fr EXCEPT !.cl = Append(@, PopC), !.pc = "F2"])
StepF1r(m, fr) ==
  SetTop(m, [fr EXCEPT !.cl = @ \o [i \in 1..m.ret.n |-> PopC], !.pc = "F2"])
\* a failure inside the parse stage is reported by the field that was parsing
Caught(m, fr) ==
  LET m1 == Report(SetTop([m EXCEPT !.exc = NoExc], [fr EXCEPT !.pc = "F3", !.val = ERROR]), "Invalid") IN m1
StepF2(m, fr) ==        \* compute
  LET f == Fld(m.pid, fr.f)
      lc == Loc(m)
      to3(v) == SetTop(m, [fr EXCEPT !.pc = "F3", !.val = v])
      par(callee) == CallF(m, [fr EXCEPT !.pc = "F2p"], callee)
  IN IF f.hooks.compute # 0
     THEN CallF(m, [fr EXCEPT !.pc = "F2r"], FrH("compute", f.hooks.compute, fr.f, NONE))
     ELSE IF f.bc.k = "const" THEN to3(f.bc.v)
     ELSE IF f.bc.k = "format"
     THEN CallF(m, [fr EXCEPT !.pc = "F2r"],
                [pc |-> "X0", f |-> fr.f, i |-> 1, ch |-> <<>>, acc |-> <<>>, cl |-> <<>>])
     ELSE IF ~Exists(lc.s, lc.ks) THEN to3(NONE)
     ELSE IF IsNull(lc.s, lc.ks) THEN to3(Null)
     ELSE IF f.hooks.parse # 0
     THEN par(FrH("parse", f.hooks.parse, fr.f, NONE))
     ELSE IF IsScalar(f.kind)
     THEN LET q == ScalarParse(f, lc.s, lc.ks) IN
          IF q.r = "ok" THEN to3(q.v)
          ELSE IF q.r = "exc" THEN Caught(m, fr)
          ELSE LET m1 == Report(m, "Invalid") IN
               IF m1.exc.x # "" THEN Caught(m1, fr)
               ELSE SetTop(m1, [fr EXCEPT !.pc = "F3", !.val = ERROR])
     ELSE par([pc |-> "C0", f |-> fr.f, kind |-> f.kind, ks |-> <<>>, i |-> 1, acc |-> <<>>, key |-> KN(0),
               cap |-> fr.cap, form |-> 0, it |-> NONE, bare |-> FALSE, hit |-> 0, cl |-> <<>>])
StepF2r(m, fr) == SetTop(m, [fr EXCEPT !.pc = "F3", !.val = m.ret])
StepF3(m, fr) ==        \* was there anything
  LET f == Fld(m.pid, fr.f) IN
  IF fr.val = NONE
  THEN IF f.dflt.k = "hook"
       THEN CallF(m, [fr EXCEPT !.pc = "F9"], FrH("default", f.dflt.h, fr.f, NONE))
       ELSE Default(m, fr)
  ELSE IF IsMark(fr.val) THEN Fin(m, fr, fr.val)
  ELSE SetTop(m, [fr EXCEPT !.pc = "F4"])
StepF4(m, fr) ==        \* munge: translate, then the capture or the hook
  LET f == Fld(m.pid, fr.f)
      v == Translate(f, fr.val)
      f1 == [fr EXCEPT !.val = v, !.pc = "F5"]
  IN IF f.cap.k # "none"
     THEN IF v.t # "str" THEN SetTop(m, f1)
          ELSE LET mt == PatMatch(f.cap, v.s) IN
               SetTop(m, [f1 EXCEPT !.val = IF mt.ok /\ f.cap.g THEN StrV(mt.grp) ELSE NONE])
     ELSE IF f.hooks.munge # 0
     THEN CallF(m, [f1 EXCEPT !.pc = "F4r"], FrH("munge", f.hooks.munge, fr.f, v))
     ELSE SetTop(m, f1)
StepF4r(m, fr) == SetTop(m, [fr EXCEPT !.val = m.ret, !.pc = "F5"])
StepF5(m, fr) ==        \* filter
  LET f == Fld(m.pid, fr.f)  v == fr.val IN
  IF v = NONE THEN Default(m, fr)
  ELSE IF IsMark(v) THEN Fin(m, fr, v)
  ELSE IF PyIn(Snap(m, v), f.ign) THEN Default(m, fr)
  ELSE IF f.hooks.filter # 0
  THEN CallF(m, [fr EXCEPT !.pc = "F5r"], FrH("filter", f.hooks.filter, fr.f, v))
  ELSE SetTop(m, [fr EXCEPT !.pc = "F6"])
StepF5r(m, fr) == IF m.ret.b THEN SetTop(m, [fr EXCEPT !.pc = "F6"]) ELSE Default(m, fr)
StepF6(m, fr) ==        \* validate
  LET f == Fld(m.pid, fr.f) IN
  IF ~Constraint(f, fr.val) THEN Invalidate(m, fr)
  ELSE IF f.hooks.validate # 0
  THEN CallF(m, [fr EXCEPT !.pc = "F6r", !.n = Len(m.errs[Var(m, "errors")].l)],
             FrH("validate", f.hooks.validate, fr.f, fr.val))
  ELSE Fin(m, fr, fr.val)
StepF6r(m, fr) ==
  IF m.ret.b THEN Fin(m, fr, fr.val)
  ELSE IF Len(m.errs[Var(m, "errors")].l) = fr.n THEN Invalidate(m, fr)
  ELSE Fin(m, fr, ERROR)
StepF9(m, fr) == Fin(m, fr, m.ret)

(* ------------------------------- collections ------------------------------ *)
SrcErr == Exc("SourceError", TRUE, <<>>)
RepErr(m, fr) ==        \* a collection reports a problem of its own
  LET m1 == Report(SetTop(m, [fr EXCEPT !.pc = "C9"]), "Invalid") IN
  IF m1.exc.x # "" THEN m1 ELSE PopTo(m1, ERROR)
RECURSIVE GMatch(_, _)
GMatch(gs, key) ==      \* the first pattern of a group that matches a key
  IF gs = <<>> THEN [f |-> 0, c |-> Null]
  ELSE LET g == Head(gs) IN
       IF g.k = "key" THEN IF key = g.key THEN [f |-> g.f, c |-> Null] ELSE GMatch(Tail(gs), key)
       ELSE IF ~IsKS(key) THEN GMatch(Tail(gs), key)
       ELSE LET mt == PatMatch(g.pat, key.k) IN
            IF mt.ok THEN [f |-> g.f, c |-> [t |-> "match", a |-> mt.all, g |-> mt.grp]]
            ELSE GMatch(Tail(gs), key)
KeyVal(key) == IF IsKS(key) THEN StrV(key.k) ELSE IntV(key.n)
ValKey(v) == IF v.t = "str" THEN KS(v.s) ELSE IF v.t = "int" THEN KN(v.i) ELSE [k |-> "?" \o PyRepr(v)]
NatKeys(n) == [i \in 1..n |-> KN(i - 1)]

\* what lies at a location, as a document of its own
RECURSIVE Below(_, _)
Below(s, ks) == CASE s.k = "union" -> [a |-> "at", s |-> s, ks |-> ks]
                  [] s.k = "mount" -> Below(Sub(s, ks), Tail(ks))
                  [] OTHER -> [a |-> "raw", v |-> At(s, ks)]
StepC0(m, fr) ==        \* open the container
  LET f == Fld(m.pid, fr.f)
      lc == Loc(m)
      sq == SeqOp(lc.s, lc.ks)
      mp == MapOp(lc.s, lc.ks)
  IN CASE fr.kind = "Tuple" ->
            IF ~sq.ok THEN Raise(m, SrcErr)
            ELSE IF sq.v # Len(f.fs) THEN RepErr(m, fr)
            ELSE SetTop(m, [fr EXCEPT !.pc = "C1", !.ks = NatKeys(sq.v)])
       [] fr.kind = "List" ->
            IF sq.ok THEN SetTop(m, [fr EXCEPT !.pc = "C1", !.ks = NatKeys(sq.v)])
            ELSE IF f.allow THEN CallF(m, [fr EXCEPT !.pc = "C3", !.bare = TRUE], FrF(f.fs[1], NONE))
            ELSE Raise(m, SrcErr)
       [] fr.kind \in {"Dict", "Group"} ->
            IF mp.ok THEN SetTop(m, [fr EXCEPT !.pc = "C1", !.ks = mp.v]) ELSE Raise(m, SrcErr)
       [] fr.kind = "SubForm" ->
            LET m1 == NewForm(m, [c |-> f.cls, pr |-> 0])
                id == Len(m1.forms)
            IN CallF(m1, [fr EXCEPT !.pc = "C5", !.form = id],
                     FrM(id, NoSrc, {}, f.reset, f.unm, "collect"))
       [] fr.kind = "Poly" ->
            LET m1 == NewForm(m, [c |-> Fld(m.pid, f.tf).owner, pr |-> f.tf])
                id == Len(m1.forms)
            IN CallF(m1, [fr EXCEPT !.pc = "C6", !.form = id],
                     FrM(id, Below(lc.s, lc.ks), {}, FALSE, [k |-> "ignore"], "collect"))
StepC1(m, fr) ==        \* next element
  LET f == Fld(m.pid, fr.f) IN
  IF fr.i > Len(fr.ks)
  THEN PopTo(m, CASE fr.kind = "Tuple" -> TupV(fr.acc)
                  [] fr.kind = "List" -> ListV(fr.acc)
                  [] fr.kind = "Dict" -> DictV(fr.acc)
                  [] fr.kind = "Group" -> IF fr.hit = 0 THEN NONE ELSE ListV(fr.acc))
  ELSE LET key == fr.ks[fr.i]
           elem(ff, fr1) == CallF(PushKey(m, key), [fr1 EXCEPT !.pc = "C3", !.cl = <<PopC>>], FrF(ff, NONE))
       IN CASE fr.kind = "Tuple" -> elem(f.fs[fr.i], fr)
            [] fr.kind = "List" -> elem(f.fs[1], fr)
            [] fr.kind = "Dict" ->
                 IF fr.cap # <<>> THEN
                   IF \E j \in 1..Len(fr.cap) : fr.cap[j] = key THEN SetTop(m, [fr EXCEPT !.i = @ + 1])
                   ELSE elem(f.fs[2], fr)
                 ELSE IF f.hooks.keyf # 0
                 THEN CallF(m, [fr EXCEPT !.pc = "C2"], FrH("keyf", f.hooks.keyf, fr.f, KeyVal(key)))
                 ELSE elem(f.fs[2], fr)
            [] fr.kind = "Group" ->
                 LET g == GMatch(f.gs, key) IN
                 IF g.f = 0 THEN SetTop(m, [fr EXCEPT !.i = @ + 1])
                 ELSE elem(g.f, [fr EXCEPT !.hit = @ + 1, !.it = g.c])
StepC2(m, fr) ==        \* a dict key passed or failed its filter
  LET f == Fld(m.pid, fr.f) IN
  IF m.ret.b THEN CallF(PushKey(m, fr.ks[fr.i]), [fr EXCEPT !.pc = "C3", !.cl = <<PopC>>], FrF(f.fs[2], NONE))
  ELSE SetTop(m, [fr EXCEPT !.pc = "C1", !.i = @ + 1])
StepC3(m, fr) ==        \* an element was mapped
  LET f == Fld(m.pid, fr.f)
      m1 == CloseAll(m, fr.cl)
      next(acc) == SetTop(m1, [fr EXCEPT !.pc = "C1", !.i = @ + 1, !.cl = <<>>, !.acc = acc])
  IN IF fr.bare THEN PopTo(m1, IF IsMark(m.ret) THEN m.ret ELSE ListV(<<m.ret>>))
     ELSE IF IsMark(m.ret) THEN next(fr.acc)
     ELSE CASE fr.kind \in {"Tuple", "List"} -> next(Append(fr.acc, m.ret))
            [] fr.kind = "Group" -> next(Append(fr.acc, TupV(<<KeyVal(fr.ks[fr.i]), fr.it, m.ret>>)))
            [] fr.kind = "Dict" ->
                 CallF(m1, [fr EXCEPT !.pc = "C4", !.cl = <<>>, !.it = m.ret], FrF(f.fs[1], KeyVal(fr.ks[fr.i])))
StepC4(m, fr) ==        \* a dict key was mapped
  SetTop(m, [fr EXCEPT !.pc = "C1", !.i = @ + 1,
             !.acc = IF IsMark(m.ret) THEN @ ELSE DPut(@, ValKey(m.ret), fr.it)])
StepC5(m, fr) ==        \* a sub-form was mapped
  PopTo(m, IF m.ret.l # <<>> THEN ERROR ELSE FormRef(fr.form))
StepC6(m, fr) ==        \* the type of a polymorphic value was probed
  LET f == Fld(m.pid, fr.f)
      v == IF m.ret.l # <<>> THEN NONE ELSE FGet(m, fr.form, Fld(m.pid, f.tf).name)
      c == TypeClass(m.pid, f.tf, v)
  IN IF v = NONE THEN RepErr(m, fr)
     ELSE IF v.t = "null" THEN PopTo(m, NONE)
     ELSE IF c = 0 THEN RepErr(m, fr)
     ELSE LET m1 == NewForm(m, [c |-> c, pr |-> 0])
              id == Len(m1.forms)
          IN CallF(m1, [fr EXCEPT !.pc = "C5", !.form = id], FrM(id, NoSrc, {}, f.reset, f.unm, "collect"))

(* ------------------------------ mapping a form ---------------------------- *)
SeqAliases(p, cr) ==
  LET fs == FieldsOf(p, cr)
      RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(fs) THEN acc
                    ELSE go(i + 1, IF Fld(p, fs[i]).kind = "Group" THEN DPut(acc, KS(Fld(p, fs[i]).name), KN(i - 1))
                                   ELSE IF "x" \in DOMAIN Fld(p, fs[i]).src THEN acc
                                   ELSE DPut(acc, Fld(p, fs[i]).src, KN(i - 1)))
  IN go(1, <<>>)
StepM0(m, fr) ==
  LET p  == m.pid
      cr == m.forms[fr.form].cr
      fs == FieldsOf(p, cr)
      tg == IF fr.tags # {} THEN fr.tags ELSE IF HasVar(m, "tags") THEN Var(m, "tags") ELSE {}
      m0 == IF ~fr.reset THEN m
            ELSE LET gone == {Fld(p, fs[i]).name : i \in {j \in 1..Len(fs) : tg = {} \/ HasTag(p, fs[j], tg)}}
                 IN [m EXCEPT !.forms[fr.form].d = SelectSeq(@, LAMBDA e : ~(IsKS(e[1]) /\ e[1].k \in gone))]
      m1 == NewErrs(m0, fr.mode)
      e  == Len(m1.errs)
      f1 == [fr EXCEPT !.pc = "M1", !.tags = tg, !.eid = e, !.cl = <<PopC>>]
      errv == [errors |-> e]
      root(s, ks) == IF ~Opens(s) THEN Raise(m1, SrcErr) ELSE SetTop(PushSrc(m1, s, ks, errv), f1)
      a  == fr.src
  IN IF a.a = "none" THEN
       IF Var(m, "src").t # "none" THEN SetTop(Push(m1, errv), [f1 EXCEPT !.nested = TRUE])
       ELSE root(Native(DictV(<<>>)), <<>>)
     ELSE IF a.a = "at" THEN root(a.s, a.ks)
     ELSE IF a.a = "src" THEN root(a.s, <<>>)
     ELSE IF a.v.t = "dict" THEN root(Native(a.v), <<>>)
     ELSE IF a.v.t \in {"list", "tup"} THEN root([Native(a.v) EXCEPT !.al = SeqAliases(p, cr)], <<>>)
     ELSE Raise(m1, Exc("ValueError", TRUE, <<>>))
StepM1(m, fr) ==
  LET lc == Loc(m) IN
  IF ~MapOp(lc.s, lc.ks).ok THEN Raise(m, SrcErr)
  ELSE SetTop(Push(m, [form |-> fr.form, parent |-> [t |-> "form", id |-> fr.form]]),
              [fr EXCEPT !.pc = "M2", !.cl = Append(@, PopC)])
StepM2(m, fr) ==
  LET fs == FieldsOf(m.pid, m.forms[fr.form].cr) IN
  IF fr.i > Len(fs) THEN SetTop(m, [fr EXCEPT !.pc = "M4"])
  ELSE IF fr.tags # {} /\ ~HasTag(m.pid, fs[fr.i], fr.tags) THEN SetTop(m, [fr EXCEPT !.i = @ + 1])
  ELSE CallF(m, [fr EXCEPT !.pc = "M3"], FrF(fs[fr.i], NONE))
StepM3(m, fr) ==
  LET fs == FieldsOf(m.pid, m.forms[fr.form].cr)
      m1 == IF IsMark(m.ret) THEN m ELSE FPut(m, fr.form, KS(Fld(m.pid, fs[fr.i]).name), m.ret)
  IN SetTop(m1, [fr EXCEPT !.pc = "M2", !.i = @ + 1])
Claimed(p, cr) ==       \* the keys declared fields claim
  LET fs == FieldsOf(p, cr) IN
  [i \in 1..Len(fs) |-> KS(Fld(p, fs[i]).name)]
  \o Concat([i \in 1..Len(fs) |-> IF "x" \in DOMAIN Fld(p, fs[i]).src THEN <<>> ELSE <<Fld(p, fs[i]).src>>])
  \o <<[z |-> 0]>>
StepM4(m, fr) ==
  IF fr.unm.k = "ignore" THEN SetTop(m, [fr EXCEPT !.pc = "M6"])
  ELSE CallF(m, [fr EXCEPT !.pc = "M5"],
             [FrF(fr.unm.df, NONE) EXCEPT !.cap = Claimed(m.pid, m.forms[fr.form].cr)])
StepM5(m, fr) ==
  LET cl == Claimed(m.pid, m.forms[fr.form].cr)
      RECURSIVE upd(_, _)
      upd(m1, d) == IF d = <<>> THEN m1
                    ELSE upd(IF \E i \in 1..Len(cl) : cl[i] = d[1][1] THEN m1 ELSE FPut(m1, fr.form, d[1][1], d[1][2]), Tail(d))
  IN SetTop(upd(m, m.ret.d), [fr EXCEPT !.pc = "M6"])
StepM6(m, fr) ==
  LET l  == m.errs[fr.eid].l
      m1 == CloseAll(m, fr.cl)
      m2 == IF fr.nested THEN [m1 EXCEPT !.errs[Var(m1, "errors")].l = @ \o l] ELSE m1
  IN IF fr.mode = "collect" THEN PopTo(m2, [t |-> "errs", l |-> l])
     ELSE IF l # <<>> THEN Raise(SetTop(m2, [fr EXCEPT !.cl = <<>>]), Exc("FormError", TRUE, l))
     ELSE PopTo(m2, FormRef(fr.form))

(* ----------------------------- attribute reads ---------------------------- *)
AttrErr == Exc("AttributeError", FALSE, <<>>)
StepG0(m, fr) ==
  LET f  == FieldByName(m.pid, m.forms[fr.form].cr, fr.nm)
      here == {i \in 1..Len(m.ctx) : "parent" \in DOMAIN m.ctx[i] /\ m.ctx[i].parent = [t |-> "form", id |-> fr.form]}
      me == [form |-> fr.form, parent |-> [t |-> "form", id |-> fr.form]]
  IN IF f = 0 THEN (IF HidesName(m.pid, m.forms[fr.form].cr, fr.nm) THEN PopTo(m, Null) ELSE Raise(m, AttrErr))
     ELSE IF FHas(m, fr.form, fr.nm) THEN PopTo(m, FGet(m, fr.form, fr.nm))
     ELSE IF ~HasVar(m, "form")
     THEN LET m1 == NewErrs(m, "raise")
              m2 == PushSrc(m1, Native(DictV(<<>>)), <<>>, me @@ [errors |-> Len(m1.errs)])
          IN CallF(m2, [fr EXCEPT !.pc = "G1", !.f = f, !.cl = <<PopC>>], FrF(f, NONE))
     ELSE IF HasVar(m, "parent") /\ Var(m, "parent") = me.parent
     THEN CallF(m, [fr EXCEPT !.pc = "G1", !.f = f], FrF(f, NONE))
     ELSE IF here # {}
     THEN LET d == MaxOf(here) IN
          CallF(RewindTo(m, d), [fr EXCEPT !.pc = "G3", !.f = f, !.cl = <<RewindClose(m, d)>>], FrF(f, NONE))
     ELSE CallF(PushSrc(m, Native(DictV(<<>>)), <<>>, me),
                [fr EXCEPT !.pc = "G1", !.f = f, !.cl = <<PopC>>], FrF(f, NONE))
StepG1(m, fr) ==
  LET m1 == SetTop(CloseAll(m, fr.cl), [fr EXCEPT !.cl = <<>>]) IN
  IF IsMark(m.ret) THEN Raise(m1, AttrErr)
  ELSE PopTo(FPut(m1, fr.form, KS(fr.nm), m.ret), m.ret)
StepG3(m, fr) ==
  LET m1 == SetTop(CloseAll(m, fr.cl), [fr EXCEPT !.cl = <<>>]) IN
  IF IsMark(m.ret) THEN Raise(m1, AttrErr) ELSE PopTo(m1, m.ret)

(* ---------------------------------- hooks --------------------------------- *)
UserVars(m, v) == LET S == SelectSeq(m.ctx, LAMBDA fr : v \in DOMAIN fr) IN [i \in 1..Len(S) |-> S[i][v]]
StepH0(m, fr) ==
  Emit(SetTop(m, [fr EXCEPT !.pc = "H1"]),
       [e |-> "hook", h |-> fr.hk, f |-> fr.f, p |-> PStr(m), v |-> Snap(m, fr.v),
        c |-> IF HasVar(m, "form") THEN ClsName(m.pid, m.forms[Var(m, "form")].cr) ELSE "-"])
FormsIn(m) == LET S == SelectSeq(m.ctx, LAMBDA fr : "form" \in DOMAIN fr) IN [i \in 1..Len(S) |-> S[i].form]
StepH1(m, fr) ==        \* the next thing the hook does
  LET h == Hook(m, fr.h) IN
  IF fr.i > Len(h.reads) THEN SetTop(m, [fr EXCEPT !.pc = "H4"])
  ELSE LET r == h.reads[fr.i] IN
       CASE r.k = "get" ->
              LET fms == FormsIn(m) IN
              IF Len(fms) <= r.up THEN SetTop(m, [fr EXCEPT !.i = @ + 1])
              ELSE CallF(m, [fr EXCEPT !.pc = "H2", !.ch = Tail(r.ch)], FrG(fms[Len(fms) - r.up], r.ch[1]))
         [] r.k = "var" ->
              Emit(SetTop(m, [fr EXCEPT !.i = @ + 1]), [e |-> "var", l |-> UserVars(m, r.v)])
         [] r.k = "map" ->
              LET m1 == NewForm(m, [c |-> r.c, pr |-> 0])
                  id == Len(m1.forms)
              IN CallF(m1, [fr EXCEPT !.pc = "H3"],
                       FrM(id, [a |-> "src", s |-> Prog(m.pid).srcs[r.s]], {}, FALSE, [k |-> "ignore"], r.mode))
\* looking up the next name of a dotted read on the value read so far
NextAttr(m, v, ch, fr) == IF v.t # "ref" THEN Raise(m, AttrErr) ELSE CallF(m, fr, FrG(v.id, Head(ch)))
StepH2(m, fr) ==
  LET r == Hook(m, fr.h).reads[fr.i] IN
  IF fr.ch # <<>> THEN NextAttr(m, m.ret, fr.ch, [fr EXCEPT !.ch = Tail(@)])
  ELSE Emit(SetTop(m, [fr EXCEPT !.pc = "H1", !.i = @ + 1, !.last = m.ret]),
            [e |-> "read", ok |-> TRUE, v |-> Snap(m, m.ret), p |-> PStr(m)])
ExcRes(x, all) == [k |-> "exc", x |-> x.x, l |-> x.l, all |-> all]
ErrsRes(l) == [k |-> "errs", l |-> l]
StepH3(m, fr) ==
  Emit(SetTop(m, [fr EXCEPT !.pc = "H1", !.i = @ + 1]),
       [e |-> "sub", r |-> IF m.ret.t = "errs" THEN ErrsRes(m.ret.l) ELSE [k |-> "val", v |-> Snap(m, m.ret)]])
StepH4(m, fr) ==        \* what the hook comes to
  LET h == Hook(m, fr.h)
      f == Fld(m.pid, fr.f)
      lc == Loc(m)
      close(m1, n) == PopTo(m1, [t |-> "close", n |-> n])
  IN CASE h.op = "raise" -> Raise(m, Exc("HookError", FALSE, <<>>))
       [] h.op = "raisev" -> Raise(m, Exc("HookValueError", TRUE, <<>>))
       [] h.op = "invalid" ->
            LET m1 == Report(m, "Invalid") IN
            IF m1.exc.x # "" THEN m1
            ELSE PopTo(m1, IF fr.hk \in {"validate", "filter", "keyf"} THEN BoolV(FALSE) ELSE ERROR)
       [] h.op = "prim" ->
            LET q == Prim(lc.s, lc.ks, h.arg.s) IN IF q.ok THEN PopTo(m, q.v) ELSE Raise(m, SrcErr)
       [] fr.hk = "resolve" ->
            (CASE h.op = "dflt" -> IF "x" \in DOMAIN f.src THEN close(m, 0) ELSE close(PushKey(m, f.src), 1)
               [] h.op = "at" -> close(PushKey(m, h.arg), 1)
               [] OTHER -> close(m, 0))
       [] h.op = "call" -> PopTo([m EXCEPT !.cnt = @ + 1], IntV(m.cnt + 1))
       [] OTHER -> PopTo(m, HookResult(m, fr))
(* a template filled from other fields *)
StepX0(m, fr) ==
  LET bc == Fld(m.pid, fr.f).bc IN
  IF fr.i > Len(bc.names)
  THEN PopTo(m, StrV(JoinStr([i \in 1..Len(bc.names) |-> bc.lits[i] \o fr.acc[i]], "") \o bc.lits[Len(bc.names) + 1]))
  ELSE CallF(m, [fr EXCEPT !.pc = "X1", !.ch = Tail(bc.names[fr.i])], FrG(Var(m, "form"), bc.names[fr.i][1]))
StepX1(m, fr) ==
  IF fr.ch # <<>> THEN NextAttr(m, m.ret, fr.ch, [fr EXCEPT !.ch = Tail(@)])
  ELSE IF HasCh(PyStr(m.ret), "?") THEN [m EXCEPT !.bad = <<"outside", "how a value is written out">>]
  ELSE SetTop(m, [fr EXCEPT !.pc = "X0", !.i = @ + 1, !.acc = Append(@, PyStr(m.ret))])

(* -------------------------------- operations ------------------------------ *)
Op(m, fr) == Prog(m.pid).ops[fr.i]
CtxObs(m) == [p |-> PStr(m), n |-> [i \in 1..6 |-> Len(UserVars(m, <<"src", "field", "form", "errors", "parent", "u">>[i]))]]
SlotVal(m, x) == IF m.slots[x] = 0 THEN NONE ELSE FormRef(m.slots[x])
Finish(m, fr, r) ==     \* an operation is over: show its result, all forms, and the context
  Emit(SetTop(m, [fr EXCEPT !.pc = "OP", !.i = @ + 1]),
       [e |-> "op", r |-> r, s |-> [x \in 1..Len(m.slots) |-> Snap(m, SlotVal(m, x))], ctx |-> CtxObs(m)])
NilRes == [k |-> "nil"]
ValRes(m, v) == [k |-> "val", v |-> Snap(m, v)]
BoolRes(m, b) == [k |-> "val", v |-> BoolV(b)]
SrcArg(m, a) == IF a.a = "raw" THEN a ELSE IF a.a = "src" THEN [a |-> "src", s |-> Prog(m.pid).srcs[a.i]] ELSE NoSrc
MkArg(m, a) == \* the constructor takes anything that is no source for a document
  IF a.a = "none" THEN [a |-> "src", s |-> Native(Null)]
  ELSE IF a.a # "raw" THEN SrcArg(m, a)
  ELSE IF a.v.t \in {"list", "tup"} THEN a ELSE [a |-> "src", s |-> Native(a.v)]
Signature(hk) == CASE hk \in {"munge", "filter", "validate"} -> "self, value"
                   [] hk = "parse" -> "self, path"
                   [] hk = "keyf" -> "self, key"
                   [] OTHER -> "self"
TagSet(op) == {op.tags[i] : i \in 1..Len(op.tags)}

RECURSIVE Flat(_, _, _)
Flat(m, id, pre) ==     \* present leaves with the names leading to them
  LET fs == FieldsOf(m.pid, m.forms[id].cr)
      one(f) == LET nm == Fld(m.pid, f).name  v == FGet(m, id, nm) IN
                IF v = NONE THEN <<>>
                ELSE IF v.t = "ref" THEN Flat(m, v.id, Append(pre, nm))
                ELSE << <<Append(pre, nm), Snap(m, v)>> >>
  IN Concat([i \in 1..Len(fs) |-> one(fs[i])])
\* form.munge(func): a new form of the selected, transformed values
MungeFn(p, fn, f, v) ==
  CASE fn.k = "tags" ->
         LET hit == \E i \in 1..Len(fn.tags) : \E j \in 1..Len(Fld(p, f).tags) : Fld(p, f).tags[j] = fn.tags[i] IN
         IF (IF fn.inv THEN ~hit ELSE hit) THEN v ELSE NONE
    [] fn.k = "drop" -> IF Fld(p, f).name = fn.n THEN NONE ELSE v
    [] fn.k = "add" -> AddTo(v, 1)
    [] OTHER -> v
RECURSIVE MungeForm(_, _, _)
MungeForm(m, id, fn) ==   \* [m, id]
  LET p  == m.pid
      cr == m.forms[id].cr
      fs == FieldsOf(p, cr)
      m0 == NewForm(m, cr)
      nid == Len(m0.forms)
      RECURSIVE deep(_, _), items(_, _, _), ents(_, _, _)
      deep(mm, v) ==    \* [m, v]: the same with every form in it transformed
        CASE v.t = "ref" -> LET r == MungeForm(mm, v.id, fn) IN [m |-> r.m, v |-> FormRef(r.id)]
          [] v.t \in {"list", "tup"} -> LET r == items(mm, v.l, <<>>) IN [m |-> r.m, v |-> [v EXCEPT !.l = r.l]]
          [] v.t = "dict" -> LET r == ents(mm, v.d, <<>>) IN [m |-> r.m, v |-> DictV(r.l)]
          [] OTHER -> [m |-> mm, v |-> v]
      items(mm, l, acc) == IF l = <<>> THEN [m |-> mm, l |-> acc]
                           ELSE LET r == deep(mm, Head(l)) IN items(r.m, Tail(l), Append(acc, r.v))
      ents(mm, d, acc) == IF d = <<>> THEN [m |-> mm, l |-> acc]
                          ELSE LET r == deep(mm, d[1][2]) IN ents(r.m, Tail(d), Append(acc, <<d[1][1], r.v>>))
      RECURSIVE go(_, _)
      go(mm, i) == IF i > Len(fs) THEN mm
                   ELSE LET nm == Fld(p, fs[i]).name
                            v  == MungeFn(p, fn, fs[i], FGet(mm, id, nm))
                            r  == deep(mm, v)
                        IN IF v = NONE THEN go(mm, i + 1)
                           ELSE go(FPut(r.m, nid, KS(nm), r.v), i + 1)
  IN [m |-> go(m0, 1), id |-> nid]

\* the scope a rewind stops at
Stops(fr, c) == CASE c.k = "var" -> c.v \in DOMAIN fr
                  [] c.k = "is" -> c.v \in DOMAIN fr /\ fr[c.v] = c.x
                  [] c.k = "src" -> "src_path" \in DOMAIN fr
                  [] c.k = "any" -> TRUE
                  [] c.k = "never" -> FALSE
\* what can be asked about the current location and context
ErrA == [t |-> "ERR"]
Answer(m, q) ==
  LET none == CurPath(m) = 0
      s == Loc(m).s  ks == Loc(m).ks
      res(r) == IF r.ok THEN r.v ELSE ErrA
  IN CASE q.q = "var" -> IF HasVar(m, q.v) THEN Var(m, q.v) ELSE ErrA
       [] q.q = "vars" -> ListV(UserVars(m, q.v))
       [] q.q = "path" -> StrV(PStr(m))
       [] none -> NONE
       [] q.q = "depth" -> IntV(Len(ks))
       [] q.q = "exists" -> BoolV(Exists(s, ks))
       [] q.q = "null" -> BoolV(IsNull(s, ks))
       [] ~Exists(s, ks) -> NONE
       [] q.q = "prim" -> res(Prim(s, ks, q.ty))
       [] q.q = "len" -> LET r == SeqOp(s, ks) IN IF r.ok THEN IntV(r.v) ELSE ErrA
       [] q.q = "keys" -> LET r == MapOp(s, ks) IN
                          IF r.ok THEN ListV(<<IntV(Len(r.v)), DictV([i \in 1..Len(r.v) |-> <<r.v[i], Null>>])>>) ELSE ErrA
StepOP(m, fr) ==
  IF fr.i > Len(Prog(m.pid).ops) THEN [Emit(m, [e |-> "end", docs |-> TRUE]) EXCEPT !.done = TRUE]
  ELSE LET op == Op(m, fr)
           x  == op.x
           id == m.slots[x]
           fin(m1, r) == Finish(m1, fr, r)
           wait(m1, n, callee) == CallF(m1, [fr EXCEPT !.pc = "OP1", !.n = n], callee)
           fresh(c) == NewForm(m, [c |-> c, pr |-> 0])
       IN CASE op.o = "new" -> LET m1 == fresh(op.c) IN fin([m1 EXCEPT !.slots[x] = Len(m1.forms)], NilRes)
            [] op.o = "make" ->
                 LET m1 == fresh(op.c)  n == Len(m1.forms) IN
                 wait(m1, n, FrM(n, MkArg(m, op.src), {}, FALSE, [k |-> "ignore"], "collect"))
            [] op.o = "map" -> wait(m, 0, FrM(id, SrcArg(m, op.src), TagSet(op), op.reset, op.unm, op.mode))
            [] op.o = "enter" ->
                 LET in(m1) == fin([m1 EXCEPT !.opens = Append(@, PopC)], NilRes) IN
                 (CASE op.c.k = "vars" -> in(Push(m, op.c.vars))
                    [] op.c.k = "tags" -> in(Push(m, [tags |-> {op.c.tags[i] : i \in 1..Len(op.c.tags)}]))
                    [] op.c.k = "src" -> in(PushSrc(m, Prog(m.pid).srcs[op.c.s], <<>>, <<>>))
                    [] op.c.k = "reset" -> in(Push(m, [src |-> [t |-> "none"], src_path |-> 0]))
                    [] op.c.k = "key" -> IF CurPath(m) = 0 THEN fin(m, ExcRes(AttrErr, TRUE))
                                         ELSE in(PushKey(m, op.c.key)))
            [] op.o = "rewind" ->   \* put aside the scopes above the innermost one that fits
                 LET S == {i \in 1..Len(m.ctx) : Stops(m.ctx[i], op.c)} IN
                 IF S = {} THEN fin(m, ExcRes(Exc("RewindDidNotStop", FALSE, <<>>), TRUE))
                 ELSE fin([RewindTo(m, MaxOf(S)) EXCEPT !.opens = Append(@, RewindClose(m, MaxOf(S)))], NilRes)
            [] op.o = "leave" -> fin([Close1(m, Last1(m.opens)) EXCEPT !.opens = Front1(@)], NilRes)
            [] op.o = "ask" -> fin(m, [k |-> "val", v |-> ListV([i \in 1..Len(op.qs) |-> Answer(m, op.qs[i])])])
            [] op.o = "get" -> wait(m, 0, FrG(id, op.n))
            [] op.o = "has" ->
                 LET f == FieldByName(m.pid, m.forms[id].cr, op.n) IN
                 IF FHas(m, id, op.n) /\ ~op.byfield THEN fin(m, BoolRes(m, TRUE))
                 ELSE IF f = 0 THEN fin(m, BoolRes(m, FALSE))
                 ELSE wait(m, 0, FrG(id, op.n))
            [] op.o = "item" ->
                 fin(m, IF FHas(m, id, op.n) THEN ValRes(m, FGet(m, id, op.n)) ELSE ExcRes(Exc("KeyError", FALSE, <<>>), TRUE))
            [] op.o = "in" -> fin(m, BoolRes(m, FHas(m, id, op.n)))
            [] op.o = "set" -> fin(FPut(m, id, KS(op.n), op.v), NilRes)
            [] op.o = "del" ->
                 IF FHas(m, id, op.n) \/ op.attr THEN fin(FDel(m, id, op.n), NilRes)
                 ELSE fin(m, ExcRes(Exc("KeyError", FALSE, <<>>), TRUE))
            [] op.o = "grow" ->   \* add to a container the form holds
                 LET v == FGet(m, id, op.n) IN
                 fin(CASE v.t = "ref" -> FPut(m, v.id, KS("zz"), IntV(7))
                       [] v.t = "list" -> FPut(m, id, KS(op.n), [v EXCEPT !.l = Append(@, IntV(7))])
                       [] v.t = "dict" -> FPut(m, id, KS(op.n), DictV(DPut(v.d, KS("zz"), IntV(7))))
                       [] OTHER -> m, NilRes)
            [] op.o = "link" ->   \* store one form in another
                 fin(FPut(m, id, KS(op.n), FormRef(m.slots[op.y])), NilRes)
            [] op.o = "flatten" -> fin(m, [k |-> "flat", l |-> Flat(m, id, <<>>)])
            [] op.o = "munge" ->
                 LET r == MungeForm(m, id, op.fn) IN fin([r.m EXCEPT !.slots[op.y] = r.id], NilRes)
            [] op.o = "copy" ->
                 LET m1 == [NewForm(m, m.forms[id].cr) EXCEPT !.slots[op.y] = Len(m.forms) + 1] IN
                 fin([m1 EXCEPT !.forms[Len(m1.forms)].d = m.forms[id].d], NilRes)
            [] op.o = "cast" ->
                 LET m1 == NewForm(m, [c |-> Fld(m.pid, op.f).owner, pr |-> op.f]) IN
                 wait(m1, Len(m1.forms), FrM(Len(m1.forms), SrcArg(m, op.src), {}, FALSE, [k |-> "ignore"], "collect"))
            [] op.o = "fields" ->   \* the declaration order of a class
                 LET fs == FieldsOfClass(m.pid, op.c) IN
                 fin(m, [k |-> "val", v |-> ListV([i \in 1..Len(fs) |-> StrV(Fld(m.pid, fs[i]).name)])])
            [] op.o = "declare" ->  \* give a field a hook of some signature
                 fin(m, IF op.sig = Signature(op.hk) THEN NilRes ELSE ExcRes(Exc("TypeError", FALSE, <<>>), TRUE))
            [] op.o = "alter" -> fin(m, NilRes)   \* declare other things on the basis of a class
            [] op.o = "render" ->   \* a date or time as text
                 fin(m, [k |-> "val", v |-> StrV(Strftime(op.fmts[1], op.v))])
            [] op.o = "fmap" ->     \* a field used on its own: read one location as a type
                 LET q == Prim(Prog(m.pid).srcs[op.s], op.ks, op.ty) IN
                 fin(m, IF q.ok THEN [k |-> "val", v |-> q.v] ELSE ExcRes(SrcErr, TRUE))
StepOP1(m, fr) ==       \* a mapping, read or cast came back
  LET op == Op(m, fr)  r == m.ret IN
  CASE op.o = "map" -> Finish(m, fr, IF r.t = "errs" THEN ErrsRes(r.l) ELSE [k |-> "self"])
    [] op.o = "make" ->
         IF r.l # <<>> THEN Finish(m, fr, ExcRes(Exc("FormError", TRUE, r.l), TRUE))
         ELSE Finish([m EXCEPT !.slots[op.x] = fr.n], fr, NilRes)
    [] op.o = "get" -> Finish(m, fr, ValRes(m, r))
    [] op.o = "has" -> Finish(m, fr, BoolRes(m, r.t # "null"))
    [] op.o = "cast" ->
         LET v == IF r.l # <<>> THEN NONE ELSE FGet(m, fr.n, Fld(m.pid, op.f).name)
             c == TypeClass(m.pid, op.f, v)
         IN IF r.l # <<>> THEN Finish(m, fr, ExcRes(Exc(r.l[1].k, TRUE, <<>>), TRUE))
            ELSE IF v = NONE \/ c = 0 THEN Finish(m, fr, ExcRes(Exc("ValueError", TRUE, <<>>), TRUE))
            ELSE Finish(m, fr, [k |-> "cls", c |-> Cls(m.pid, c).name])

(* ------------------------------- exceptions ------------------------------- *)
(* one frame deals with a flying exception: it handles it, or closes its scopes *)
(* and goes                                                                     *)
Unwind(m, fr) ==
  LET x == m.exc
      calm(m1) == [m1 EXCEPT !.exc = NoExc]
      drop == [CloseAll(m, fr.cl) EXCEPT !.k = Front1(@)]
  IN CASE fr.pc = "F2p" /\ x.isv -> Caught(m, fr)
       [] fr.pc = "C6" /\ x.x \in {"ValueError", "FormError", "HookValueError"} -> RepErr(calm(m), fr)
       [] fr.pc = "H2" /\ x.x = "AttributeError" /\ Hook(m, fr.h).reads[fr.i].catch ->
            Emit(SetTop(calm(m), [fr EXCEPT !.pc = "H1", !.i = @ + 1]),
                 [e |-> "read", ok |-> FALSE, v |-> NONE, p |-> PStr(m)])
       [] fr.pc = "X1" /\ x.x = "AttributeError" ->
            LET m1 == Report(calm(SetTop(m, [fr EXCEPT !.pc = "X2"])), "Invalid") IN
            IF m1.exc.x # "" THEN m1 ELSE PopTo(m1, ERROR)
       [] fr.pc \in {"OP", "OP1"} ->
            LET op == Op(m, fr) IN
            IF op.o = "has" /\ x.x \in {"AttributeError", "FormError"} THEN Finish(calm(m), fr, BoolRes(m, FALSE))
            ELSE Finish(calm(m), fr, ExcRes(x, FALSE))
       [] OTHER -> drop

(* ---------------------------------- Step ---------------------------------- *)
Running(m) == ~m.done /\ m.bad = <<>>
Step(m) ==
  LET fr == Top(m) IN
  IF m.exc.x # "" THEN Unwind(m, fr)
  ELSE CASE fr.pc = "OP" -> StepOP(m, fr)      [] fr.pc = "OP1" -> StepOP1(m, fr)
         [] fr.pc = "M0" -> StepM0(m, fr)      [] fr.pc = "M1" -> StepM1(m, fr)
         [] fr.pc = "M2" -> StepM2(m, fr)      [] fr.pc = "M3" -> StepM3(m, fr)
         [] fr.pc = "M4" -> StepM4(m, fr)      [] fr.pc = "M5" -> StepM5(m, fr)
         [] fr.pc = "M6" -> StepM6(m, fr)
         [] fr.pc = "F0" -> StepF0(m, fr)      [] fr.pc = "F1" -> StepF1(m, fr)
         [] fr.pc = "F1r" -> StepF1r(m, fr)    [] fr.pc = "F2" -> StepF2(m, fr)
         [] fr.pc \in {"F2r", "F2p"} -> StepF2r(m, fr)
         [] fr.pc = "F3" -> StepF3(m, fr)      [] fr.pc = "F4" -> StepF4(m, fr)
         [] fr.pc = "F4r" -> StepF4r(m, fr)    [] fr.pc = "F5" -> StepF5(m, fr)
         [] fr.pc = "F5r" -> StepF5r(m, fr)    [] fr.pc = "F6" -> StepF6(m, fr)
         [] fr.pc = "F6r" -> StepF6r(m, fr)    [] fr.pc = "F9" -> StepF9(m, fr)
         [] fr.pc = "C0" -> StepC0(m, fr)      [] fr.pc = "C1" -> StepC1(m, fr)
         [] fr.pc = "C2" -> StepC2(m, fr)      [] fr.pc = "C3" -> StepC3(m, fr)
         [] fr.pc = "C4" -> StepC4(m, fr)      [] fr.pc = "C5" -> StepC5(m, fr)
         [] fr.pc = "C6" -> StepC6(m, fr)
         [] fr.pc = "G0" -> StepG0(m, fr)      [] fr.pc = "G1" -> StepG1(m, fr)
         [] fr.pc = "G3" -> StepG3(m, fr)
         [] fr.pc = "H0" -> StepH0(m, fr)      [] fr.pc = "H1" -> StepH1(m, fr)
         [] fr.pc = "H2" -> StepH2(m, fr)      [] fr.pc = "H3" -> StepH3(m, fr)
         [] fr.pc = "H4" -> StepH4(m, fr)
         [] fr.pc = "X0" -> StepX0(m, fr)      [] fr.pc = "X1" -> StepX1(m, fr)
=============================================================================
