-------------------------------- MODULE Laws --------------------------------
(* The properties, stated over the machine and checked on it by TLC: invariants   *)
(* of every state, laws of every operation (the state before and after it), and    *)
(* laws of a whole history.  Programs come from a file (LawsRun.tla), or are the     *)
(* exhaustive families of Families.tla.                                            *)
EXTENDS Meaning, Json, IOUtils
\* (The laws have an argument they do not use: before a run, TLC goes through every
\* operator without arguments, along every path of calls, to find its level.)
VARIABLES m,     \* the machine
          b,     \* the machine at the beginning of the operation in progress (or just ended)
          steps, \* the number of the step
          rd     \* what was read early: <<form, name, value>> of forms still being mapped

Ended == Len(m.k) = 1 /\ m.k[1].pc = "OP" /\ m.exc.x = "" /\ Len(m.log) > Len(b.log) /\ ~m.done
TheOp == Prog(m.pid).ops[b.k[1].i]
Ev == Last1(m.log)
IsMapping(op) == op.o \in {"map", "make"}
FormOf(op) == IF op.o = "make" THEN m.slots[op.x] ELSE b.slots[op.x]      \* (0: the constructor raised)
ErrsOf(r) == IF r.k \in {"errs", "exc"} THEN r.l ELSE <<>>

(* ----------------------- C08: contexts are put back ------------------------- *)
\* every open scope belongs to exactly one activity: closing all that is open
\* comes back to the outermost scope
AllCloses(q0) == m.opens \o Concat([i \in 1..Len(m.k) |-> m.k[i].cl])
             \o (IF Top(m).pc = "F1r" /\ m.exc.x = "" /\ m.ret.t = "close"     \* handed over by a resolve hook
                 THEN [i \in 1..m.ret.n |-> PopC] ELSE <<>>)
ScopesOwned(q0) == m.bad = <<>> => LET z == CloseAll(m, AllCloses(q0)) IN
               z.ctx = <<BaseScope>>
OpCloses(q0) == (Ended /\ TheOp.o \notin {"enter", "leave", "rewind"}) =>
            /\ m.ctx = b.ctx /\ m.opens = b.opens
            /\ \A i \in 1..Len(b.paths) : m.paths[i] = b.paths[i]
\* C11: a scope that is left is as if it had never been entered
LeaveRestores(q0) == (Ended /\ TheOp.o = "leave") =>
   m.ctx = Close1(b, Last1(b.opens)).ctx
Nested(q0) == (Ended /\ TheOp.o = "enter" /\ Ev.r.k = "nil") => Close1(m, Last1(m.opens)).ctx = b.ctx
Rewound(q0) == (Ended /\ TheOp.o = "rewind" /\ Ev.r.k = "nil") =>
   /\ Close1(m, Last1(m.opens)).ctx = b.ctx
   /\ \A i \in 1..Len(b.paths) : Close1(m, Last1(m.opens)).paths[i] = b.paths[i]
   /\ m.ctx = SubSeq(b.ctx, 1, Len(m.ctx))

(* ------------------ C02, C05, ...: the machine means this ------------------- *)
RootOf(cr, a) ==
  IF a.a = "at" THEN [k |-> "at", at |-> [s |-> a.s, ks |-> a.ks]]
  ELSE IF a.a = "src" THEN [k |-> "at", at |-> [s |-> a.s, ks |-> <<>>]]
  ELSE IF a.a = "none" THEN [k |-> "at", at |-> [s |-> Native(DictV(<<>>)), ks |-> <<>>]]
  ELSE IF a.v.t = "dict" THEN [k |-> "at", at |-> [s |-> Native(a.v), ks |-> <<>>]]
  ELSE IF a.v.t \in {"list", "tup"} THEN [k |-> "at", at |-> [s |-> [Native(a.v) EXCEPT !.al = SeqAliases(m.pid, cr)], ks |-> <<>>]]
  ELSE [k |-> "exc"]
Ambient(q0) == Var(b, "src").t # "none" \/ HasVar(b, "Missing") \/ HasVar(b, "Invalid")
SnapD(mm, id) == [i \in 1..Len(mm.forms[id].d) |-> <<mm.forms[id].d[i][1], Snap(mm, mm.forms[id].d[i][2])>>]
OpClass(op) == IF op.o = "make" THEN [c |-> op.c, pr |-> 0] ELSE b.forms[b.slots[op.x]].cr
OpSrc(op) == IF op.o = "make" THEN MkArg(b, op.src) ELSE SrcArg(b, op.src)
OpMeaning(op) ==      \* of a mapping
  LET cr == OpClass(op)
      w  == World(b.ctx)
      r  == RootOf(cr, OpSrc(op))
      d0 == IF op.o = "make" THEN <<>> ELSE SnapD(b, b.slots[op.x])
      tg == IF op.o = "make" THEN {} ELSE TagSet(op)
      eff == IF tg = {} THEN w.tags ELSE tg
      gone == IF op.o = "map" /\ op.reset
              THEN {Fld(m.pid, f).name : f \in {FieldsOf(m.pid, cr)[i] : i \in {j \in 1..Len(FieldsOf(m.pid, cr)) :
                                          eff = {} \/ HasTag(m.pid, FieldsOf(m.pid, cr)[j], eff)}}} ELSE {}
      d1 == SelectSeq(d0, LAMBDA e : ~(IsKS(e[1]) /\ e[1].k \in gone))
  IN IF r.k = "exc" THEN [ok |-> FALSE, e |-> <<>>, d |-> d1]
     ELSE IF ~Opens(r.at.s) THEN [ok |-> FALSE, e |-> <<>>, d |-> d1]
     ELSE MForm(m.pid, cr, r.at, d1, tg, IF op.o = "make" THEN [k |-> "ignore"] ELSE op.unm, w)
Agrees(q0) == (Ended /\ IsMapping(TheOp) /\ Pure(m.pid) /\ ~Ambient(q0)) =>
  LET op == TheOp
      me == TLCEval(OpMeaning(op))
      r  == Ev.r
      mode == IF op.o = "make" THEN "make" ELSE op.mode
      same == SameD(SnapD(m, FormOf(op)), me.d, FALSE)
  IN IF ~me.ok THEN r.k = "exc" /\ r.x # "FormError"
     ELSE IF mode = "collect" THEN r.k = "errs" /\ r.l = me.e /\ same
     ELSE IF me.e = <<>> THEN r.k = (IF mode = "raise" THEN "self" ELSE "nil") /\ same
     ELSE r.k = "exc" /\ r.x = "FormError" /\ (IF mode = "make" THEN r.l = me.e ELSE r.l # <<>> /\ r.l[1] = me.e[1])
(* ------- the properties again, each read off the state on its own terms ------- *)
(* (the machine is bound to the code and to Meaning.tla; these say, without running *)
(* a second mapping, what must be true of its results)                              *)
Mapped(q0) == Ended /\ IsMapping(TheOp)
Clean(r) == r.k \in {"self", "nil"} \/ (r.k = "errs" /\ r.l = <<>>)
Fresh(op) == op.o = "make" \/ b.forms[b.slots[op.x]].d = <<>>
Mild == {"id", "const", "add", "true", "false", "lt", "notnull", "key"}
HooksOf(p) == {Prog(p).hooks[h].op : h \in 1..Len(Prog(p).hooks)}
NoReads(p) == \A h \in 1..Len(Prog(p).hooks) : Prog(p).hooks[h].reads = <<>>
Tame(p) == NoReads(p) /\ HooksOf(p) = {}              \* no hooks at all
NoCtx(p) == \A f \in 1..Len(Prog(p).flds) : ~Fld(p, f).fromctx      \* (context fields have errors of other roots)
OpKinds(p) == {Prog(p).ops[i].o : i \in 1..Len(Prog(p).ops)}
NoSharing(p) == OpKinds(p) \cap {"link", "copy", "munge", "grow"} = {}
Opts(op) == IF op.o = "make" THEN [tags |-> {}, reset |-> FALSE, unm |-> [k |-> "ignore"]]
            ELSE [tags |-> TagSet(op), reset |-> op.reset, unm |-> op.unm]
InForce(op) == LET t == Opts(op).tags IN IF t # {} THEN t ELSE IF HasVar(b, "tags") THEN Var(b, "tags") ELSE {}
Chosen(op) == LET fs == FieldsOf(m.pid, OpClass(op)) IN
              SelectSeq(fs, LAMBDA f : InForce(op) = {} \/ HasTag(m.pid, f, InForce(op)))
NameOf(f) == Fld(m.pid, f).name
Entry(id, nm) == FGet(m, id, nm)

\* C01: what a form holds is what its fields allow, all the way down
Typed(k, v) == CASE k \in {"String", "Type"} -> v.t = "str" [] k = "Integer" -> v.t \in {"int", "big"} \/ (v.t = "wide" /\ v.k = "int")
                 [] k = "Float" -> v.t \in {"flt", "nan", "inf", "big"} \/ (v.t = "wide" /\ v.k = "flt") [] k = "Boolean" -> v.t = "bool" [] k = "Decimal" -> v.t \in {"dec", "nan", "inf", "big"} \/ (v.t = "wide" /\ v.k = "dec")
                 [] k = "Date" -> v.t = "date" [] k = "Datetime" -> v.t = "dt" [] k = "Time" -> v.t \in {"time", "st"}
                 [] k = "UUID" -> v.t = "uuid" [] k = "List" -> v.t = "list" [] k = "Tuple" -> v.t = "tup"
                 [] k = "Dict" -> v.t = "dict" [] k = "Group" -> v.t = "list" [] k \in {"SubForm", "Poly"} -> v.t = "ref" [] OTHER -> TRUE
IsDefault(f, v) == LET F == Fld(m.pid, f) IN
   CASE F.dflt.k = "lit" -> Snap(m, v) = F.dflt.v [] F.dflt.k = "list" -> v = ListV(<<>>) [] F.dflt.k \in {"call", "hook"} -> TRUE [] OTHER -> FALSE
RECURSIVE Allowed(_, _)
Elements(F, v) ==       \* the elements of a collection, each against its own field
  CASE v.t = "null" -> TRUE
    [] F.kind = "List" -> \A i \in 1..Len(v.l) : Allowed(F.fs[1], v.l[i])
    [] F.kind = "Tuple" -> Len(v.l) <= Len(F.fs) /\ (Len(v.l) = Len(F.fs) => \A i \in 1..Len(v.l) : Allowed(F.fs[i], v.l[i]))
    [] F.kind = "Dict" -> \A i \in 1..Len(v.d) : Allowed(F.fs[2], v.d[i][2]) /\ Allowed(F.fs[1], KeyVal(v.d[i][1]))
    [] F.kind = "Group" -> \A i \in 1..Len(v.l) : v.l[i].t = "tup" /\ \E g \in 1..Len(F.gs) : Allowed(F.gs[g].f, v.l[i].l[3])
    [] F.kind = "SubForm" -> m.forms[v.id].cr = [c |-> F.cls, pr |-> 0]
    [] F.kind = "Poly" -> LET cr == m.forms[v.id].cr
                              fam == Family(m.pid, Fld(m.pid, F.tf).owner)
                              tv == FGet(m, v.id, Fld(m.pid, F.tf).name)
                          IN cr.pr = 0 /\ \E i \in 1..Len(fam) : fam[i] = cr.c
    [] OTHER -> TRUE
Allowed(f, v) ==
  LET F == Fld(m.pid, f)
      asis == F.hooks.munge # 0 \/ F.hooks.compute # 0 \/ F.hooks.parse # 0 \/ F.bc.k # "none" \/ F.tr # <<>>
  IN IF IsMark(v) THEN FALSE
     ELSE IF IsDefault(f, v) THEN TRUE
     ELSE /\ (asis \/ v.t = "null" \/ (Typed(F.kind, v) /\ Elements(F, v)))
          /\ (v.t = "null" \/ Typed(F.kind, v)) => Constraint(F, v)
          /\ ~PyIn(Snap(m, v), F.ign)
          /\ F.hooks.validate # 0 => LET H == Prog(m.pid).hooks[F.hooks.validate] IN
                                     CASE H.op \in {"false", "invalid", "raise", "raisev"} -> FALSE
                                       [] H.op = "lt" -> IsNum(v) => NumLt(v, H.arg)
                                       [] H.op = "notnull" -> v.t # "null" [] OTHER -> TRUE
          /\ (~asis /\ v.t = "ref") => \A i \in 1..Len(m.forms[v.id].d) :
                LET e == m.forms[v.id].d[i]
                    ff == IF IsKS(e[1]) THEN FieldByName(m.pid, m.forms[v.id].cr, e[1].k) ELSE 0
                IN ff # 0 => Allowed(ff, e[2])
Sound(q0) == (Mapped(q0) /\ Clean(Ev.r) /\ Fresh(TheOp) /\ Opts(TheOp).unm.k = "ignore") =>
         LET id == FormOf(TheOp) IN
         \A i \in 1..Len(Chosen(TheOp)) : LET f == Chosen(TheOp)[i]  v == Entry(id, NameOf(f)) IN v # NONE => Allowed(f, v)

\* C05: every error lies at or below the place of a field; C01, C03: a field that
\* holds nothing without being optional has an error at or below its place
Rooted(op) == LET r == RootOf(OpClass(op), OpSrc(op)) IN IF r.k # "exc" /\ Opens(r.at.s) THEN r.at ELSE NONE
Placed(f, at) == LET F == Fld(m.pid, f) IN
                 IF F.kind = "Group" \/ "x" \in DOMAIN F.src THEN at.ks ELSE Append(at.ks, F.src)
Begins(t, pre) == Len(t) >= Len(pre) /\ SubSeq(t, 1, Len(pre)) = pre
Lies(p, f, at) == Begins(p, PathStr(at.s, Placed(f, at)))
Located(q0) == (Mapped(q0) /\ Ev.r.k = "errs" /\ Tame(m.pid) /\ NoCtx(m.pid) /\ ~Ambient(q0) /\ Opts(TheOp).unm.k = "ignore") =>
  LET op == TheOp  at == TLCEval(Rooted(op))  fs == TLCEval(Chosen(op)) IN
  \A j \in 1..Len(Ev.r.l) : \E i \in 1..Len(fs) : Fld(m.pid, fs[i]).bc.k = "format" \/ Lies(Ev.r.l[j].p, fs[i], at)
Accounted(q0) == (Mapped(q0) /\ Ev.r.k = "errs" /\ Tame(m.pid) /\ NoCtx(m.pid) /\ ~Ambient(q0) /\ ~Var(b, "ignore_missing") /\ Fresh(TheOp)) =>
  LET op == TheOp  at == TLCEval(Rooted(op))  fs == TLCEval(Chosen(op))  id == FormOf(op) IN
  \A i \in 1..Len(fs) : LET F == Fld(m.pid, fs[i]) IN
    (F.dflt.k # "optional" /\ ~F.fromctx /\ Entry(id, F.name) = NONE) => \E j \in 1..Len(Ev.r.l) : Lies(Ev.r.l[j].p, fs[i], at)
\* C03: absence and null, read off the document
Absences_(q0) == (Mapped(q0) /\ Ev.r.k = "errs" /\ Tame(m.pid) /\ ~Ambient(q0) /\ Fresh(TheOp) /\ Opts(TheOp).unm.k = "ignore") =>
  LET op == TheOp  at == TLCEval(Rooted(op))  fs == TLCEval(Chosen(op))  id == FormOf(op) IN
  \A i \in 1..Len(fs) :
    LET F == Fld(m.pid, fs[i])  v == Entry(id, F.name)  ks == Placed(fs[i], at)
        said(k) == \E j \in 1..Len(Ev.r.l) : Ev.r.l[j] = [k |-> k, p |-> PathStr(at.s, ks), f |-> Blamed(m.pid, fs[i])]
    IN (F.kind # "Group" /\ "x" \notin DOMAIN F.src /\ ~F.fromctx /\ F.bc.k = "none") =>
       IF ~Exists(at.s, ks)
       THEN CASE Var(b, "ignore_default") -> v = NONE /\ (Var(b, "ignore_missing") \/ said("Missing"))
              [] F.dflt.k = "lit" -> Snap(m, v) = F.dflt.v
              [] F.dflt.k = "list" -> v = ListV(<<>>)
              [] F.dflt.k = "optional" -> v = NONE
              [] F.dflt.k \in {"unset", "notset"} -> v = NONE /\ (Var(b, "ignore_missing") \/ said("Missing"))
              [] OTHER -> TRUE
       ELSE (IsNull(at.s, ks) /\ F.tr = <<>> /\ F.ign = <<>>) => IF F.null = "no" THEN v = NONE /\ said("Invalid") ELSE v = Null \/ F.ch # <<>> \/ F.cap.k # "none"

\* C07: bad data ends in field errors, or in the one about the root
Total(q0) == (Mapped(q0) /\ Pure(m.pid)) =>
  LET r == Ev.r IN
  CASE r.k = "errs" -> \A i \in 1..Len(r.l) : r.l[i].k \in {Kind(b, "Missing"), Kind(b, "Invalid")}
    [] r.k = "exc" -> r.x \in {"SourceError", "ValueError"} \/ (r.x = "FormError" /\ r.l # <<>>)
    [] OTHER -> TRUE

\* C10: what was read early is what the field came to
ReadEarly(q0) == (Mapped(q0) /\ Ev.r.k # "exc" /\ Fresh(TheOp) /\ Opts(TheOp).tags = {} /\ ~HasVar(b, "tags") /\ HooksOf(m.pid) \cap {"call"} = {}
              /\ \A f \in 1..Len(Prog(m.pid).flds) : Fld(m.pid, f).dflt.k # "call") =>
  \A e \in rd : FGet(m, e[1], e[2]) # NONE => Snap(m, FGet(m, e[1], e[2])) = e[3]

\* C17, C18, C20: what a mapping may touch
Names(op) == {NameOf(Chosen(op)[i]) : i \in 1..Len(Chosen(op))}
Untouched(q0) == (Mapped(q0) /\ TheOp.o = "map" /\ NoReads(m.pid) /\ NoSharing(m.pid) /\ \A f \in 1..Len(Prog(m.pid).flds) : Fld(m.pid, f).bc.k # "format") =>
  LET op == TheOp  id == b.slots[op.x]
      fs == FieldsOf(m.pid, OpClass(op))
      declared == {KS(NameOf(fs[i])) : i \in 1..Len(fs)}
      claimed == {Claimed(m.pid, OpClass(op))[i] : i \in 1..Len(Claimed(m.pid, OpClass(op)))}
      safe(k) == IF k \in declared THEN k.k \notin Names(op) ELSE op.unm.k = "ignore" \/ k \in claimed   \* whatever the key field makes of the keys
      was == TLCEval(SnapD(b, id))  is == TLCEval(SnapD(m, id))
  IN /\ \A i \in 1..Len(was) : safe(was[i][1]) => DGet(is, was[i][1]) = was[i][2]
     /\ \A i \in 1..Len(is) : safe(is[i][1]) => DHas(was, is[i][1])
OnlyTheForm(q0) == (Mapped(q0) /\ NoReads(m.pid) /\ NoSharing(m.pid)) =>
  \A x \in 1..Len(b.slots) : x # TheOp.x => m.slots[x] = b.slots[x] /\ Snap(m, SlotVal(m, x)) = Snap(b, SlotVal(b, x))
Captures(q0) == (Mapped(q0) /\ TheOp.o = "map" /\ TheOp.unm.k = "capture" /\ Ev.r.k = "errs" /\ Tame(m.pid) /\ ~Ambient(q0) /\ Fresh(TheOp)) =>
  LET op == TheOp  at == TLCEval(Rooted(op))
      D == Fld(m.pid, op.unm.df)  KF == Fld(m.pid, D.fs[1])
      fs == FieldsOf(m.pid, OpClass(op))
      claimed == {Claimed(m.pid, OpClass(op))[i] : i \in 1..Len(Claimed(m.pid, OpClass(op)))}
      there == LET r == MapOp(at.s, at.ks) IN {r.v[i] : i \in 1..Len(r.v)} \ claimed
      got == LET d == m.forms[FormOf(op)].d IN {d[i][1] : i \in 1..Len(d)} \ {KS(NameOf(fs[i])) : i \in 1..Len(fs)}
      plain == KF.kind \in {"Field", "String"} /\ KF.tr = <<>> /\ KF.cap.k = "none" /\ KF.dflt.k \in {"unset", "optional"} /\ KF.ign = <<>> /\ KF.bc.k = "none"
  IN plain => got \subseteq there

\* C19: what is derived from a form, and that it stays as it was
Derived(q0) == (Ended /\ TheOp.o \in {"copy", "munge", "flatten", "get", "has", "item", "in"}) =>
  LET op == TheOp  id == b.slots[op.x]
      others == {x \in 1..Len(b.slots) : TheOp.o \notin {"copy", "munge"} \/ x # op.y}
      own(x) == SnapD(b, x)
  IN /\ (op.o \notin {"get", "has"} => \A x \in others : m.slots[x] = b.slots[x] /\ Snap(m, SlotVal(m, x)) = Snap(b, SlotVal(b, x)))
     /\ op.o = "copy" => m.slots[op.y] # id /\ Snap(m, SlotVal(m, op.y)) = Snap(b, FormRef(id))
     /\ (op.o = "munge" /\ op.fn.k = "tags") =>
          LET nid == m.slots[op.y]  fs == FieldsOf(m.pid, b.forms[id].cr)  got == m.forms[nid].d IN
          /\ m.forms[nid].cr = b.forms[id].cr
          /\ \A i \in 1..Len(fs) : LET f == fs[i]  hit == HasTag(m.pid, f, {op.fn.tags[j] : j \in 1..Len(op.fn.tags)})  v == FGet(b, id, NameOf(f)) IN
               IF v = NONE \/ hit = op.fn.inv THEN ~FHas(m, nid, NameOf(f))
               ELSE FHas(m, nid, NameOf(f)) /\ (v.t \notin {"ref", "list", "tup", "dict"} => FGet(m, nid, NameOf(f)) = v)
          /\ \A i \in 1..Len(got) : IsKS(got[i][1]) /\ FieldByName(m.pid, b.forms[id].cr, got[i][1].k) # 0
     /\ op.o = "flatten" =>
          LET l == Ev.r.l
              RECURSIVE walk(_, _)
              walk(v, ns) == IF ns = <<>> THEN v ELSE IF v.t # "form" THEN NONE ELSE walk(DGet(v.d, KS(Head(ns))), Tail(ns))
              RECURSIVE leaves(_)
              leaves(x) == LET fs == FieldsOf(m.pid, b.forms[x].cr)
                               RECURSIVE sum(_)
                               sum(i) == IF i > Len(fs) THEN 0
                                         ELSE LET v == FGet(b, x, NameOf(fs[i])) IN
                                              (IF v = NONE THEN 0 ELSE IF v.t = "ref" THEN leaves(v.id) ELSE 1) + sum(i + 1)
                           IN sum(1)
          IN /\ \A i \in 1..Len(l) : walk(Snap(b, FormRef(id)), l[i][1]) = l[i][2] /\ l[i][2].t # "form"
             /\ Len(l) = leaves(id)
             /\ Cardinality({l[i][1] : i \in 1..Len(l)}) = Len(l)
Writes(q0) == (Ended /\ TheOp.o \in {"set", "del"}) =>
  LET op == TheOp  id == b.slots[op.x]  was == SnapD(b, id)  is == SnapD(m, id) IN
  /\ IF op.o = "set" THEN FGet(m, id, op.n) = op.v ELSE ~FHas(m, id, op.n)
  /\ \A i \in 1..Len(was) : was[i][1] # KS(op.n) => DGet(is, was[i][1]) = was[i][2] \/ OpKinds(m.pid) \cap {"link"} # {}

\* C22: constants and templates
Determined(q0) == (Mapped(q0) /\ Clean(Ev.r) /\ Fresh(TheOp) /\ InForce(TheOp) = {} /\ NoReads(m.pid) /\ OpKinds(m.pid) \cap {"link"} = {}) =>
  LET op == TheOp  id == FormOf(op)  fs == FieldsOf(m.pid, OpClass(op)) IN
  \A i \in 1..Len(fs) :
    LET F == Fld(m.pid, fs[i])  v == Entry(id, F.name) IN
    (F.tr = <<>> /\ F.cap.k = "none" /\ F.hooks.munge = 0 /\ F.hooks.compute = 0 /\ v # NONE /\ ~IsDefault(fs[i], v)) =>
      /\ F.bc.k = "const" => v = F.bc.v
      /\ F.bc.k = "format" =>
           LET RECURSIVE at(_, _)
               at(x, ns) == IF ns = <<>> THEN x ELSE IF x.t # "ref" THEN NONE ELSE at(FGet(m, x.id, Head(ns)), Tail(ns))
               vs == [j \in 1..Len(F.bc.names) |-> at(FormRef(id), F.bc.names[j])]
           IN IF \E j \in 1..Len(vs) : vs[j] = NONE \/ vs[j].t \in {"ref", "list", "tup", "dict"} THEN \A j \in 1..Len(vs) : vs[j] # NONE
              ELSE v = StrV(JoinStr([j \in 1..Len(vs) |-> F.bc.lits[j] \o PyStr(vs[j])], "") \o F.bc.lits[Len(vs) + 1])


(* --------------------------------- running ---------------------------------- *)
\* the programs are compiled into register 7 before the run (LawsRun.tla, Families.tla)
LawProg(p) == TLCGet(7)[p]
Init == \E p \in 1..Len(TLCGet(7)) : m = InitM(p) /\ b = InitM(p) /\ rd = {} /\ steps = 0
Place == <<m.pid, b.pid, steps>>      \* a program runs in one way: this says which state it is
\* the first law that does not hold in a state (all but the first are about ended operations)
Broken(q0) ==
  IF ~ScopesOwned(q0) THEN "C08 scopes owned"
  ELSE IF ~Ended THEN ""
  ELSE IF ~OpCloses(q0) THEN "C08 operation closes"
  ELSE IF ~LeaveRestores(q0) THEN "C11 leave restores"
  ELSE IF ~Nested(q0) THEN "C11 nested"
  ELSE IF ~Rewound(q0) THEN "C11 rewound"
  ELSE IF ~Agrees(q0) THEN "meaning"
  ELSE IF ~Sound(q0) THEN "C01 sound"
  ELSE IF ~Located(q0) THEN "C05 located"
  ELSE IF ~Accounted(q0) THEN "C01 accounted"
  ELSE IF ~Absences_(q0) THEN "C03 absences"
  ELSE IF ~Total(q0) THEN "C07 total"
  ELSE IF ~ReadEarly(q0) THEN "C10 early"
  ELSE IF ~Untouched(q0) THEN "C17 untouched"
  ELSE IF ~OnlyTheForm(q0) THEN "C20 only the form"
  ELSE IF ~Captures(q0) THEN "C18 captures"
  ELSE IF ~Derived(q0) THEN "C19 derived"
  ELSE IF ~Writes(q0) THEN "C19 writes"
  ELSE IF ~Determined(q0) THEN "C22 determined"
  ELSE ""
Check(q0) == LET w == Broken(q0) IN
         IF w = "" THEN (IF Running(m) THEN TRUE ELSE PrintT("@OK " \o ToString(m.pid)))
         ELSE PrintT("@V " \o ToString(m.pid) \o " " \o ToJson(<<w, Len(m.log), Ev, IF w = "meaning" THEN OpMeaning(TheOp) ELSE TRUE>>))
\* every state is checked as it is left (the last one steps to nowhere).  Again for TLC's
\* sake, what is costly to find the level of is under <<>>.
Next == /\ m.pid # 0
        /\ b' = IF Len(m.k) = 1 /\ m.k[1].pc = "OP" /\ m.exc.x = "" THEN m ELSE b
        /\ steps' = steps + 1
        /\ rd' = IF Len(m.k) = 1 /\ m.k[1].pc = "OP" THEN {}
                 ELSE IF Top(m).pc \in {"G1", "G3"} /\ m.exc.x = "" /\ ~IsMark(m.ret)
                 THEN rd \cup {<<Top(m).form, Top(m).nm, Snap(m, m.ret)>>}
                 ELSE rd
        /\ <<Check(0) /\ m' = IF Running(m) THEN Step(m) ELSE [m EXCEPT !.pid = 0]>>_m
=============================================================================
