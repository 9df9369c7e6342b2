------------------------------ MODULE Meaning -------------------------------
(* What a mapping comes to, defined a second time and independently of the       *)
(* machine in Pilo.tla: by recursion over the declaration and the location of    *)
(* the source, without control stack, context scopes, heap, modes or exceptions. *)
(* A field at a location means a value (or a marker) and a list of errors; a form *)
(* means its entries and its errors.  Laws.tla has TLC check that the machine     *)
(* comes to the same.                                                             *)
(*                                                                                *)
(* Domain: programs whose hooks neither read nor raise, without counting defaults *)
(* and without templates over dotted names (Pure below).                         *)
EXTENDS Pilo

Mean(v, e) == [v |-> v, e |-> e]
Wrong(F, at) == [k |-> "Invalid", p |-> PathStr(at.s, at.ks), f |-> Says(F)]
Gone(F, at)  == [k |-> "Missing", p |-> PathStr(at.s, at.ks), f |-> Says(F)]
Into(at, key) == [at EXCEPT !.ks = Append(@, key)]

(* ------------------------------- the domain -------------------------------- *)
PureOps == {"id", "const", "add", "true", "false", "lt", "notnull", "NONE", "ERROR", "NOTSET", "key", "invalid", "prim", "dflt", "at"}
PureField(p, f) ==
  LET F == Fld(p, f)
      ok(h) == h = 0 \/ (Prog(p).hooks[h].reads = <<>> /\ Prog(p).hooks[h].op \in PureOps)
  IN /\ \A hk \in DOMAIN F.hooks : ok(F.hooks[hk])
     /\ F.dflt.k # "call"
     /\ F.dflt.k = "hook" => ok(F.dflt.h)
     /\ F.bc.k = "format" => \A i \in 1..Len(F.bc.names) : Len(F.bc.names[i]) = 1
Pure(p) == \A f \in 1..Len(Prog(p).flds) : PureField(p, f)

(* ---------------------------------- hooks ----------------------------------- *)
Comes(p, F, h, hk, v, at) ==
  LET H == Prog(p).hooks[h] IN
  CASE H.op = "invalid" -> Mean(IF hk \in {"validate", "filter", "keyf"} THEN BoolV(FALSE) ELSE ERROR, <<Wrong(F, at)>>)
    [] H.op = "prim" -> LET q == Prim(at.s, at.ks, H.arg.s) IN
                        IF q.ok THEN Mean(q.v, <<>>) ELSE Mean(ERROR, <<Wrong(F, at)>>)
    [] H.op = "id" -> Mean(v, <<>>)
    [] H.op = "const" -> Mean(H.arg, <<>>)
    [] H.op = "add" -> Mean(AddTo(v, 1), <<>>)
    [] H.op = "true" -> Mean(BoolV(TRUE), <<>>)
    [] H.op = "false" -> Mean(BoolV(FALSE), <<>>)
    [] H.op = "lt" -> Mean(BoolV(IsNum(v) => NumLt(v, H.arg)), <<>>)
    [] H.op = "notnull" -> Mean(BoolV(v # Null), <<>>)
    [] H.op = "ERROR" -> Mean(ERROR, <<>>)
    [] H.op = "NOTSET" -> Mean(NOTSET, <<>>)
    [] H.op = "key" -> Mean(IF at.ks = <<>> THEN StrV("") ELSE KeyVal(Last1(at.ks)), <<>>)
    [] OTHER -> Mean(NONE, <<>>)

(* ---------------------------------- fields ---------------------------------- *)
(* w: the world of the mapping - the scopes open around it (for context fields),   *)
(* whether defaults and missing values are off, and the tags in force at levels    *)
(* that have none of their own.  o: the form being mapped - where, of what class,   *)
(* with which entries so far (for templates).                                      *)
RECURSIVE MField(_, _, _, _, _), MForm(_, _, _, _, _, _, _), MItems(_, _, _, _, _, _), MFill(_, _, _, _, _)

Without(p, f, at, w) ==      \* a field that got no value
  LET F == Fld(p, f) IN
  IF w.nodefault THEN Mean(NOTSET, IF w.nomissing THEN <<>> ELSE <<Gone(F, at)>>)
  ELSE CASE F.dflt.k = "optional" -> Mean(NONE, <<>>)
         [] F.dflt.k = "lit" -> Mean(F.dflt.v, <<>>)
         [] F.dflt.k = "list" -> Mean(ListV(<<>>), <<>>)
         [] F.dflt.k = "hook" -> Comes(p, F, F.dflt.h, "default", NONE, at)
         [] OTHER -> Mean(NOTSET, IF w.nomissing THEN <<>> ELSE <<Gone(F, at)>>)
\* from a value on: translate, munge, filter, validate
Refine(p, f, v0, at, w) ==
  LET F  == Fld(p, f)
      v1 == IF v0.t = "form" THEN v0 ELSE Translate(F, v0)
      mu == IF F.cap.k # "none"
            THEN IF v1.t # "str" THEN Mean(v1, <<>>)
                 ELSE LET mt == PatMatch(F.cap, v1.s) IN Mean(IF mt.ok /\ F.cap.g THEN StrV(mt.grp) ELSE NONE, <<>>)
            ELSE IF F.hooks.munge # 0 THEN Comes(p, F, F.hooks.munge, "munge", v1, at) ELSE Mean(v1, <<>>)
      v2 == mu.v
      fi == IF F.hooks.filter # 0 THEN Comes(p, F, F.hooks.filter, "filter", v2, at) ELSE Mean(BoolV(TRUE), <<>>)
      va == IF F.hooks.validate # 0 THEN Comes(p, F, F.hooks.validate, "validate", v2, at) ELSE Mean(BoolV(TRUE), <<>>)
      after(e, r) == Mean(r.v, e \o r.e)
  IN IF v2 = NONE THEN after(mu.e, Without(p, f, at, w))
     ELSE IF IsMark(v2) THEN mu
     ELSE IF PyIn(v2, F.ign) THEN after(mu.e, Without(p, f, at, w))
     ELSE IF ~fi.v.b THEN after(mu.e \o fi.e, Without(p, f, at, w))
     ELSE IF ~Constraint(F, v2) THEN Mean(ERROR, mu.e \o fi.e \o <<Wrong(F, at)>>)
     ELSE IF ~va.v.b THEN Mean(ERROR, mu.e \o fi.e \o (IF va.e = <<>> THEN <<Wrong(F, at)>> ELSE va.e))
     ELSE Mean(v2, mu.e \o fi.e \o va.e)
\* the first class of errors and the entries of a collection
MItems(p, F, at, i, keys, w) ==      \* elements i.. of a collection: <<[key, v] ...>> and errors
  IF i > Len(keys) THEN [l |-> <<>>, e |-> <<>>]
  ELSE LET key == keys[i]
           g   == IF F.kind = "Group" THEN GMatch(F.gs, key) ELSE [f |-> 0, c |-> Null]
           ff  == CASE F.kind = "Tuple" -> F.fs[i] [] F.kind = "List" -> F.fs[1]
                    [] F.kind = "Dict" -> F.fs[2] [] F.kind = "Group" -> g.f
           kf  == IF F.kind = "Dict" /\ F.hooks.keyf # 0 THEN Comes(p, F, F.hooks.keyf, "keyf", KeyVal(key), at)
                  ELSE Mean(BoolV(TRUE), <<>>)
           skip == (F.kind = "Group" /\ g.f = 0) \/ ~kf.v.b \/ key \in w.claimed
           r   == MField(p, ff, Into(at, key), NONE, [w EXCEPT !.claimed = {}])
           kr  == IF F.kind = "Dict" /\ ~IsMark(r.v) THEN MField(p, F.fs[1], at, KeyVal(key), [w EXCEPT !.claimed = {}])
                  ELSE Mean(Null, <<>>)
           rest == MItems(p, F, at, i + 1, keys, w)
       IN IF skip THEN [rest EXCEPT !.e = (IF key \in w.claimed THEN <<>> ELSE kf.e) \o @]
          ELSE [l |-> (IF IsMark(r.v) \/ IsMark(kr.v) THEN <<>> ELSE <<[key |-> key, v |-> r.v, kv |-> kr.v, c |-> g.c]>>) \o rest.l,
                e |-> kf.e \o r.e \o kr.e \o rest.e]
RECURSIVE AsDict(_)
AsDict(l) == IF l = <<>> THEN <<>> ELSE DPut(AsDict(Front1(l)), ValKey(Last1(l).kv), Last1(l).v)
MParse(p, f, at, w) ==        \* what a present, non-null location means to a field
  LET F  == Fld(p, f)
      sq == SeqOp(at.s, at.ks)
      mp == MapOp(at.s, at.ks)
      bad == Mean(ERROR, <<Wrong(F, at)>>)
      lst(r) == [i \in 1..Len(r.l) |-> r.l[i].v]
      form(c, a) == LET r == MForm(p, [c |-> c, pr |-> 0], a, <<>>, {}, F.unm, w) IN
                    IF ~r.ok THEN bad ELSE IF r.e # <<>> THEN Mean(ERROR, r.e)
                    ELSE Mean([t |-> "form", c |-> Cls(p, c).name, d |-> r.d], <<>>)
  IN CASE F.hooks.parse # 0 -> Comes(p, F, F.hooks.parse, "parse", NONE, at)
       [] IsScalar(F.kind) -> LET q == ScalarParse(F, at.s, at.ks) IN IF q.r = "ok" THEN Mean(q.v, <<>>) ELSE bad
       [] F.kind = "Tuple" -> IF ~sq.ok \/ sq.v # Len(F.fs) THEN bad
                              ELSE LET r == MItems(p, F, at, 1, NatKeys(sq.v), w) IN Mean(TupV(lst(r)), r.e)
       [] F.kind = "List" -> IF sq.ok THEN LET r == MItems(p, F, at, 1, NatKeys(sq.v), w) IN Mean(ListV(lst(r)), r.e)
                             ELSE IF ~F.allow THEN bad
                             ELSE LET r == MField(p, F.fs[1], at, NONE, w) IN
                                  Mean(IF IsMark(r.v) THEN r.v ELSE ListV(<<r.v>>), r.e)
       [] F.kind = "Dict" -> IF ~mp.ok THEN bad
                             ELSE LET r == MItems(p, F, at, 1, mp.v, w) IN Mean(DictV(AsDict(r.l)), r.e)
       [] F.kind = "Group" -> IF ~mp.ok THEN bad
                              ELSE LET r == MItems(p, F, at, 1, mp.v, w)
                                   IN IF \A i \in 1..Len(mp.v) : GMatch(F.gs, mp.v[i]).f = 0 THEN Mean(NONE, r.e)
                                      ELSE Mean(ListV([i \in 1..Len(r.l) |-> TupV(<<KeyVal(r.l[i].key), r.l[i].c, r.l[i].v>>)]), r.e)
       [] F.kind = "SubForm" -> form(F.cls, at)
       [] F.kind = "Poly" ->
            LET own == Fld(p, F.tf).owner
                \* the type is read in a document of its own; its errors are not reported
                lo  == Below(at.s, at.ks)
                \* (a sequence gives its items to the fields in order)
                doc == IF lo.a = "at" THEN [s |-> lo.s, ks |-> lo.ks]
                       ELSE [s |-> IF lo.v.t \in {"list", "tup"} THEN [Native(lo.v) EXCEPT !.al = SeqAliases(p, [c |-> own, pr |-> F.tf])]
                                   ELSE Native(lo.v), ks |-> <<>>]
                pr  == MForm(p, [c |-> own, pr |-> F.tf], doc, <<>>, {}, [k |-> "ignore"], w)
                v   == IF ~pr.ok \/ pr.e # <<>> THEN NONE ELSE DGet(pr.d, KS(Fld(p, F.tf).name))
                c   == TypeClass(p, F.tf, v)
            IN IF v = NONE THEN bad ELSE IF v = Null THEN Mean(NONE, <<>>) ELSE IF c = 0 THEN bad ELSE form(c, at)
\* a template: the fields it names, in order, up to the first without a value
MFill(p, f, at, i, w) ==
  LET F == Fld(p, f) IN
  IF i > Len(F.bc.names) THEN Mean(StrV(F.bc.lits[i]), <<>>)
  ELSE LET nm == F.bc.names[i][1]
           o  == w.o
           g  == FieldByName(p, o.cr, nm)
           r  == IF g = 0 THEN Mean(IF HidesName(p, o.cr, nm) THEN Null ELSE NONE, <<>>)
                 ELSE IF DHas(o.d, KS(nm)) THEN Mean(DGet(o.d, KS(nm)), <<>>)
                 ELSE MField(p, g, o.at, NONE, w)
           rest == MFill(p, f, at, i + 1, w)
       IN IF IsMark(r.v) THEN Mean(ERROR, r.e \o <<Wrong(F, at)>>)
          ELSE Mean(IF IsMark(rest.v) THEN rest.v ELSE StrV(F.bc.lits[i] \o PyStr(r.v) \o rest.v.s), r.e \o rest.e)
\* a field of the form at a location (given # NONE: a key, which is not read)
MField(p, f, up, given, w) ==
  LET F  == Fld(p, f)
      us == SelectSeq(<<"u", "w", IF "k" \in DOMAIN F.src THEN F.src.k ELSE "u">>, LAMBDA v : HasVar(w, v))
      at == IF given # NONE THEN up
            ELSE IF F.hooks.resolve # 0
            THEN LET H == Prog(p).hooks[F.hooks.resolve] IN
                 CASE H.op = "dflt" /\ "x" \notin DOMAIN F.src -> Into(up, F.src) [] H.op = "at" -> Into(up, H.arg) [] OTHER -> up
            ELSE IF F.fromctx
            THEN [s |-> Native(DictV([i \in 1..Len(us) |-> <<KS(us[i]), Var(w, us[i])>>])), ks |-> <<F.src>>]
            ELSE IF F.kind = "Group" \/ "x" \in DOMAIN F.src THEN up ELSE Into(up, F.src)
      got == IF given # NONE THEN Mean(given, <<>>)
             ELSE IF F.hooks.compute # 0 THEN Comes(p, F, F.hooks.compute, "compute", NONE, at)
             ELSE IF F.bc.k = "const" THEN Mean(F.bc.v, <<>>)
             ELSE IF F.bc.k = "format" THEN MFill(p, f, at, 1, w)
             ELSE IF ~Exists(at.s, at.ks) THEN Mean(NONE, <<>>)
             ELSE IF IsNull(at.s, at.ks) THEN Mean(Null, <<>>)
             ELSE MParse(p, f, at, w)
      \* a default hook stands for the whole stage, whatever the context says
      no == IF F.dflt.k = "hook" THEN Comes(p, F, F.dflt.h, "default", NONE, at) ELSE Without(p, f, at, w)
  IN IF got.v = NONE THEN Mean(no.v, got.e \o no.e)
     ELSE IF IsMark(got.v) THEN got
     ELSE LET r == Refine(p, f, got.v, at, w) IN Mean(r.v, got.e \o r.e)

(* ---------------------------------- forms ----------------------------------- *)
Selected(p, fs, tags) == IF tags = {} THEN fs ELSE SelectSeq(fs, LAMBDA f : HasTag(p, f, tags))
\* ok: was there a mapping at all; e: errors; d: entries (d0 before)
MForm(p, cr, at, d0, tags, unm, w) ==
  LET tg == IF tags = {} THEN w.tags ELSE tags
      fs == Selected(p, FieldsOf(p, cr), tg)
      RECURSIVE go(_, _, _)
      go(i, d, e) ==
        IF i > Len(fs) THEN [d |-> d, e |-> e]
        ELSE LET r == MField(p, fs[i], at, NONE, [w EXCEPT !.o = [cr |-> cr, at |-> at, d |-> d]]) IN
             go(i + 1, IF IsMark(r.v) THEN d ELSE DPut(d, KS(Fld(p, fs[i]).name), r.v), e \o r.e)
      a  == go(1, d0, <<>>)
      cl == Claimed(p, cr)
      w0 == {cl[i] : i \in 1..Len(cl)}
      c  == IF unm.k = "ignore" THEN Mean(DictV(<<>>), <<>>)
            ELSE MField(p, unm.df, at, NONE, [w EXCEPT !.claimed = w0, !.o = [cr |-> cr, at |-> at, d |-> a.d]])
      RECURSIVE puts(_, _)
      puts(d, l) == IF l = <<>> THEN d ELSE puts(IF l[1][1] \in w0 THEN d ELSE DPut(d, l[1][1], l[1][2]), Tail(l))
  IN IF ~MapOp(at.s, at.ks).ok THEN [ok |-> FALSE, e |-> <<>>, d |-> d0]
     ELSE [ok |-> TRUE, e |-> a.e \o c.e, d |-> puts(a.d, c.v.d)]
World(ctx) ==
  LET m == [ctx |-> ctx] IN
  [ctx |-> ctx, nodefault |-> Var(m, "ignore_default"), nomissing |-> Var(m, "ignore_missing"),
   tags |-> IF HasVar(m, "tags") THEN Var(m, "tags") ELSE {}, claimed |-> {},
   o |-> [cr |-> [c |-> 0, pr |-> 0], at |-> [s |-> Native(NONE), ks |-> <<>>], d |-> <<>>]]
=============================================================================
