-------------------------------- MODULE Decode -------------------------------
(* Unmarshal as a transition system: a cursor over the text, a stack of the   *)
(* values being decoded, and the destination's value threaded through.  One   *)
(* step reads one token.                                                      *)
(*                                                                            *)
(* Where the properties leave a choice (declared counts that disagree with    *)
(* the content, spellings such as leading zeros in lengths) the machine goes  *)
(* on and sets lax: an implementation may reject the text, but if it accepts  *)
(* it, it has to produce this value.                                          *)
EXTENDS Values, TLC

CONSTANTS
    Limit,          \* nesting limit
    BigIndex,       \* sequence indexes from here on are not followed
    Src(_),         \* text of a case
    Tab(_),         \* its type table
    Dst(_),         \* destination type, 0 if it is not a non-nil pointer
    Old(_),         \* content of the destination before the call
    Canon(_)        \* are the case's floats shortest forms

VARIABLES
    c,      \* the case
    pc,     \* begin val next skip ret sret done
    cur,    \* position in the text
    stk,    \* containers, pointers, interfaces and Unmarshalers in progress
    tgt,    \* pc = val: [t, o, w] type, old value, string option
    ret,    \* pc = ret: the value just completed
    log,    \* bytes given to Unmarshalers
    lax,    \* rejecting is allowed
    dep,    \* nesting level
    res     \* run ok err any

dvars == <<c, pc, cur, stk, tgt, ret, log, lax, dep, res>>

In == Src(c)
B(p) == At(Src(c), p)
TT(t) == Tab(c)[t]
Top == stk[Len(stk)]
Pop == SubSeq(stk, 1, Len(stk) - 1)
Push(f) == Append(stk, f)
SetTop(f) == [stk EXCEPT ![Len(stk)] = f]

NoTgt == [t |-> 0, o |-> VNil, w |-> FALSE]
Target(t, o, w) == [t |-> t, o |-> o, w |-> w]

DecodeInit(cases) ==
    /\ c \in cases
    /\ pc = "begin" /\ cur = 1 /\ stk = << >> /\ tgt = NoTgt /\ ret = VNil
    /\ log = << >> /\ lax = FALSE /\ dep = 0 /\ res = "run"

Stop(r) == /\ pc' = "done" /\ res' = r
           /\ stk' = << >> /\ tgt' = NoTgt /\ ret' = VNil
           /\ UNCHANGED <<c, cur, log, lax, dep>>
Fail == Stop("err")
Undetermined == Stop("any")

------------------------------------------------------------------------------
(* Tokens.  Each reader returns [st, ...]: st is "ok", "lax" or "err".        *)

(* `:digits:` from p; n is the number (Huge: more than nine digits)           *)
ReadLength(p) ==
    LET q == DigitsEnd(In, p + 1)
        d == Digits(In, p + 1, q)
    IN IF B(p) # chColon \/ q = p + 1 \/ B(q) # chColon THEN [st |-> "err", n |-> 0, nxt |-> p]
       ELSE [st |-> IF d[1] = 0 /\ Len(d) > 1 THEN "lax" ELSE "ok", n |-> ToNat(d), nxt |-> q + 1]

(* s:n:"...";  from p *)
ReadString(p) ==
    LET l == ReadLength(p + 1)
        b == l.nxt + 1          \* first byte of the content
        q == b + l.n            \* closing quote
    IN IF B(p) # chs \/ l.st = "err" \/ l.n >= Huge \/ B(l.nxt) # chQuote
          \/ B(q) # chQuote \/ B(q + 1) # chSemi
       THEN [st |-> "err", s |-> << >>, nxt |-> p]
       ELSE [st |-> l.st, s |-> SubSeq(In, b, q - 1), nxt |-> q + 2]

(* i:[-]digits;  from p *)
ReadInt(p) ==
    LET neg == B(p + 2) = chMinus
        b == IF neg THEN p + 3 ELSE p + 2
        q == DigitsEnd(In, b)
    IN IF B(p) # chi \/ B(p + 1) # chColon \/ q = b \/ B(q) # chSemi
       THEN [st |-> "err", neg |-> FALSE, d |-> << >>, nxt |-> p]
       ELSE [st |-> "ok", neg |-> neg, d |-> Strip(Digits(In, b, q)), nxt |-> q + 1]

(* the text of d:...;  from p *)
ReadFloat(p) ==
    LET q == FindByte(In, p + 2, chSemi)
    IN IF B(p) # chd \/ B(p + 1) # chColon \/ q = p + 2 \/ q > Len(In)
       THEN [st |-> "err", s |-> << >>, nxt |-> p]
       ELSE [st |-> "ok", s |-> SubSeq(In, p + 2, q - 1), nxt |-> q + 1]

ReadBool(p) ==
    IF B(p) # chb \/ B(p + 1) # chColon \/ B(p + 2) \notin {ch0, ch1} \/ B(p + 3) # chSemi
    THEN [st |-> "err", b |-> FALSE, nxt |-> p]
    ELSE [st |-> "ok", b |-> B(p + 2) = ch1, nxt |-> p + 4]

IsNull(p) == B(p) = chN /\ B(p + 1) = chSemi

(* a:n:{  or  O:l:"class":n:{  from p *)
ReadHeader(p) ==
    LET o == B(p) = chO
        l == ReadLength(p + 1)
        q == l.nxt + 1 + l.n
        a == IF o THEN q ELSE p        \* the byte before `:n:`
        n == ReadLength(a + 1)
    IN IF B(p) \notin {cha, chO} THEN [st |-> "err", n |-> 0, nxt |-> p]
       ELSE IF o /\ (l.st = "err" \/ l.n >= Huge \/ B(l.nxt) # chQuote \/ B(q) # chQuote)
            THEN [st |-> "err", n |-> 0, nxt |-> p]
       ELSE IF n.st = "err" \/ B(n.nxt) # chOpen THEN [st |-> "err", n |-> 0, nxt |-> p]
       ELSE [st |-> IF n.st = "lax" \/ (o /\ l.st = "lax") THEN "lax" ELSE "ok",
             n |-> n.n, nxt |-> n.nxt + 1]

------------------------------------------------------------------------------
(* Scalars *)

IntResult(T, neg, d) ==
    IF ~InRange(T.k = "int", T.w, neg, d) THEN [st |-> "err", v |-> VNil]
    ELSE [st |-> IF neg /\ T.k # "int" THEN "lax" ELSE "ok",
          v |-> VInt(neg /\ d # <<0>>, d)]

Scalar(T, p) ==
    CASE T.k = "bool" -> LET r == ReadBool(p) IN [st |-> r.st, v |-> VBool(r.b), nxt |-> r.nxt]
      [] T.k \in {"int", "uint", "uintptr"} ->
            LET r == ReadInt(p)
                x == IntResult(T, r.neg, r.d)
            IN IF r.st = "err" THEN [st |-> "err", v |-> VNil, nxt |-> p]
               ELSE [st |-> x.st, v |-> x.v, nxt |-> r.nxt]
      [] T.k = "float" ->
            LET r == ReadFloat(p)
                x == FloatText(r.s, T.w, Canon(c))
            IN IF r.st = "err" THEN [st |-> "err", v |-> VNil, nxt |-> p]
               ELSE [st |-> x.st, v |-> x.v, nxt |-> r.nxt]
      [] OTHER -> LET r == ReadString(p) IN [st |-> r.st, v |-> IF T.b8 /\ r.s = << >> THEN VEmpty ELSE VStr(r.s), nxt |-> r.nxt]

txtTrue  == <<116, 114, 117, 101>>
txtFalse == <<102, 97, 108, 115, 101>>
OtherTrue  == {<<49>>, <<116>>, <<84>>, <<84, 82, 85, 69>>, <<84, 114, 117, 101>>}
OtherFalse == {<<48>>, <<102>>, <<70>>, <<70, 65, 76, 83, 69>>, <<70, 97, 108, 115, 101>>}

(* the text s of a field with the string option *)
FromText(T, s) ==
    CASE T.k = "bool" ->
            IF s \in {txtTrue, txtFalse} THEN [st |-> "ok", v |-> VBool(s = txtTrue)]
            ELSE IF s \in OtherTrue \cup OtherFalse THEN [st |-> "lax", v |-> VBool(s \in OtherTrue)]
            ELSE [st |-> "err", v |-> VNil]
      [] T.k \in {"int", "uint"} ->
            LET neg == At(s, 1) = chMinus
                plus == At(s, 1) = chPlus
                b == IF neg \/ plus THEN 2 ELSE 1
                q == DigitsEnd(s, b)
                x == IntResult(T, neg, Strip(Digits(s, b, q)))
            IN IF q = b \/ q # Len(s) + 1 THEN [st |-> "err", v |-> VNil]
               ELSE [st |-> IF x.st = "ok" /\ plus THEN "lax" ELSE x.st, v |-> x.v]
      [] T.k = "float" ->
            LET x == FloatText(s, T.w, Canon(c))
            IN [st |-> IF s = << >> THEN "err" ELSE x.st, v |-> x.v]
      [] OTHER -> [st |-> "ok", v |-> VStr(s)]

WrappedScalar(T, p) ==
    LET r == ReadString(p)
        x == FromText(T, r.s)
    IN IF r.st = "err" THEN [st |-> "err", v |-> VNil, nxt |-> p]
       ELSE [st |-> IF x.st = "ok" THEN r.st ELSE x.st, v |-> x.v, nxt |-> r.nxt]

(* N; *)
NullOf(T, o) == IF T.k \in {"ptr", "slice", "map", "any", "iface"} THEN VNil ELSE o

------------------------------------------------------------------------------
Begin ==
    /\ pc = "begin"
    /\ LET v == IF Dst(c) = 0 THEN "err" ELSE DecTypeVerdict(Tab(c), Dst(c))
       IN IF In = << >> \/ v = "err" THEN Fail
          ELSE IF v = "any" THEN Undetermined
          ELSE /\ pc' = "val" /\ tgt' = Target(Dst(c), Old(c), FALSE)
               /\ UNCHANGED <<c, cur, stk, ret, log, lax, dep, res>>

Deliver(v, nxt, l) ==
    /\ pc' = "ret" /\ ret' = v /\ cur' = nxt /\ lax' = (lax \/ l) /\ tgt' = NoTgt
    /\ UNCHANGED <<c, stk, log, dep, res>>

HeldUnmarshaler(T, o) == T.k = "iface" /\ o.c = "a" /\ TT(o.y).uv

ValUnmarshaler ==
    /\ pc = "val" /\ (TT(tgt.t).u \/ HeldUnmarshaler(TT(tgt.t), tgt.o))
    /\ stk' = Push([f |-> "um", t |-> tgt.t, st |-> cur, held |-> ~TT(tgt.t).u, o |-> tgt.o])
    /\ pc' = "skip" /\ tgt' = NoTgt
    /\ UNCHANGED <<c, cur, ret, log, lax, dep, res>>

Plain == pc = "val" /\ ~TT(tgt.t).u /\ ~HeldUnmarshaler(TT(tgt.t), tgt.o)

ValNull ==
    /\ Plain /\ B(cur) = chN
    /\ IF TT(tgt.t).k = "bad" \/ ~IsNull(cur) THEN Fail
       ELSE Deliver(NullOf(TT(tgt.t), tgt.o), cur + 2, FALSE)

ValBad == /\ Plain /\ B(cur) # chN
          /\ TT(tgt.t).k \in {"bad", "iface"}
          /\ Fail

ValPtr ==
    /\ Plain /\ B(cur) # chN /\ TT(tgt.t).k = "ptr"
    /\ LET T == TT(tgt.t)
           has == tgt.o.c = "p"
       IN /\ stk' = Push([f |-> "ptr", id |-> IF has THEN tgt.o.id ELSE 0])
          /\ tgt' = Target(T.e, IF has THEN tgt.o.v ELSE Zero(Tab(c), T.e), tgt.w)
    /\ UNCHANGED <<c, pc, cur, ret, log, lax, dep, res>>

DynType(b) == CASE b = chb -> tBool [] b = chi -> tInt64 [] b = chd -> tFloat64 [] b = chs -> tString
                [] b = cha -> tMapAny [] b = chO -> tMapStr [] OTHER -> 0

ValAny ==
    /\ Plain /\ B(cur) # chN /\ TT(tgt.t).k = "any"
    /\ LET y == DynType(B(cur))
       IN IF y = 0 THEN Fail
          ELSE /\ stk' = Push([f |-> "wrap", y |-> y])
               /\ tgt' = Target(y, Zero(Tab(c), y), FALSE)
               /\ UNCHANGED <<c, pc, cur, ret, log, lax, dep, res>>

IsScalarHere(T) == T.k \in ScalarKinds \/ (T.b8 /\ B(cur) # cha)

ValScalar ==
    /\ Plain /\ B(cur) # chN /\ IsScalarHere(TT(tgt.t))
    /\ LET r == IF tgt.w THEN WrappedScalar(TT(tgt.t), cur) ELSE Scalar(TT(tgt.t), cur)
       IN IF r.st = "err" THEN Fail ELSE Deliver(r.v, r.nxt, r.st = "lax")

Frame(T, o) ==
    CASE T.k = "struct" -> [f |-> "struct", t |-> tgt.t, vals |-> o.t, at |-> 0, n |-> 0, decl |-> 0]
      [] T.k = "slice" -> [f |-> "seq", t |-> tgt.t, vals |-> << >>, at |-> 0, n |-> 0, decl |-> 0]
      [] T.k = "array" -> [f |-> "seq", t |-> tgt.t, vals |-> Zero(Tab(c), tgt.t).l, at |-> 0, n |-> 0, decl |-> 0]
      [] OTHER -> [f |-> "map", t |-> tgt.t, vals |-> IF o.c = "m" THEN o.m ELSE << >>, key |-> VNil, n |-> 0, decl |-> 0]

Opens(T) == IF T.k \in {"struct", "map"} THEN {cha, chO} ELSE {cha}

ValOpen ==
    /\ Plain /\ B(cur) # chN /\ TT(tgt.t).k \in Container /\ ~IsScalarHere(TT(tgt.t))
    /\ LET T == TT(tgt.t)
           h == ReadHeader(cur)
       IN IF B(cur) \notin Opens(T) \/ dep + 1 > Limit \/ h.st = "err" THEN Fail
          ELSE /\ stk' = Push([Frame(T, tgt.o) EXCEPT !.decl = h.n])
               /\ cur' = h.nxt /\ dep' = dep + 1 /\ pc' = "next" /\ tgt' = NoTgt
               /\ lax' = (lax \/ h.st = "lax")
               /\ UNCHANGED <<c, ret, log, res>>

------------------------------------------------------------------------------
(* Between the entries of the container on top                                *)

Closed(F) ==
    LET T == TT(F.t)
        done == CASE F.f = "struct" -> VStruct(F.vals)
                  [] F.f = "map" -> VMap(F.vals)
                  [] T.k = "slice" /\ F.vals = << >> -> VEmpty
                  [] T.k = "slice" /\ T.b8 -> VStr([k \in 1..Len(F.vals) |-> ToNat(F.vals[k].d)])
                  [] OTHER -> VList(F.vals)
    IN /\ stk' = Pop /\ ret' = done /\ cur' = cur + 1 /\ pc' = "ret" /\ dep' = dep - 1
       /\ lax' = (lax \/ F.n # F.decl)
       /\ UNCHANGED <<c, tgt, log, res>>

CloseContainer ==
    /\ pc = "next" /\ B(cur) = chClose /\ Top.f # "skip"
    /\ Closed(Top)

CloseSkipped ==
    /\ pc = "next" /\ B(cur) = chClose /\ Top.f = "skip"
    /\ IF Top.n # Top.decl THEN Fail
       ELSE /\ stk' = Pop /\ cur' = cur + 1 /\ pc' = "sret" /\ dep' = dep - 1
            /\ UNCHANGED <<c, tgt, ret, log, lax, res>>

EntryOf(f) == pc = "next" /\ B(cur) # chClose /\ Top.f = f

FieldFor(T, key) ==
    LET fs == FieldsOf(T)
        hit == {k \in 1..Len(fs) : Tag(T.f[fs[k]]).key = key}
    IN IF hit = {} THEN 0 ELSE fs[CHOOSE k \in hit : TRUE]

SkipNext(nxt, l) ==
    /\ pc' = "skip" /\ cur' = nxt /\ lax' = (lax \/ l)
    /\ UNCHANGED <<c, tgt, ret, log, dep, res>>

StructEntry ==
    /\ EntryOf("struct")
    /\ LET r == ReadString(cur)
           T == TT(Top.t)
           k == FieldFor(T, r.s)
       IN IF r.st = "err" THEN Fail
          ELSE IF k = 0
               THEN /\ stk' = SetTop([Top EXCEPT !.n = @ + 1])
                    /\ SkipNext(r.nxt, r.st = "lax")
               ELSE /\ stk' = SetTop([Top EXCEPT !.n = @ + 1, !.at = k])
                    /\ tgt' = Target(T.f[k].t, Top.vals[k],
                                     Tag(T.f[k]).str /\ (Wrapped(Tab(c), T.f[k].t) \/
                                        (TT(T.f[k].t).k = "ptr" /\ Wrapped(Tab(c), TT(T.f[k].t).e))))
                    /\ pc' = "val" /\ cur' = r.nxt /\ lax' = (lax \/ r.st = "lax")
                    /\ UNCHANGED <<c, ret, log, dep, res>>

SeqEntry ==
    /\ EntryOf("seq")
    /\ LET r == ReadInt(cur)
           T == TT(Top.t)
           i == ToNat(r.d)
           len == Len(Top.vals)
           zero == Zero(Tab(c), T.e)
           l == r.neg           \* -0
       IN IF r.st = "err" \/ (r.neg /\ r.d # <<0>>) \/ ~InRange(TRUE, 64, FALSE, r.d) THEN Fail
          ELSE IF T.k = "array" /\ (i = Huge \/ i >= T.n)
               THEN /\ stk' = SetTop([Top EXCEPT !.n = @ + 1])
                    /\ SkipNext(r.nxt, l)
          ELSE IF i >= BigIndex THEN Undetermined
          ELSE LET vals == IF i < len THEN Top.vals
                           ELSE [k \in 1..(i + 1) |-> IF k <= len THEN Top.vals[k] ELSE zero]
               IN /\ stk' = SetTop([Top EXCEPT !.n = @ + 1, !.at = i + 1, !.vals = vals])
                  /\ tgt' = Target(T.e, vals[i + 1], FALSE)
                  /\ pc' = "val" /\ cur' = r.nxt /\ lax' = (lax \/ l)
                  /\ UNCHANGED <<c, ret, log, dep, res>>

MapKey(K, p) ==
    CASE K.k = "string" -> LET r == ReadString(p) IN [st |-> r.st, v |-> VStr(r.s), nxt |-> r.nxt]
      [] K.k \in {"int", "uint"} -> Scalar(K, p)
      [] K.k = "any" ->
            IF B(p) = chs THEN LET r == ReadString(p) IN [st |-> r.st, v |-> VIface(tString, VStr(r.s)), nxt |-> r.nxt]
            ELSE LET r == Scalar(TT(tInt64), p) IN [st |-> r.st, v |-> VIface(tInt64, r.v), nxt |-> r.nxt]
      [] OTHER -> [st |-> "err", v |-> VNil, nxt |-> p]

(* An Unmarshaler as key type: it may decline a key, or the map a value that  *)
(* cannot be compared.                                                        *)
UserKey ==
    /\ EntryOf("map") /\ TT(TT(Top.t).key).u
    /\ LET T == TT(Top.t)
           r == IF B(cur) = chs THEN ReadString(cur) ELSE ReadInt(cur)
           raw == SubSeq(In, cur, r.nxt - 1)
       IN IF r.st = "err" THEN Fail
          ELSE IF TT(T.key).uf
          THEN /\ log' = Append(log, raw) /\ pc' = "done" /\ res' = "err" /\ stk' = << >>
               /\ UNCHANGED <<c, cur, tgt, ret, lax, dep>>
          ELSE /\ log' = Append(log, raw) /\ lax' = TRUE
               /\ stk' = SetTop([Top EXCEPT !.n = @ + 1, !.key = VUser(raw)])
               /\ tgt' = Target(T.e, Zero(Tab(c), T.e), FALSE)
               /\ pc' = "val" /\ cur' = r.nxt
               /\ UNCHANGED <<c, ret, dep, res>>

MapEntry ==
    /\ EntryOf("map") /\ ~TT(TT(Top.t).key).u
    /\ LET T == TT(Top.t)
           r == MapKey(TT(T.key), cur)
       IN IF r.st = "err" THEN Fail
          ELSE /\ stk' = SetTop([Top EXCEPT !.n = @ + 1, !.key = r.v])
               /\ tgt' = Target(T.e, Zero(Tab(c), T.e), FALSE)
               /\ pc' = "val" /\ cur' = r.nxt /\ lax' = (lax \/ r.st = "lax")
               /\ UNCHANGED <<c, ret, log, dep, res>>

(* any integer or string is a key of a skipped container *)
SkipEntry ==
    /\ EntryOf("skip")
    /\ LET r == IF B(cur) = chs THEN ReadString(cur) ELSE ReadInt(cur)
       IN IF r.st = "err" THEN Fail
          ELSE /\ stk' = SetTop([Top EXCEPT !.n = @ + 1])
               /\ SkipNext(r.nxt, r.st = "lax")

------------------------------------------------------------------------------
(* Skipping one value: the same grammar, nothing is stored, counts are exact  *)
Skipped(nxt, l) ==
    /\ pc' = "sret" /\ cur' = nxt /\ lax' = (lax \/ l)
    /\ UNCHANGED <<c, stk, tgt, ret, log, dep, res>>

SkipScalar ==
    /\ pc = "skip" /\ B(cur) \notin {cha, chO}
    /\ CASE B(cur) = chN -> IF IsNull(cur) THEN Skipped(cur + 2, FALSE) ELSE Fail
         [] B(cur) = chb -> LET r == ReadBool(cur) IN IF r.st = "err" THEN Fail ELSE Skipped(r.nxt, FALSE)
         [] B(cur) = chi -> LET r == ReadInt(cur) IN IF r.st = "err" THEN Fail ELSE Skipped(r.nxt, FALSE)
         [] B(cur) = chs -> LET r == ReadString(cur) IN IF r.st = "err" THEN Fail ELSE Skipped(r.nxt, r.st = "lax")
         [] B(cur) = chd -> LET r == ReadFloat(cur)
                                x == SkipFloatText(r.s)
                            IN IF r.st = "err" \/ x = "err" THEN Fail ELSE Skipped(r.nxt, x = "lax")
         [] OTHER -> Fail

SkipOpen ==
    /\ pc = "skip" /\ B(cur) \in {cha, chO}
    /\ LET h == ReadHeader(cur)
       IN IF h.st = "err" \/ dep + 1 > Limit THEN Fail
          ELSE /\ stk' = Push([f |-> "skip", n |-> 0, decl |-> h.n])
               /\ dep' = dep + 1 /\ cur' = h.nxt /\ pc' = "next" /\ lax' = (lax \/ h.st = "lax")
               /\ UNCHANGED <<c, tgt, ret, log, res>>

SkipReturn ==
    /\ pc = "sret" /\ Top.f # "um"
    /\ pc' = "next"
    /\ UNCHANGED <<c, cur, stk, tgt, ret, log, lax, dep, res>>

CallUnmarshaler ==
    /\ pc = "sret" /\ Top.f = "um"
    /\ LET raw == SubSeq(In, Top.st, cur - 1)
           T == TT(Top.t)
           fails == IF Top.held THEN TT(TT(Top.o.y).e).uf ELSE T.uf
       IN IF raw = <<chN, chSemi>>
          THEN /\ stk' = Pop /\ pc' = "ret" /\ ret' = Zero(Tab(c), Top.t)
               /\ UNCHANGED <<c, cur, tgt, log, lax, dep, res>>
          ELSE IF fails
          THEN /\ log' = Append(log, raw) /\ pc' = "done" /\ res' = "err" /\ stk' = << >>
               /\ UNCHANGED <<c, cur, tgt, ret, lax, dep>>
          ELSE /\ log' = Append(log, raw) /\ stk' = Pop /\ pc' = "ret"
               /\ ret' = IF Top.held THEN VIface(Top.o.y, VPtr(VUser(raw), Top.o.v.id)) ELSE VUser(raw)
               /\ UNCHANGED <<c, cur, tgt, lax, dep, res>>

------------------------------------------------------------------------------
(* A completed value goes into the frame below                                *)
SameKey(a, b) == IF a.c = "u" /\ b.c = "u" THEN a.raw = b.raw ELSE a = b
SetEntry(m, k, v) ==
    LET hit == {j \in 1..Len(m) : SameKey(m[j].k, k)}
    IN IF hit = {} THEN Append(m, [k |-> k, v |-> v])
       ELSE [m EXCEPT ![CHOOSE j \in hit : TRUE] = [k |-> k, v |-> v]]

Store ==
    /\ pc = "ret" /\ stk # << >> /\ Top.f \in {"struct", "seq", "map"}
    /\ stk' = SetTop(IF Top.f = "map" THEN [Top EXCEPT !.vals = SetEntry(@, Top.key, ret)]
                     ELSE [Top EXCEPT !.vals[Top.at] = ret])
    /\ pc' = "next" /\ ret' = VNil
    /\ UNCHANGED <<c, cur, tgt, log, lax, dep, res>>

Wrap ==
    /\ pc = "ret" /\ stk # << >> /\ Top.f \in {"ptr", "wrap"}
    /\ ret' = IF Top.f = "ptr" THEN VPtr(ret, Top.id) ELSE VIface(Top.y, ret)
    /\ stk' = Pop
    /\ UNCHANGED <<c, pc, cur, tgt, log, lax, dep, res>>

Finish ==
    /\ pc = "ret" /\ stk = << >>
    /\ IF cur = Len(In) + 1
       THEN /\ pc' = "done" /\ res' = "ok"
            /\ UNCHANGED <<c, cur, stk, tgt, ret, log, lax, dep>>
       ELSE Fail

DecodeNext ==
    \/ Begin
    \/ ValUnmarshaler \/ ValNull \/ ValBad \/ ValPtr \/ ValAny \/ ValScalar \/ ValOpen
    \/ CloseContainer \/ CloseSkipped \/ StructEntry \/ SeqEntry \/ UserKey \/ MapEntry \/ SkipEntry
    \/ SkipScalar \/ SkipOpen \/ SkipReturn \/ CallUnmarshaler
    \/ Store \/ Wrap \/ Finish

------------------------------------------------------------------------------
(* What holds in every state *)
CursorInText == cur >= 1 /\ (res # "err" => cur <= Len(In) + 1)
DepthIsNesting ==
    pc # "done" => dep = Cardinality({k \in 1..Len(stk) : stk[k].f \in {"struct", "seq", "map", "skip"}})
DepthBounded == dep <= Limit
=============================================================================
