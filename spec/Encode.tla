-------------------------------- MODULE Encode -------------------------------
(* Marshal as a transition system that writes one token per step.  The only   *)
(* freedom is the order in which the entries of a map are written.            *)
EXTENDS Values, TLC

CONSTANTS
    Tab(_),         \* type table of a case
    Val(_),         \* the argument: an interface value (c "a" or "n")
    Empty,          \* nothing written yet
    Fits(_, _, _),  \* may token k be written after o in case x
    Emit(_, _)      \* o with token k written

VARIABLES
    c,      \* the case
    pc,     \* begin val next done
    o,      \* output
    stk,    \* containers in progress
    tgt,    \* pc = val: [t, v, s, h] type, value, string option, held by an interface
    calls,  \* MarshalPHP calls
    res     \* run ok err any stuck

evars == <<c, pc, o, stk, tgt, calls, res>>

TT(t) == Tab(c)[t]
Top == stk[Len(stk)]
Pop == SubSeq(stk, 1, Len(stk) - 1)
Push(f) == Append(stk, f)
SetTop(f) == [stk EXCEPT ![Len(stk)] = f]
NoTgt == [t |-> 0, v |-> VNil, s |-> FALSE]
Target(t, v, s) == [t |-> t, v |-> v, s |-> s]

------------------------------------------------------------------------------
(* Verdict: is the value encodable.  "any" where the properties do not say.   *)
RECURSIVE ValV(_, _, _), HeldV(_, _, _), StrV(_, _, _)

(* value of a static type that has an encoder *)
ValV(tab, t, v) ==
    LET T == tab[t]
    IN CASE v.c = "u" -> IF v.er THEN "err" ELSE "ok"
         [] v.c = "a" -> HeldV(tab, v.y, v.v)
         [] v.c = "p" -> IF tab[T.e].k \in {"any", "iface"} THEN ValV(tab, T.e, v.v) ELSE ValV(tab, T.e, v.v)
         [] v.c = "l" -> Worst({"ok"} \cup {ValV(tab, T.e, v.l[k]) : k \in 1..Len(v.l)})
         [] v.c = "m" -> Worst({"ok"} \cup {ValV(tab, T.e, v.m[k].v) : k \in 1..Len(v.m)})
         [] v.c = "t" -> Worst({"ok"} \cup {LET f == T.f[k] IN
                              IF Tag(f).omit /\ IsZeroOf(tab, f.t, v.t[k], TRUE)
                              THEN IF IsZeroOf(tab, f.t, v.t[k], FALSE) THEN "ok" ELSE "any"
                              ELSE IF Tag(f).str THEN StrV(tab, f.t, v.t[k])
                              ELSE ValV(tab, f.t, v.t[k])
                            : k \in {j \in 1..Len(v.t) : ~Excluded(T.f[j])}})
         [] OTHER -> "ok"

(* value of dynamic type y held by an interface *)
HeldV(tab, y, v) ==
    LET Y == tab[y]
        static == EncTypeVerdict(tab, y)
        whole == IF static = "ok" THEN ValV(tab, y, v) ELSE static
        lenient == IF static = "ok" THEN "ok" ELSE "any"    \* nothing inside is needed
    IN CASE v.c = "u" -> IF v.er THEN "err" ELSE "ok"
         [] Y.m -> "ok"
         [] Y.k = "ptr" -> IF v.c = "p" THEN HeldV(tab, Y.e, v.v) ELSE lenient
         [] Y.k \in {"any", "iface"} -> IF v.c = "a" THEN HeldV(tab, v.y, v.v) ELSE "ok"
         [] Y.k = "slice" /\ ~Y.bx /\ tab[Y.e].k \in {"any", "iface"} -> ValV(tab, y, v)
         [] Y.k = "map" ->
              IF tab[Y.key].k \notin KeyKinds THEN IF v.c = "m" /\ v.m # << >> THEN "err" ELSE "any"
              ELSE IF v.c # "m" \/ v.m = << >> THEN lenient
              ELSE IF tab[Y.e].k \in {"any", "iface"} THEN ValV(tab, y, v)
              ELSE whole
         [] OTHER -> whole

(* value of a field with the string option *)
StrV(tab, t, v) ==
    CASE v.c = "n" -> IF tab[t].k \in {"slice", "map"} THEN "any" ELSE "ok"
      [] v.c \in {"b", "i"} -> "ok"
      [] v.c = "s" -> IF tab[t].k = "slice" THEN "any" ELSE "ok"
      [] v.c = "f" -> "ok"
      [] v.c = "p" -> StrV(tab, tab[t].e, v.v)
      [] v.c = "a" -> IF v.y # 0 /\ (v.v.c = "u" \/ tab[v.y].m) THEN "any"
                      ELSE IF v.v.c = "p" THEN StrV(tab, v.y, v.v)
                      ELSE IF tab[v.y].k \in {"bool", "int", "uint", "float", "string", "ptr"} THEN "ok"
                      ELSE IF v.v.c = "a" THEN StrV(tab, v.y, v.v)
                      ELSE "err"
      [] v.c = "u" -> "any"
      [] OTHER -> "err"

Verdict(tab, v) ==
    IF v.c = "n" THEN "ok"
    ELSE LET static == EncTypeVerdict(tab, v.y)
         IN IF static = "ok" THEN ValV(tab, v.y, v.v) ELSE static

------------------------------------------------------------------------------
(* Tokens *)
tokNull == <<chN, chSemi>>
tokBool(b) == <<chb, chColon, IF b THEN ch1 ELSE ch0, chSemi>>
IntDigits(v) == (IF v.neg /\ v.d # <<0>> THEN <<chMinus>> ELSE << >>) \o Asc(v.d)
tokInt(v) == <<chi, chColon>> \o IntDigits(v) \o <<chSemi>>
tokIndex(k) == <<chi, chColon>> \o NatText(k) \o <<chSemi>>
tokFloat(v) == <<chd, chColon>> \o FloatOut(v) \o <<chSemi>>
tokStr(s) == <<chs, chColon>> \o NatText(Len(s)) \o <<chColon, chQuote>> \o s \o <<chQuote, chSemi>>
tokOpen(n) == <<cha, chColon>> \o NatText(n) \o <<chColon, chOpen>>
tokClose == <<chClose>>

txtTrue  == <<116, 114, 117, 101>>
txtFalse == <<102, 97, 108, 115, 101>>

Scalar(v) == CASE v.c = "b" -> tokBool(v.b)
               [] v.c = "i" -> tokInt(v)
               [] v.c = "f" -> tokFloat(v)
               [] v.c = "s" -> tokStr(v.s)

(* texts a scalar with the string option may be written as: special floats    *)
(* have no PHP text, either of Go's and PHP's is accepted                     *)
StringForms(v) ==
    CASE v.c = "b" -> {tokStr(IF v.b THEN txtTrue ELSE txtFalse)}
      [] v.c = "i" -> {tokStr(IntDigits(v))}
      [] v.c = "s" -> {tokStr(v.s)}
      [] v.sp = "nan" -> {tokStr(<<78, 97, 78>>), tokStr(txtNAN)}
      [] v.sp = "inf" -> IF v.neg THEN {tokStr(<<45, 73, 110, 102>>), tokStr(txtMINF)}
                         ELSE {tokStr(<<43, 73, 110, 102>>), tokStr(<<73, 110, 102>>), tokStr(txtINF)}
      [] OTHER -> {tokStr(FloatOut(v))}

------------------------------------------------------------------------------
EncodeInit(cases) ==
    /\ c \in cases
    /\ pc = "begin" /\ o = Empty /\ stk = << >> /\ tgt = NoTgt /\ calls = 0 /\ res = "run"

Begin ==
    /\ pc = "begin"
    /\ LET v == Verdict(Tab(c), Val(c))
       IN IF v # "ok" THEN /\ pc' = "done" /\ res' = v /\ UNCHANGED <<c, o, stk, tgt, calls>>
          ELSE /\ pc' = "val" /\ tgt' = Target(tAny, Val(c), FALSE)
               /\ UNCHANGED <<c, o, stk, calls, res>>

(* a token was written and the value it stands for is complete *)
Wrote(tok) ==
    /\ Fits(c, o, tok) /\ o' = Emit(o, tok)
    /\ pc' = "next" /\ tgt' = NoTgt

WriteUser ==
    /\ pc = "val" /\ tgt.v.c = "u"
    /\ Wrote(tgt.v.raw) /\ calls' = calls + 1
    /\ UNCHANGED <<c, stk, res>>

WriteNull ==
    /\ pc = "val" /\ tgt.v.c = "n"
    /\ Wrote(IF TT(tgt.t).bx THEN tokStr(<< >>) ELSE tokNull)
    /\ UNCHANGED <<c, stk, calls, res>>

WriteScalar ==
    /\ pc = "val" /\ tgt.v.c \in {"b", "i", "f", "s"} /\ ~tgt.s
    /\ Wrote(Scalar(tgt.v))
    /\ UNCHANGED <<c, stk, calls, res>>

WriteAsString ==
    /\ pc = "val" /\ tgt.v.c \in {"b", "i", "f", "s"} /\ tgt.s
    /\ \E tok \in StringForms(tgt.v) : Wrote(tok)
    /\ UNCHANGED <<c, stk, calls, res>>

(* pointers and interfaces leave no trace in the text *)
Follow ==
    /\ pc = "val" /\ tgt.v.c \in {"p", "a"}
    /\ tgt' = IF tgt.v.c = "p" THEN Target(TT(tgt.t).e, tgt.v.v, tgt.s)
              ELSE Target(tgt.v.y, tgt.v.v, tgt.s)
    /\ UNCHANGED <<c, pc, o, stk, calls, res>>

Written(T, v) ==
    SelectSeq(FieldsOf(T), LAMBDA k : ~(Tag(T.f[k]).omit /\ IsZeroOf(Tab(c), T.f[k].t, v.t[k], FALSE)))

Open ==
    /\ pc = "val" /\ tgt.v.c \in {"l", "m", "t"}
    /\ LET T == TT(tgt.t)
           v == tgt.v
           F == CASE v.c = "l" -> [f |-> "list", t |-> tgt.t, v |-> v, at |-> 0, left |-> << >>]
                  [] v.c = "m" -> [f |-> "map", t |-> tgt.t, v |-> v, at |-> 0, left |-> [k \in 1..Len(v.m) |-> k]]
                  [] OTHER -> [f |-> "struct", t |-> tgt.t, v |-> v, at |-> 0, left |-> Written(T, v)]
           n == IF v.c = "l" THEN Len(v.l) ELSE Len(F.left)
       IN /\ Wrote(tokOpen(n))
          /\ stk' = Push(F)
    /\ UNCHANGED <<c, calls, res>>

NextElement ==
    /\ pc = "next" /\ stk # << >> /\ Top.f = "list" /\ Top.at < Len(Top.v.l)
    /\ Fits(c, o, tokIndex(Top.at)) /\ o' = Emit(o, tokIndex(Top.at))
    /\ stk' = SetTop([Top EXCEPT !.at = @ + 1])
    /\ tgt' = Target(TT(Top.t).e, Top.v.l[Top.at + 1], FALSE)
    /\ pc' = "val"
    /\ UNCHANGED <<c, calls, res>>

NextField ==
    /\ pc = "next" /\ stk # << >> /\ Top.f = "struct" /\ Top.left # << >>
    /\ LET k == Head(Top.left)
           f == TT(Top.t).f[k]
           key == tokStr(Tag(f).key)
       IN /\ Fits(c, o, key) /\ o' = Emit(o, key)
          /\ stk' = SetTop([Top EXCEPT !.left = Tail(@)])
          /\ tgt' = Target(f.t, Top.v.t[k], Tag(f).str)
    /\ pc' = "val"
    /\ UNCHANGED <<c, calls, res>>

Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

(* any entry that has not been written yet *)
NextEntry ==
    /\ pc = "next" /\ stk # << >> /\ Top.f = "map" /\ Top.left # << >>
    /\ \E k \in 1..Len(Top.left) :
         LET e == Top.v.m[Top.left[k]]
             key == Scalar(e.k)
         IN /\ Fits(c, o, key) /\ o' = Emit(o, key)
            /\ stk' = SetTop([Top EXCEPT !.left = Without(@, k)])
            /\ tgt' = Target(TT(Top.t).e, e.v, FALSE)
    /\ pc' = "val"
    /\ UNCHANGED <<c, calls, res>>

CloseContainer ==
    /\ pc = "next" /\ stk # << >>
    /\ IF Top.f = "list" THEN Top.at = Len(Top.v.l) ELSE Top.left = << >>
    /\ Fits(c, o, tokClose) /\ o' = Emit(o, tokClose)
    /\ stk' = Pop
    /\ UNCHANGED <<c, pc, tgt, calls, res>>

Finish ==
    /\ pc = "next" /\ stk = << >>
    /\ pc' = "done" /\ res' = "ok"
    /\ UNCHANGED <<c, o, stk, tgt, calls>>

Progress ==
    \/ Begin \/ WriteUser \/ WriteNull \/ WriteScalar \/ WriteAsString \/ Follow \/ Open
    \/ NextElement \/ NextField \/ NextEntry \/ CloseContainer \/ Finish

(* trace checking: the recorded output continues with none of the tokens that *)
(* may be written                                                             *)
Stuck ==
    /\ pc \in {"val", "next"} /\ ~ENABLED Progress
    /\ pc' = "done" /\ res' = "stuck"
    /\ UNCHANGED <<c, o, stk, tgt, calls>>

EncodeNext == Progress \/ Stuck
=============================================================================
