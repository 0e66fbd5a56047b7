-------------------------------- MODULE Values -------------------------------
(* Go values:  n nil;  b bool;  i integer;  f float;  s string or bytes;      *)
(* l slice or array;  m map;  p pointer (id: identity, 0 for a new one);      *)
(* a interface holding a v of type y;  t struct;  u value with its own        *)
(* (un)marshalling;  x excluded or unexported field.                          *)
(* Expected values also use ? (any float), ~ (the float nearest to a number), * (any value), e (nil or empty).   *)
EXTENDS Types

VNil == [c |-> "n"]
VBool(b) == [c |-> "b", b |-> b]
VInt(neg, d) == [c |-> "i", neg |-> neg, d |-> d]
VStr(s) == [c |-> "s", s |-> s]
VList(l) == [c |-> "l", l |-> l]
VMap(m) == [c |-> "m", m |-> m]
VPtr(v, id) == [c |-> "p", v |-> v, id |-> id]
VIface(y, v) == [c |-> "a", y |-> y, v |-> v]
VStruct(t) == [c |-> "t", t |-> t]
VUser(raw) == [c |-> "u", raw |-> raw]
VEmpty == [c |-> "e"]

RECURSIVE Zero(_, _)
Zero(tab, t) ==
    LET T == tab[t]
    IN IF T.u THEN VUser(<< >>)
       ELSE CASE T.k = "bool" -> VBool(FALSE)
              [] T.k \in {"int", "uint", "uintptr"} -> VInt(FALSE, <<0>>)
              [] T.k = "float" -> FZero(FALSE)
              [] T.k = "string" -> VStr(<< >>)
              [] T.k = "array" -> VList([k \in 1..T.n |-> Zero(tab, T.e)])
              [] T.k = "struct" -> VStruct([k \in 1..Len(T.f) |->
                     IF Excluded(T.f[k]) THEN [c |-> "x", x |-> 0] ELSE Zero(tab, T.f[k].t)])
              [] OTHER -> VNil

(* Is v the zero value of type t: nil and empty differ for slices, arrays and *)
(* structs are zero when all their parts are.  The properties do not say      *)
(* whether -0 is a zero value: nz tells.                                      *)
RECURSIVE IsZeroOf(_, _, _, _)
IsZeroOf(tab, t, v, nz) ==
    CASE v.c = "n" -> TRUE
      [] v.c = "b" -> ~v.b
      [] v.c = "i" -> v.d = <<0>>
      [] v.c = "f" -> v.sp = "" /\ v.d = <<0>> /\ (nz \/ ~v.neg)
      [] v.c = "s" -> tab[t].k # "slice" /\ v.s = << >>
      [] v.c = "l" -> tab[t].k = "array" /\ \A k \in 1..Len(v.l) : IsZeroOf(tab, tab[t].e, v.l[k], nz)
      [] v.c = "t" -> \A k \in 1..Len(v.t) : IsZeroOf(tab, tab[t].f[k].t, v.t[k], nz)
      [] v.c = "x" -> v.x = 0
      [] v.c = "u" -> v.z
      [] OTHER -> FALSE

RECURSIVE Match(_, _)
(* does the observed value o agree with the expected value x *)
Match(x, o) ==
    CASE x.c = "*" -> TRUE
      [] x.c = "?" -> o.c = "f"
      [] x.c = "~" -> o.c = "f" /\ Nearest(x, o)
      [] x.c = "e" -> o.c = "n" \/ (o.c = "l" /\ o.l = << >>) \/ (o.c = "s" /\ o.s = << >>)
      [] x.c # o.c -> FALSE
      [] x.c = "n" -> TRUE
      [] x.c = "b" -> x.b = o.b
      [] x.c = "i" -> x.d = o.d /\ (x.neg = o.neg \/ x.d = <<0>>)
      [] x.c = "f" -> x.sp = o.sp /\ (x.sp = "nan" \/ (x.neg = o.neg /\ x.d = o.d /\ (x.e = o.e \/ x.d = <<0>>)))
      [] x.c = "s" -> x.s = o.s
      [] x.c = "l" -> Len(x.l) = Len(o.l) /\ \A k \in 1..Len(x.l) : Match(x.l[k], o.l[k])
      [] x.c = "m" -> /\ Len(x.m) = Len(o.m)
                      /\ \A k \in 1..Len(x.m) : \E j \in 1..Len(o.m) :
                            Match(x.m[k].k, o.m[j].k) /\ Match(x.m[k].v, o.m[j].v)
      [] x.c = "p" -> x.id = o.id /\ Match(x.v, o.v)
      [] x.c = "a" -> x.y = o.y /\ Match(x.v, o.v)
      [] x.c = "t" -> Len(x.t) = Len(o.t) /\ \A k \in 1..Len(x.t) : Match(x.t[k], o.t[k])
      [] x.c = "u" -> x.raw = o.raw
      [] x.c = "x" -> x.x = o.x
      [] OTHER -> FALSE

RECURSIVE SameAfterRoundTrip(_, _)
(* v was marshalled, o is what came back *)
SameAfterRoundTrip(v, o) ==
    CASE v.c = "x" -> o.c = "x" /\ o.x = 0
      [] v.c = "n" \/ (v.c = "l" /\ v.l = << >>) \/ (v.c = "s" /\ v.s = << >>) ->
            o.c \in {"n", "e"} \/ (o.c = "l" /\ o.l = << >>) \/ (o.c = "s" /\ o.s = << >>)
      [] v.c = "p" /\ (v.v.c = "n" \/ (v.v.c = "u" /\ v.v.raw = <<chN, chSemi>>)) ->
            o.c = "n" \/ (o.c = "p" /\ SameAfterRoundTrip(v.v, o.v))   \* a pointer to nil may be written as nil
      [] v.c = "u" /\ o.c = "p" -> SameAfterRoundTrip(v, o.v)
      [] v.c = "u" /\ o.c = "u" /\ v.raw = <<chN, chSemi>> -> o.raw \in {<< >>, v.raw}   \* N; is the zero value
      [] v.c # o.c ->
            \* []byte-like slices are shown as bytes after decoding
            /\ v.c = "l" /\ o.c = "s" /\ Len(v.l) = Len(o.s)
            /\ \A k \in 1..Len(v.l) : v.l[k].c = "i" /\ ~v.l[k].neg /\ ToNat(v.l[k].d) = o.s[k]
      [] v.c = "l" -> Len(v.l) = Len(o.l) /\ \A k \in 1..Len(v.l) : SameAfterRoundTrip(v.l[k], o.l[k])
      [] v.c = "m" -> /\ Len(v.m) = Len(o.m)
                      /\ \A k \in 1..Len(v.m) : \E j \in 1..Len(o.m) :
                            SameAfterRoundTrip(v.m[k].k, o.m[j].k) /\ SameAfterRoundTrip(v.m[k].v, o.m[j].v)
      [] v.c = "p" -> SameAfterRoundTrip(v.v, o.v)
      [] v.c = "a" -> v.y = o.y /\ SameAfterRoundTrip(v.v, o.v)
      [] v.c = "f" /\ v.sp = "" /\ v.d = <<0>> -> o.sp = "" /\ o.d = <<0>>     \* -0 = 0
      [] v.c = "t" -> Len(v.t) = Len(o.t) /\ \A k \in 1..Len(v.t) : SameAfterRoundTrip(v.t[k], o.t[k])
      [] OTHER -> Match(v, o)
=============================================================================
