------------------------------- MODULE Writer --------------------------------
(* The encoding machine on every value, up to a nesting, of the types of a    *)
(* group (IOEnv.GROUP, written by the harness), and the decoding machine on   *)
(* what it wrote.  Every value is printed,                                    *)
(*   V <type> <value>                                                         *)
(* and given to Marshal, whose call is then judged by EncTrace.               *)
EXTENDS Encode, Wire, Json, IOUtils

CONSTANT Deep       \* more nesting

VARIABLES dc, dpc, dcur, dstk, dtgt, dret, dlog, dlax, ddep, dres

Group == JsonDeserialize(IOEnv.GROUP)
Nesting == IF Deep THEN Group.deep ELSE Group.quick

(* a case is [d, v] *)
TabX(k) == Group.dests[k.d].types
ValX(k) == VIface(Group.dests[k.d].t, k.v)
EmptyX == << >>
FitsX(k, out, tok) == TRUE
EmitX(out, tok) == out \o tok

DSrc(k)   == k.text
DTab(k)   == Group.dests[k.d].types
DDst(k)   == Group.dests[k.d].t
DOld(k)   == k.old
DCanon(k) == TRUE
D == INSTANCE Decode WITH
        Limit <- 10000, BigIndex <- 1000, Src <- DSrc, Tab <- DTab, Dst <- DDst, Old <- DOld, Canon <- DCanon,
        c <- dc, pc <- dpc, cur <- dcur, stk <- dstk, tgt <- dtgt, ret <- dret, log <- dlog, lax <- dlax, dep <- ddep, res <- dres

------------------------------------------------------------------------------
(* Values.  Scalars and Marshalers come from the pools of the group; pointers,*)
(* slices, maps and interfaces use up one level.                              *)
Pool(d, t) == LET p == Group.dests[d].pool[t] IN {p[k] : k \in 1..Len(p)}
Dyn(d, t) == LET y == Group.dests[d].dyn[t] IN {y[k] : k \in 1..Len(y)}

(* pairs, of equals only when there are many *)
Pairs(S) == IF Cardinality(S) <= 5 THEN S \X S ELSE {<<x, x>> : x \in S}

RECURSIVE Product(_)
Product(sets) ==
    IF sets = << >> THEN {<< >>}
    ELSE {<<x>> \o s : x \in Head(sets), s \in Product(Tail(sets))}

(* with many fields a struct takes turns: one field of any value, the others  *)
(* all of their first or all of their last values                             *)
RECURSIVE Size(_)
Size(sets) == IF sets = << >> THEN 1
              ELSE LET n == Size(Tail(sets)) IN IF n > 400 THEN n ELSE Cardinality(Head(sets)) * n
FirstOf(S) == CHOOSE x \in S : TRUE
Turns(sets) ==
    LET zero == [k \in 1..Len(sets) |-> FirstOf(sets[k])]
        other == [k \in 1..Len(sets) |-> IF Cardinality(sets[k]) = 1 THEN FirstOf(sets[k]) ELSE FirstOf(sets[k] \ {FirstOf(sets[k])})]
        third == [k \in 1..Len(sets) |-> IF Cardinality(sets[k]) <= 2 THEN other[k] ELSE FirstOf(sets[k] \ {zero[k], other[k]})]
    IN {zero, other, third}
       \cup UNION {{[b EXCEPT ![k] = x] : x \in sets[k], b \in {zero, other, third}} : k \in 1..Len(sets)}
       \cup {[k \in 1..Len(sets) |-> IF k \in K THEN other[k] ELSE zero[k]] : K \in SUBSET (1..Len(sets))}
Fields(sets) == IF Size(sets) <= 400 THEN Product(sets) ELSE Turns(sets)

RECURSIVE Vals(_, _, _)
Vals(d, t, n) ==
    LET T == Group.dests[d].types[t]
    IN IF Pool(d, t) # {} THEN Pool(d, t)
       ELSE CASE T.k = "ptr" -> {VNil} \cup (IF n = 0 THEN {} ELSE {VPtr(v, 0) : v \in Vals(d, T.e, n - 1)})
              [] T.k \in {"any", "iface"} ->
                   {VNil} \cup (IF n = 0 THEN {} ELSE UNION {{VIface(y, v) : v \in Vals(d, y, n - 1)} : y \in Dyn(d, t)})
              [] T.k = "slice" ->
                   {VNil, VList(<< >>)} \cup
                   (IF n = 0 THEN {} ELSE LET S == Vals(d, T.e, n - 1)
                                          IN {VList(<<x>>) : x \in S} \cup {VList(p) : p \in Pairs(S)})
              [] T.k = "array" ->
                   IF T.n = 0 THEN {VList(<< >>)}
                   ELSE LET S == Vals(d, T.e, n)
                        IN IF T.n = 1 THEN {VList(<<x>>) : x \in S} ELSE {VList(p) : p \in Pairs(S)}
              [] T.k = "map" ->
                   {VNil, VMap(<< >>)} \cup
                   (IF n = 0 THEN {}
                    ELSE LET S == Vals(d, T.e, n - 1)
                             K == Pool(d, T.key)
                             E(k, v) == [k |-> k, v |-> v]
                         IN {VMap(<<E(k, v)>>) : k \in K, v \in S}
                            \cup {VMap(<<E(q[1], p[1]), E(q[2], p[2])>>) : p \in Pairs(S), q \in {x \in K \X K : x[1].pv < x[2].pv}})
              [] T.k = "struct" ->
                   {VStruct(s) : s \in Fields([k \in 1..Len(T.f) |->
                        IF Excluded(T.f[k]) THEN {[c |-> "x", x |-> 0]} ELSE Vals(d, T.f[k].t, n)])}
              [] OTHER -> {VNil}

------------------------------------------------------------------------------
Init == /\ EncodeInit(UNION {{[d |-> d, v |-> v] : v \in Vals(d, Group.dests[d].t, Nesting)} : d \in 1..Len(Group.dests)})
        /\ dc = [d |-> 0, text |-> << >>, old |-> VNil]
        /\ dpc = "idle" /\ dcur = 1 /\ dstk = << >> /\ dtgt = D!NoTgt /\ dret = VNil
        /\ dlog = << >> /\ dlax = FALSE /\ ddep = 0 /\ dres = "run"

vars == <<evars, dc, dpc, dcur, dstk, dtgt, dret, dlog, dlax, ddep, dres>>
ddvars == <<dpc, dcur, dstk, dtgt, dret, dlog, dlax, ddep, dres>>

Write == EncodeNext /\ UNCHANGED <<dc, ddvars>>
Turn ==
    /\ Group.rt /\ pc = "done" /\ res = "ok" /\ dpc = "idle"
    /\ dc' = [d |-> c.d, text |-> o, old |-> Zero(TabX(c), Group.dests[c.d].t)]
    /\ dpc' = "begin"
    /\ UNCHANGED <<evars, dcur, dstk, dtgt, dret, dlog, dlax, ddep, dres>>
Read == dpc # "idle" /\ D!DecodeNext /\ UNCHANGED evars

Next == Write \/ Turn \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
RECURSIVE UserTextOK(_)
UserTextOK(v) ==
    CASE v.c = "u" -> WellFormed(v.raw)
      [] v.c \in {"p", "a"} -> UserTextOK(v.v)
      [] v.c = "l" -> \A k \in 1..Len(v.l) : UserTextOK(v.l[k])
      [] v.c = "m" -> \A k \in 1..Len(v.m) : UserTextOK(v.m[k].v)
      [] v.c = "t" -> \A k \in 1..Len(v.t) : UserTextOK(v.t[k])
      [] OTHER -> TRUE

(* always something to do until done *)
NeverStuck == res # "stuck"
(* what is written is one PHP value *)
Grammatical == (pc = "done" /\ res = "ok" /\ UserTextOK(c.v)) => WellFormed(o)
NothingOnError == (pc = "done" /\ res = "err") => o = << >>
(* and reads back as the value written *)
RoundTrip == dpc = "done" => /\ dres = "ok" /\ ~dlax
                             /\ SameAfterRoundTrip(c.v, dret)

Printed == (pc = "done" /\ res # "any" /\ dpc = "idle") =>
              PrintT("V " \o ToString(c.d) \o " " \o res \o " " \o ToJson(c.v))
=============================================================================
