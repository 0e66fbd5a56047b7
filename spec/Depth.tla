--------------------------------- MODULE Depth -------------------------------
(* The nesting limit.  A text is described by runs of containers: Open(m, n)  *)
(* descends n times by move m, Close leaves the last run, Sib(n) adds n empty *)
(* containers as entries of the current one.  Decode counts one level per     *)
(* container whatever decodes it; this machine keeps just that counter, so    *)
(* that it can run at the real limit.                                         *)
(*                                                                            *)
(* Contexts (what the container being filled is decoded into):                *)
(*   N    struct node {L []node; M map[string]node; A [1]*node; P *node;      *)
(*        I any; U Unmarshaler; W *Unmarshaler; B []any; E []Unmarshaler;      *)
(*        G map[string]Unmarshaler; K [1]Unmarshaler; Z map[any]any; D []byte; *)
(*        H an interface that holds an Unmarshaler in the outermost node}      *)
(*   S    type S []S      M   type M map[string]M      T  type T [1]*T        *)
(*   any  an interface    skip  nothing: skipped      um   an Unmarshaler     *)
(*   end  nothing fits in                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Limit, MaxOps, Targets, SibCounts, Roots

VARIABLES ctx,    \* context of each run, innermost last
          lev,    \* levels of each run
          dep, max, ops
vars == <<ctx, lev, dep, max, ops>>

(* moves: [from, to, levels, repeats (n times in a row)] *)
Moves ==
    ("L" :> [f |-> "N", t |-> "N", l |-> 2, r |-> TRUE]) @@
    ("M" :> [f |-> "N", t |-> "N", l |-> 2, r |-> TRUE]) @@
    ("F" :> [f |-> "N", t |-> "N", l |-> 2, r |-> TRUE]) @@       \* M as an object
    ("A" :> [f |-> "N", t |-> "N", l |-> 2, r |-> TRUE]) @@
    ("P" :> [f |-> "N", t |-> "N", l |-> 1, r |-> TRUE]) @@
    ("O" :> [f |-> "N", t |-> "N", l |-> 1, r |-> TRUE]) @@       \* P as an object
    ("I" :> [f |-> "N", t |-> "any", l |-> 1, r |-> FALSE]) @@
    ("J" :> [f |-> "N", t |-> "any", l |-> 1, r |-> FALSE]) @@    \* I as an object
    ("B" :> [f |-> "N", t |-> "any", l |-> 2, r |-> FALSE]) @@
    ("Q" :> [f |-> "N", t |-> "skip", l |-> 1, r |-> FALSE]) @@   \* no such field
    ("R" :> [f |-> "N", t |-> "skip", l |-> 1, r |-> FALSE]) @@
    ("X" :> [f |-> "N", t |-> "skip", l |-> 2, r |-> FALSE]) @@   \* A beyond its length
    ("U" :> [f |-> "N", t |-> "um", l |-> 1, r |-> FALSE]) @@
    ("V" :> [f |-> "N", t |-> "um", l |-> 1, r |-> FALSE]) @@     \* U as an object
    ("W" :> [f |-> "N", t |-> "um", l |-> 1, r |-> FALSE]) @@
    ("E" :> [f |-> "N", t |-> "um", l |-> 2, r |-> FALSE]) @@
    ("G" :> [f |-> "N", t |-> "um", l |-> 2, r |-> FALSE]) @@
    ("K" :> [f |-> "N", t |-> "um", l |-> 2, r |-> FALSE]) @@
    ("H" :> [f |-> "N", t |-> "um", l |-> 1, r |-> FALSE]) @@
    ("Z" :> [f |-> "N", t |-> "any", l |-> 1, r |-> FALSE]) @@
    ("D" :> [f |-> "N", t |-> "end", l |-> 1, r |-> FALSE]) @@
    ("a" :> [f |-> "any", t |-> "any", l |-> 1, r |-> TRUE]) @@
    ("o" :> [f |-> "any", t |-> "any", l |-> 1, r |-> TRUE]) @@
    ("b" :> [f |-> "skip", t |-> "skip", l |-> 1, r |-> TRUE]) @@
    ("p" :> [f |-> "skip", t |-> "skip", l |-> 1, r |-> TRUE]) @@
    ("u" :> [f |-> "um", t |-> "um", l |-> 1, r |-> TRUE]) @@
    ("v" :> [f |-> "um", t |-> "um", l |-> 1, r |-> TRUE]) @@
    ("s" :> [f |-> "S", t |-> "S", l |-> 1, r |-> TRUE]) @@
    ("m" :> [f |-> "M", t |-> "M", l |-> 1, r |-> TRUE]) @@
    ("n" :> [f |-> "M", t |-> "M", l |-> 1, r |-> TRUE]) @@
    ("t" :> [f |-> "T", t |-> "T", l |-> 1, r |-> TRUE])

Max(a, b) == IF a > b THEN a ELSE b
Top == ctx[Len(ctx)]

Init == \E r \in Roots : ctx = <<r>> /\ lev = <<1>> /\ dep = 1 /\ max = 1 /\ ops = "D " \o r


VARIABLE nops
allvars == <<ctx, lev, dep, max, ops, nops>>

Open(m, target) ==
    LET M == Moves[m]
        n == IF ~M.r \/ target <= dep THEN 1 ELSE (target - dep) \div M.l
        d == dep + n * M.l
    IN /\ M.f = Top /\ n >= 1
       /\ m = "H" => Len(ctx) = 1
       /\ ctx' = Append(ctx, M.t) /\ lev' = Append(lev, n * M.l)
       /\ dep' = d /\ max' = Max(max, d)
       /\ ops' = ops \o " " \o m \o ToString(n)

Close ==
    /\ Len(ctx) > 1
    /\ ctx' = SubSeq(ctx, 1, Len(ctx) - 1) /\ lev' = SubSeq(lev, 1, Len(lev) - 1)
    /\ dep' = dep - lev[Len(lev)] /\ UNCHANGED max
    /\ ops' = ops \o " )"

Sib(n) ==
    /\ Top # "end"
    /\ max' = Max(max, dep + 1) /\ ops' = ops \o " +" \o ToString(n)
    /\ UNCHANGED <<ctx, lev, dep>>

Next == /\ nops < MaxOps /\ max <= Limit /\ nops' = nops + 1
        /\ \/ \E m \in DOMAIN Moves : \E t \in (IF Moves[m].r THEN Targets ELSE {0}) : Open(m, t)
           \/ Close
           \/ \E n \in SibCounts : Sib(n)
Spec == Init /\ nops = 0 /\ [][Next]_allvars

RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE Head(s) + Sum(Tail(s))
DepthIsOpenLevels == dep = Sum(lev) /\ dep <= max

(* a behaviour is complete when nothing more fits; prefixes of it are texts   *)
(* of their own but add nothing                                               *)
Printed == (nops = MaxOps \/ max > Limit) => PrintT(ops \o (IF max <= Limit THEN " ok" ELSE " deep"))
=============================================================================
