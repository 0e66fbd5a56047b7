-------------------------------- MODULE Runtime ------------------------------
(* What calls share: contexts taken from a pool for the time of a call, and   *)
(* compiled types in a cache that is read, extended and replaced as a whole.  *)
(* Goroutines run calls which stop in callbacks (MarshalPHP, UnmarshalPHP);   *)
(* there they are resumed, fail, panic, or make a call of their own while     *)
(* other goroutines go on.  Every history of up to MaxCalls calls is run on   *)
(* the real code, stepwise, and each call has to end as it would on its own.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads, MaxCalls, Kinds, MaxNest

(* callbacks and outcome of the kinds of calls *)
Gates(k) == CASE k \in {"e0", "d0", "ex", "dx"} -> 0 [] k \in {"e1", "e3", "d1", "d3"} -> 1 [] OTHER -> 2
Ending(k) == IF k \in {"e3", "d3", "ex", "dx"} THEN "err" ELSE "ok"

VARIABLES
    stk,      \* per goroutine: calls in progress [id, k, at, ctx, ld], innermost last
    pool,     \* contexts not in use
    dirty,    \* contexts with something left from a call
    nctx,     \* contexts made
    cache,    \* types compiled
    out,      \* per call: its outcome, "" while it runs
    kind,     \* per call: its kind
    ops
vars == <<stk, pool, dirty, nctx, cache, out, kind, ops>>

Init == /\ stk = [g \in Threads |-> << >>] /\ pool = {} /\ dirty = {} /\ nctx = 0
        /\ cache = {} /\ out = << >> /\ kind = << >> /\ ops = ""

Top(g) == stk[g][Len(stk[g])]
Said(o) == ops' = ops \o "," \o o

(* the next callback of the call, or its end *)
ToGate(f) == f.at < Gates(f.k)

Take(x) == /\ x \in pool \cup {nctx + 1}
           /\ pool' = pool \ {x} /\ nctx' = IF x > nctx THEN nctx + 1 ELSE nctx

Begin(g, k, o) ==
    /\ Len(kind) < MaxCalls
    /\ kind' = Append(kind, k)
    /\ \E x \in {CHOOSE y \in pool \cup {nctx + 1} : \A z \in pool : y <= z} :
         /\ Take(x)
         /\ IF Gates(k) = 0
            THEN /\ out' = Append(out, Ending(k)) /\ UNCHANGED stk
                 /\ dirty' = dirty
            ELSE /\ out' = Append(out, "")
                 /\ stk' = [stk EXCEPT ![g] = Append(@, [id |-> Len(kind) + 1, k |-> k, at |-> 0, ctx |-> x])]
                 /\ dirty' = dirty \cup {x}
    /\ cache' = cache \cup {k}
    /\ Said(o \o ToString(g) \o ":" \o k)

Start(g, k) == stk[g] = << >> /\ Begin(g, k, "s")
Nest(g, k) == stk[g] # << >> /\ Len(stk[g]) <= MaxNest /\ Begin(g, k, "n")

End(g, o) == /\ out' = [out EXCEPT ![Top(g).id] = o]
             /\ stk' = [stk EXCEPT ![g] = SubSeq(@, 1, Len(@) - 1)]
             /\ UNCHANGED <<nctx, cache, kind>>

(* a context goes back to the pool only when nothing is left in it *)
Release(g) == /\ pool' = pool \cup {Top(g).ctx} /\ dirty' = dirty \ {Top(g).ctx}
Drop(g) == pool' = pool /\ dirty' = dirty \ {Top(g).ctx}

Resume(g) ==
    /\ stk[g] # << >> /\ Said("r" \o ToString(g))
    /\ IF Top(g).at + 1 < Gates(Top(g).k)
       THEN /\ stk' = [stk EXCEPT ![g][Len(stk[g])].at = @ + 1]
            /\ UNCHANGED <<pool, dirty, nctx, cache, out, kind>>
       ELSE /\ End(g, Ending(Top(g).k))
            /\ IF Ending(Top(g).k) = "ok" THEN Release(g) ELSE Drop(g)

Fails(g) == /\ stk[g] # << >> /\ Said("f" \o ToString(g)) /\ End(g, "err") /\ Drop(g)
Panics(g) == /\ stk[g] # << >> /\ Said("p" \o ToString(g)) /\ End(g, "panic") /\ Drop(g)

Next == \E g \in Threads : Resume(g) \/ Fails(g) \/ Panics(g) \/ \E k \in Kinds : Start(g, k) \/ Nest(g, k)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
InUse == {<<g, i>> : g \in Threads, i \in 1..(MaxNest + 1)}
Frames == {p \in InUse : p[2] <= Len(stk[p[1]])}
Ctx(p) == stk[p[1]][p[2]].ctx

(* no context serves two calls, or is in the pool while it serves one *)
Exclusive == /\ \A p, q \in Frames : p # q => Ctx(p) # Ctx(q)
             /\ \A p \in Frames : Ctx(p) \notin pool
PoolIsClean == pool \cap dirty = {}
(* calls end as their kind says unless their callback failed *)
Outcomes == \A i \in 1..Len(out) : out[i] = "ok" => Ending(kind[i]) = "ok"

RECURSIVE Join(_)
Join(s) == IF s = << >> THEN "" ELSE "/" \o Head(s) \o Join(Tail(s))
Idle == \A g \in Threads : stk[g] = << >>
Printed == Idle /\ Len(kind) = MaxCalls => PrintT("R " \o ops \o " " \o Join(out))
=============================================================================
