------------------------------- MODULE Reader --------------------------------
(* The decoding machine reading a text that an environment makes up while the *)
(* machine asks for it.  Whenever the machine needs a token the environment   *)
(* appends one of the tokens of the group (IOEnv.GROUP, written by the        *)
(* harness together with the destinations) or ends the text.  Every text the  *)
(* machine comes to an end on is printed,                                     *)
(*   X <destination> <result> <text>                                          *)
(* and given to Unmarshal, whose call is then judged by DecTrace.             *)
EXTENDS Decode, Wire, Json, IOUtils

CONSTANT Deep       \* more tokens

VARIABLES
    left,   \* tokens the environment may still append, braces that close not counted
    open    \* it has not ended the text

Group == JsonDeserialize(IOEnv.GROUP)
Tokens == IF Deep THEN Group.deep ELSE Group.quick

(* a case is [d, text] *)
SrcX(k)   == k.text
TabX(k)   == Group.dests[k.d].types
DstX(k)   == Group.dests[k.d].t
OldX(k)   == Group.dests[k.d].old
CanonX(k) == FALSE

Init == /\ DecodeInit({[d |-> d, text |-> << >>] : d \in 1..Len(Group.dests)})
        /\ left = Tokens /\ open = TRUE

AtEnd == cur = Len(c.text) + 1
Asks == open /\ AtEnd /\ (pc \in {"begin", "val", "next", "skip"} \/ (pc = "ret" /\ stk = << >>))

(* entries beyond the declared count of the container on top *)
Surplus == stk # << >> /\ pc = "next" /\ Top.f # "ptr" /\ Top.n > Top.decl

Choices == CASE pc = "next" -> {Group.key[k] : k \in 1..Len(Group.key)}
             [] pc = "ret" -> {Group.trail[k] : k \in 1..Len(Group.trail)}
             [] OTHER -> {Group.val[k] : k \in 1..Len(Group.val)}

Write ==
    /\ Asks
    /\ \E t \in Choices :
         /\ t # <<chClose>> => left > 0 /\ ~Surplus
         /\ c' = [c EXCEPT !.text = @ \o t]
         /\ left' = IF t = <<chClose>> THEN left ELSE left - 1
    /\ UNCHANGED <<pc, cur, stk, tgt, ret, log, lax, dep, res, open>>

End ==
    /\ Asks
    /\ open' = FALSE
    /\ UNCHANGED <<c, pc, cur, stk, tgt, ret, log, lax, dep, res, left>>

Read == ~Asks /\ DecodeNext /\ UNCHANGED <<left, open>>

Next == Write \/ End \/ Read
vars == <<dvars, left, open>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
(* The machine never gets stuck, and comes to an end *)
NeverStuck == pc # "done" => ENABLED Next
Termination == <>(pc = "done")

(* what is accepted without reservation is a PHP value, unless the machine    *)
(* stopped caring; a destination that takes everything takes every PHP value  *)
Sound == (pc = "done" /\ res = "ok" /\ ~lax) => WellFormed(c.text)
TakesAll == LET T == TabX(c)[DstX(c)] IN T.u /\ ~T.uf
Complete == (pc = "done" /\ res = "err" /\ TakesAll) => ~WellFormed(c.text)
(* an Unmarshaler at the top is given everything there is to the text *)
AllBytes == (pc = "done" /\ res = "ok" /\ TakesAll /\ c.text # <<chN, chSemi>>) => log = <<c.text>>

Printed == (pc = "done" /\ res # "any") => PrintT("X " \o ToString(c.d) \o " " \o res \o " " \o ToString(c.text))
=============================================================================
