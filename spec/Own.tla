---------------------------------- MODULE Own --------------------------------
(* Who owns which memory.  The caller has an input buffer it refills and      *)
(* scribbles over, results of Unmarshal with two byte slices b and c each,    *)
(* results kept from before they were decoded into again, and outputs of      *)
(* Marshal.  Everything is a value of its own here: an action changes what    *)
(* it names and nothing else.  Every history up to MaxOps actions is run on   *)
(* the real code and all contents are compared at its end.                    *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS MaxOps, MaxRes, MaxOut

VARIABLES buf,      \* text in the input buffer: 1, 2, or 0 (scribbled over)
          res,      \* results: [t: text, b, c: changes made to the parts]
          kept,     \* results before they were decoded into again
          outs,     \* outputs: [s: what was marshalled, m: changes made]
          ops, n
vars == <<buf, res, kept, outs, ops, n>>

Init == buf = 1 /\ res = << >> /\ kept = << >> /\ outs = << >> /\ ops = "" /\ n = 0

Did(o) == ops' = ops \o "," \o o /\ n' = n + 1 /\ n < MaxOps
I(i) == ToString(i)

Fill(t) == /\ buf # t /\ buf' = t /\ Did("f" \o I(t)) /\ UNCHANGED <<res, kept, outs>>
Scribble == /\ buf # 0 /\ buf' = 0 /\ Did("x") /\ UNCHANGED <<res, kept, outs>>
New == [t |-> buf, b |-> "", c |-> ""]
Decode == /\ buf # 0 /\ Len(res) < MaxRes
          /\ res' = Append(res, New) /\ Did("d") /\ UNCHANGED <<buf, kept, outs>>
DecodeInto(i) == /\ buf # 0
                 /\ kept' = Append(kept, res[i]) /\ res' = [res EXCEPT ![i] = New]
                 /\ Did("i" \o I(i)) /\ UNCHANGED <<buf, outs>>
Write(i, p) == /\ (IF p = "b" THEN res[i].b ELSE res[i].c) \notin {"ww", "aw", "wa", "aa"}
               /\ res' = IF p = "b" THEN [res EXCEPT ![i].b = @ \o "w"] ELSE [res EXCEPT ![i].c = @ \o "w"]
               /\ Did("w" \o p \o I(i)) /\ UNCHANGED <<buf, kept, outs>>
Extend(i, p) == /\ (IF p = "b" THEN res[i].b ELSE res[i].c) \notin {"ww", "aw", "wa", "aa"}
                /\ res' = IF p = "b" THEN [res EXCEPT ![i].b = @ \o "a"] ELSE [res EXCEPT ![i].c = @ \o "a"]
                /\ Did("a" \o p \o I(i)) /\ UNCHANGED <<buf, kept, outs>>
Encode(v) == /\ Len(outs) < MaxOut
             /\ outs' = Append(outs, [s |-> "v" \o I(v), m |-> ""])
             /\ Did("e" \o I(v)) /\ UNCHANGED <<buf, res, kept>>
EncodePart(i) == /\ Len(outs) < MaxOut
                 /\ outs' = Append(outs, [s |-> I(res[i].t) \o res[i].b, m |-> ""])
                 /\ Did("p" \o I(i)) /\ UNCHANGED <<buf, res, kept>>
WriteOut(k) == /\ outs[k].m = "" /\ outs' = [outs EXCEPT ![k].m = "w"]
               /\ Did("o" \o I(k)) /\ UNCHANGED <<buf, res, kept>>
ExtendOut(k) == /\ outs[k].m = "" /\ outs' = [outs EXCEPT ![k].m = "a"]
                /\ Did("q" \o I(k)) /\ UNCHANGED <<buf, res, kept>>

Next == \/ \E t \in 1..2 : Fill(t)
        \/ Scribble \/ Decode
        \/ \E i \in 1..Len(res) : DecodeInto(i) \/ EncodePart(i)
        \/ \E i \in 1..Len(res), p \in {"b", "c"} : Write(i, p) \/ Extend(i, p)
        \/ \E v \in 1..2 : Encode(v)
        \/ \E k \in 1..Len(outs) : WriteOut(k) \/ ExtendOut(k)
Spec == Init /\ [][Next]_vars

RECURSIVE Show(_), ShowO(_)
Show(s) == IF s = << >> THEN "" ELSE "/" \o I(Head(s).t) \o ":" \o Head(s).b \o ":" \o Head(s).c \o Show(Tail(s))
ShowO(s) == IF s = << >> THEN "" ELSE "/" \o Head(s).s \o ":" \o Head(s).m \o ShowO(Tail(s))

(* at most one thing changes, and only by what was done to it *)
Frame == [][/\ Len(res') >= Len(res) /\ Len(kept') >= Len(kept) /\ Len(outs') >= Len(outs)
            /\ \A k \in 1..Len(kept) : kept'[k] = kept[k]
            /\ (buf' # buf => res' = res /\ outs' = outs)]_vars

Printed == n = MaxOps => PrintT("O " \o ops \o " " \o I(buf) \o " r" \o Show(res) \o " k" \o Show(kept) \o " o" \o ShowO(outs))
=============================================================================
