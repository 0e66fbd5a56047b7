------------------------------ MODULE EncTrace -------------------------------
(* Conformance of recorded Marshal calls with Encode: the machine writes the  *)
(* value's text guided by the recorded output, o being the position reached   *)
(* in it.  Prints one line per call:                                          *)
(*   J <id> <verdict> <outcome of the machine>                                *)
EXTENDS Encode, Wire, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

TabX(k) == Cases[k].types
ValX(k) == Cases[k].v
Zero0 == 0
FitsX(k, at, tok) ==
    LET out == Cases[k].out
    IN /\ at + Len(tok) <= Len(out)
       /\ \A j \in 1..Len(tok) : out[at + j] = tok[j]
EmitX(at, tok) == at + Len(tok)

Init == EncodeInit(1..Len(Cases))
Next == EncodeNext
Spec == Init /\ [][Next]_evars

(* everything MarshalPHP methods returned is well-formed *)
RECURSIVE UserTextOK(_)
UserTextOK(v) ==
    CASE v.c = "u" -> WellFormed(v.raw)
      [] v.c \in {"p", "a"} -> UserTextOK(v.v)
      [] v.c = "l" -> \A k \in 1..Len(v.l) : UserTextOK(v.l[k])
      [] v.c = "m" -> \A k \in 1..Len(v.m) : UserTextOK(v.m[k].v)
      [] v.c = "t" -> \A k \in 1..Len(v.t) : UserTextOK(v.t[k])
      [] OTHER -> TRUE

Judgement ==
    LET r == Cases[c]
    IN CASE r.pan -> "panicked"
         [] res = "any" -> "free"
         [] res = "err" -> IF ~r.err THEN "accepted" ELSE IF r.out # << >> THEN "bytes-with-error" ELSE "good"
         [] r.err -> "rejected"
         [] res = "stuck" -> "text"
         [] o # Len(r.out) -> "extra-bytes"
         [] calls # r.calls -> "calls"
         [] ~WellFormed(r.out) /\ UserTextOK(r.v) -> "ill-formed"
         [] OTHER -> "good"

Judged ==
    pc = "done" =>
      LET j == Judgement
      IN PrintT("J " \o ToString(Cases[c].id) \o " " \o j \o " " \o res)

OutputInRange == o <= Len(Cases[c].out)
=============================================================================
