------------------------------ MODULE DecTrace -------------------------------
(* Conformance of recorded Unmarshal calls (one JSON object per line of the   *)
(* file named by CASES) with Decode: the machine is run on each call's text,  *)
(* type table and prior destination, and what the call did is compared with   *)
(* what the machine allows.  Prints one line per call:                        *)
(*   J <id> <verdict> <outcome of the machine> <lax>                          *)
EXTENDS Decode, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

SrcX(k)   == Cases[k]["in"]
TabX(k)   == Cases[k].types
DstX(k)   == Cases[k].t
OldX(k)   == Cases[k].old
CanonX(k) == Cases[k].canon

Init == DecodeInit(1..Len(Cases))
Next == DecodeNext
Spec == Init /\ [][Next]_dvars

LogsMatch(l) == Len(l) = Len(log) /\ \A k \in 1..Len(l) : l[k] = log[k]

Judgement ==
    LET r == Cases[c]
    IN CASE r.pan -> "panicked"
         [] r.inm -> "input-modified"
         [] res # "any" /\ r.mem > 4096 + Len(r["in"]) -> "memory"
         [] res = "any" -> "free"
         [] r.rt /\ r.err -> "round-trip-rejected"
         [] res = "err" -> IF r.err THEN "good" ELSE "accepted"
         [] r.err -> IF lax THEN "good" ELSE "rejected"
         [] ~Match(ret, r.new) -> "value"
         [] ~LogsMatch(r.log) -> "log"
         [] r.rt /\ ~SameAfterRoundTrip(r.orig, r.new) -> "round-trip"
         [] OTHER -> "good"

Judged ==
    pc = "done" =>
      LET j == Judgement
      IN PrintT("J " \o ToString(Cases[c].id) \o " " \o j \o " " \o res \o (IF lax THEN " lax" ELSE " exact"))
=============================================================================
