--------------------------------- MODULE Wire --------------------------------
(* The grammar of PHP's serialize() texts, as a recogniser of its own: it     *)
(* shares nothing with Encode and Decode, which are compared with it.         *)
EXTENDS Bytes

RECURSIVE ValueEnd(_, _), EntriesEnd(_, _, _)
(* position after the value that starts at p, or 0 *)
Number(s, p, q) ==
    LET b == IF At(s, p) = chMinus THEN p + 1 ELSE p
    IN DigitsEnd(s, b) > b /\ DigitsEnd(s, b) = q
Len0(s, p) ==    \* n of `:n:` at p with the position after it, or <<0, 0>>
    LET q == DigitsEnd(s, p + 1)
    IN IF At(s, p) # chColon \/ q = p + 1 \/ At(s, q) # chColon THEN <<0, 0>>
       ELSE <<ToNat(Digits(s, p + 1, q)), q + 1>>
StringEnd(s, p) ==
    LET l == Len0(s, p + 1)
    IN IF l[2] = 0 \/ l[1] >= Huge THEN 0
       ELSE IF At(s, l[2]) = chQuote /\ At(s, l[2] + l[1] + 1) = chQuote /\ At(s, l[2] + l[1] + 2) = chSemi
            THEN l[2] + l[1] + 3 ELSE 0
IntEnd(s, p) ==
    LET q == FindByte(s, p, chSemi)
    IN IF At(s, p + 1) = chColon /\ q <= Len(s) /\ Number(s, p + 2, q) THEN q + 1 ELSE 0

EntriesEnd(s, p, n) ==
    IF p = 0 THEN 0
    ELSE IF n = 0 THEN IF At(s, p) = chClose THEN p + 1 ELSE 0
    ELSE LET k == IF At(s, p) = chs THEN StringEnd(s, p) ELSE IF At(s, p) = chi THEN IntEnd(s, p) ELSE 0
         IN IF k = 0 THEN 0 ELSE EntriesEnd(s, ValueEnd(s, k), n - 1)

ValueEnd(s, p) ==
    IF p = 0 THEN 0
    ELSE CASE At(s, p) = chN -> IF At(s, p + 1) = chSemi THEN p + 2 ELSE 0
           [] At(s, p) = chb -> IF At(s, p + 1) = chColon /\ At(s, p + 2) \in {ch0, ch1} /\ At(s, p + 3) = chSemi THEN p + 4 ELSE 0
           [] At(s, p) = chi -> IntEnd(s, p)
           [] At(s, p) = chd ->
                LET q == FindByte(s, p, chSemi)
                    x == SubSeq(s, p + 2, q - 1)
                IN IF At(s, p + 1) = chColon /\ q <= Len(s) /\ q > p + 2
                      /\ (x \in {txtINF, txtMINF, txtNAN} \/ DecimalText(x).ok)
                   THEN q + 1 ELSE 0
           [] At(s, p) = chs -> StringEnd(s, p)
           [] At(s, p) \in {cha, chO} ->
                LET cl == Len0(s, p + 1)
                    a == IF At(s, p) = cha THEN p + 1
                         ELSE IF cl[2] = 0 \/ cl[1] >= Huge THEN 0
                         ELSE IF At(s, cl[2]) = chQuote /\ At(s, cl[2] + cl[1] + 1) = chQuote
                              THEN cl[2] + cl[1] + 2 ELSE 0
                    l == IF a = 0 THEN <<0, 0>> ELSE Len0(s, a)
                IN IF l[2] = 0 \/ l[1] >= Huge \/ At(s, l[2]) # chOpen THEN 0
                   ELSE IF l[1] > Len(s) THEN 0
                   ELSE EntriesEnd(s, l[2] + 1, l[1])
           [] OTHER -> 0

WellFormed(s) == ValueEnd(s, 1) = Len(s) + 1
=============================================================================
