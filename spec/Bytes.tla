-------------------------------- MODULE Bytes --------------------------------
(* Byte strings are sequences of 0..255; numbers are sequences of decimal     *)
(* digits 0..9 (TLC's integers have 32 bits, the ranges of Go's do not).      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

EOF == -1
chN == 78   chb == 98   chi == 105  chd == 100  chs == 115  cha == 97   chO == 79
chColon == 58   chSemi == 59   chQuote == 34   chOpen == 123   chClose == 125
chMinus == 45   chPlus == 43   chDot == 46     chE == 69       che == 101
ch0 == 48   ch1 == 49

IsDigit(b) == b >= 48 /\ b <= 57

(* the byte of s at position p (from 1), or EOF *)
At(s, p) == IF p >= 1 /\ p <= Len(s) THEN s[p] ELSE EOF

(* first position >= p that is not a digit *)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, p) == IF p <= Len(s) /\ IsDigit(s[p]) THEN DigitsEnd(s, p + 1) ELSE p

(* first position >= p holding b, or Len(s)+1 *)
RECURSIVE FindByte(_, _, _)
FindByte(s, p, b) == IF p > Len(s) \/ s[p] = b THEN p ELSE FindByte(s, p + 1, b)

(* digits of the text s[p..q-1] *)
Digits(s, p, q) == [k \in 1..(q - p) |-> s[p + k - 1] - 48]

RECURSIVE LeadingZeros(_, _)
LeadingZeros(d, k) == IF k < Len(d) /\ d[k + 1] = 0 THEN LeadingZeros(d, k + 1) ELSE k
(* without leading zeros; zero itself is <<0>> *)
Strip(d) == LET z == LeadingZeros(d, 0)
            IN IF z = Len(d) THEN <<0>> ELSE SubSeq(d, z + 1, Len(d))

RECURSIVE TrailingZeros(_, _)
TrailingZeros(d, k) == IF k < Len(d) /\ d[Len(d) - k] = 0 THEN TrailingZeros(d, k + 1) ELSE k
StripRight(d) == LET z == TrailingZeros(d, 0)
                 IN IF z = Len(d) THEN <<0>> ELSE SubSeq(d, 1, Len(d) - z)

(* lexicographic order of equally long digit strings *)
RECURSIVE LexLeq(_, _, _)
LexLeq(x, y, k) == IF k > Len(x) THEN TRUE
                   ELSE IF x[k] # y[k] THEN x[k] < y[k] ELSE LexLeq(x, y, k + 1)
(* x <= y as numbers, both stripped *)
NumLeq(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LexLeq(x, y, 1)

RECURSIVE NumOf(_, _, _)
NumOf(d, k, acc) == IF k > Len(d) THEN acc ELSE NumOf(d, k + 1, 10 * acc + d[k])
(* the number if it has at most nine digits, otherwise Huge *)
Huge == 1000000000
ToNat(d) == LET x == Strip(d) IN IF Len(x) > 9 THEN Huge ELSE NumOf(x, 1, 0)

RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<n>> ELSE Append(NatDigits(n \div 10), n % 10)
Asc(d) == [k \in 1..Len(d) |-> d[k] + 48]
(* decimal text of a small natural *)
NatText(n) == Asc(NatDigits(n))

MaxUnsigned(w) == CASE w = 8 -> <<2,5,5>>
                    [] w = 16 -> <<6,5,5,3,5>>
                    [] w = 32 -> <<4,2,9,4,9,6,7,2,9,5>>
                    [] OTHER -> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
MaxSigned(w) == CASE w = 8 -> <<1,2,7>>
                  [] w = 16 -> <<3,2,7,6,7>>
                  [] w = 32 -> <<2,1,4,7,4,8,3,6,4,7>>
                  [] OTHER -> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MinSigned(w) == CASE w = 8 -> <<1,2,8>>
                  [] w = 16 -> <<3,2,7,6,8>>
                  [] w = 32 -> <<2,1,4,7,4,8,3,6,4,8>>
                  [] OTHER -> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>

(* is -d (neg) or d, stripped, in the range of the integer type *)
InRange(signed, w, neg, d) ==
    IF d = <<0>> THEN TRUE
    ELSE IF signed THEN IF neg THEN NumLeq(d, MinSigned(w)) ELSE NumLeq(d, MaxSigned(w))
    ELSE ~neg /\ NumLeq(d, MaxUnsigned(w))

------------------------------------------------------------------------------
(* Decimal floating point.  A number is [sp, neg, d, e]: sp is "nan", "inf"   *)
(* or ""; then the value is +-d[1].d[2]d[3]... * 10^e.                        *)

FZero(neg) == [c |-> "f", sp |-> "", neg |-> neg, d |-> <<0>>, e |-> 0]
FNan       == [c |-> "f", sp |-> "nan", neg |-> FALSE, d |-> <<0>>, e |-> 0]
FInf(neg)  == [c |-> "f", sp |-> "inf", neg |-> neg, d |-> <<0>>, e |-> 0]
FAny       == [c |-> "?"]
FNear(r)   == [c |-> "~", neg |-> r.neg, d |-> r.d, e |-> r.e]     \* the float nearest to this number

txtINF  == <<73, 78, 70>>
txtMINF == <<45, 73, 78, 70>>
txtNAN  == <<78, 65, 78>>

Lower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
LowerSeq(s) == [k \in 1..Len(s) |-> Lower(s[k])]
Unsigned(s) == IF Len(s) > 0 /\ s[1] \in {chMinus, chPlus} THEN SubSeq(s, 2, Len(s)) ELSE s

(* [+-]? digits [. digits]? ([eE] [+-]? digits)?, at least one digit before   *)
(* the exponent.  The result is [ok, neg, d, e] with d stripped on both sides *)
DecimalText(s) ==
    LET neg == At(s, 1) = chMinus
        p0  == IF At(s, 1) \in {chMinus, chPlus} THEN 2 ELSE 1
        p1  == DigitsEnd(s, p0)
        hasDot == At(s, p1) = chDot
        p2  == IF hasDot THEN p1 + 1 ELSE p1
        p3  == IF hasDot THEN DigitsEnd(s, p2) ELSE p1
        hasE == At(s, p3) \in {chE, che}
        eneg == hasE /\ At(s, p3 + 1) = chMinus
        p4  == IF ~hasE THEN p3 ELSE IF At(s, p3 + 1) \in {chMinus, chPlus} THEN p3 + 2 ELSE p3 + 1
        p5  == IF hasE THEN DigitsEnd(s, p4) ELSE p3
        ip  == Digits(s, p0, p1)
        fp  == IF hasDot THEN Digits(s, p2, p3) ELSE << >>
        all == ip \o fp
        ok  == Len(all) > 0 /\ (hasE => p5 > p4) /\ p5 = Len(s) + 1
        x0  == IF hasE /\ p5 > p4 THEN ToNat(Digits(s, p4, p5)) ELSE 0
        x   == IF x0 > 1000000 THEN 1000000 ELSE x0
        lz  == LeadingZeros(all, 0)
        sig == StripRight(SubSeq(all, lz + 1, Len(all)))
        ex  == (IF eneg THEN 0 - x ELSE x) + Len(ip) - 1 - lz
    IN IF ~ok THEN [ok |-> FALSE, neg |-> FALSE, d |-> <<0>>, e |-> 0]
       ELSE IF lz = Len(all) THEN [ok |-> TRUE, neg |-> neg, d |-> <<0>>, e |-> 0]
       ELSE [ok |-> TRUE, neg |-> neg, d |-> sig, e |-> ex]

(* spellings that the language's number parser may or may not accept *)
TolerableFloat(s) ==
    LET u == LowerSeq(Unsigned(s))
    IN \/ u \in {<<105,110,102>>, <<105,110,102,105,110,105,116,121>>, <<110,97,110>>}
       \/ Len(u) > 2 /\ u[1] = ch0 /\ u[2] = 120
       \/ \E k \in 1..Len(u) : u[k] = 95

(* magnitudes around the overflow threshold, as digit strings with exponent   *)
MaxD(w) == IF w = 32 THEN <<3,4,0,2,8,2,3,5>> ELSE <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,7>>
OverD(w) == IF w = 32 THEN <<3,4,0,2,8,2,3,5,7>> ELSE <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,9>>
MaxE(w) == IF w = 32 THEN 38 ELSE 308
MinE(w) == IF w = 32 THEN -37 ELSE -307
ExactDigits(w) == IF w = 32 THEN 6 ELSE 15

Pad(d, n) == IF Len(d) >= n THEN d ELSE d \o [k \in 1..(n - Len(d)) |-> 0]
(* d <= f for digit strings read as fractions *)
FracLeq(x, y) == LET n == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y) IN LexLeq(Pad(x, n), Pad(y, n), 1)

(* What reading the text s as a float of w bits may give: st is "ok", "err"   *)
(* or "lax" (either); v is the value if it is accepted.  canon says that the  *)
(* text is known to be the shortest form of a float of that width.            *)
FloatText(s, w, canon) ==
    IF s = txtINF THEN [st |-> "ok", v |-> FInf(FALSE)]
    ELSE IF s = txtMINF THEN [st |-> "ok", v |-> FInf(TRUE)]
    ELSE IF s = txtNAN THEN [st |-> "ok", v |-> FNan]
    ELSE LET r == DecimalText(s)
             val == [c |-> "f", sp |-> "", neg |-> r.neg, d |-> r.d, e |-> r.e]
         IN IF ~r.ok THEN [st |-> IF TolerableFloat(s) THEN "lax" ELSE "err", v |-> FAny]
            ELSE IF r.d = <<0>> THEN [st |-> "ok", v |-> val]
            ELSE IF r.e > MaxE(w) THEN [st |-> "err", v |-> FAny]
            ELSE IF canon THEN [st |-> "ok", v |-> val]
            ELSE IF r.e = MaxE(w) /\ ~FracLeq(r.d, MaxD(w))
                 THEN [st |-> IF FracLeq(OverD(w), r.d) THEN "err" ELSE "lax", v |-> FNear(r)]
            ELSE IF r.e < MinE(w) \/ Len(r.d) > ExactDigits(w) THEN [st |-> "ok", v |-> FNear(r)]
            ELSE [st |-> "ok", v |-> val]

(* d[1].d[2]... * 10^e <= that of f *)
DecLeq(xd, xe, yd, ye) == IF xd = <<0>> THEN TRUE ELSE IF yd = <<0>> THEN FALSE ELSE xe < ye \/ (xe = ye /\ FracLeq(xd, yd))

(* is o the float nearest to r: between the middles to its neighbours, which  *)
(* belong to it if its mantissa is even (recorded where it matters)           *)
Nearest(r, o) ==
    /\ o.sp = "" /\ o.neg = r.neg
    /\ "lo" \in DOMAIN o =>
          /\ DecLeq(o.lo, o.le, r.d, r.e) /\ DecLeq(r.d, r.e, o.hi, o.he)
          /\ o.ev \/ ~(DecLeq(r.d, r.e, o.lo, o.le) \/ DecLeq(o.hi, o.he, r.d, r.e))

(* is s, as the text of a float that is skipped, acceptable *)
SkipFloatText(s) ==
    IF s \in {txtINF, txtMINF, txtNAN} \/ DecimalText(s).ok THEN "ok"
    ELSE IF TolerableFloat(s) THEN "lax" ELSE "err"

(* the text a float is written as *)
FloatOut(f) ==
    LET sign == IF f.neg THEN <<chMinus>> ELSE << >>
        d == Asc(f.d)
        n == Len(f.d)
        e == f.e
        zeros(k) == [j \in 1..k |-> ch0]
        plain == IF f.d = <<0>> THEN <<ch0>>
                 ELSE IF e < 0 THEN <<ch0, chDot>> \o zeros(0 - e - 1) \o d
                 ELSE IF n <= e + 1 THEN d \o zeros(e + 1 - n)
                 ELSE SubSeq(d, 1, e + 1) \o <<chDot>> \o SubSeq(d, e + 2, n)
        ea == IF e < 0 THEN 0 - e ELSE e
        expo == <<d[1]>> \o (IF n > 1 THEN <<chDot>> \o SubSeq(d, 2, n) ELSE << >>)
                \o <<che, IF e < 0 THEN chMinus ELSE chPlus>>
                \o (IF ea < 10 THEN <<ch0>> ELSE << >>) \o NatText(ea)
    IN CASE f.sp = "nan" -> txtNAN
         [] f.sp = "inf" -> IF f.neg THEN txtMINF ELSE txtINF
         [] OTHER -> sign \o (IF f.d = <<0>> \/ (e >= -6 /\ e < 21) THEN plain ELSE expo)
=============================================================================
