-------------------------------- MODULE Types --------------------------------
(* Go types as the library sees them.  A type table is a sequence of nodes    *)
(*   k   kind: bool int uint uintptr float string slice array map ptr any     *)
(*       iface struct bad                                                     *)
(*   w   bits;  e  element type;  key  key type;  n  array length             *)
(*   m   method set has MarshalPHP;  u  *T has UnmarshalPHP (uf: it fails)    *)
(*   uv  T itself has UnmarshalPHP                                            *)
(*   bx  exactly []byte;  b8  slice of bytes of any name                      *)
(*   f   fields [n, tag, ht, x (exported), emb (0, 1 value, 2 pointer), t]    *)
(* Entries 1..7 are bool, int64, float64, string, any, map[any]any and        *)
(* map[string]any.                                                            *)
EXTENDS Bytes

tBool == 1  tInt64 == 2  tFloat64 == 3  tString == 4  tAny == 5  tMapAny == 6  tMapStr == 7

------------------------------------------------------------------------------
(* Tags.  UTF-8 decoding of one rune at position p: <<rune, size>>            *)
Cont(b) == b >= 128 /\ b < 192
Rune(s, p) ==
    LET b == s[p]
        b2 == At(s, p + 1)
        b3 == At(s, p + 2)
        b4 == At(s, p + 3)
    IN IF b < 128 THEN <<b, 1>>
       ELSE IF b >= 194 /\ b < 224 /\ Cont(b2) THEN <<(b - 192) * 64 + (b2 - 128), 2>>
       ELSE IF b >= 224 /\ b < 240 /\ Cont(b2) /\ Cont(b3)
            THEN <<(b - 224) * 4096 + (b2 - 128) * 64 + (b3 - 128), 3>>
       ELSE IF b >= 240 /\ b < 245 /\ Cont(b2) /\ Cont(b3) /\ Cont(b4)
            THEN <<(b - 240) * 262144 + (b2 - 128) * 4096 + (b3 - 128) * 64 + (b4 - 128), 4>>
       ELSE <<65533, 1>>

(* !#$%&()*+-./:<=>?@[]^_{|}~ and space *)
TagPunct == {33, 35, 36, 37, 38, 40, 41, 42, 43, 45, 46, 47, 58, 60, 61, 62, 63, 64, 91, 93, 94, 95, 123, 124, 125, 126, 32}
(* letters and digits: ASCII, Latin-1 and Latin extended, Greek, Cyrillic,    *)
(* Arabic-Indic digits, kana, CJK and Hangul: the ranges the tags in use      *)
(* come from.  Outside of them (other than the punctuation below) TagRune is  *)
(* undetermined.                                                              *)
TagLetter(r) == \/ r >= 48 /\ r <= 57
                \/ r >= 65 /\ r <= 90
                \/ r >= 97 /\ r <= 122
                \/ r \in {170, 181, 186}
                \/ r >= 192 /\ r <= 591 /\ r \notin {215, 247}
                \/ r >= 913 /\ r <= 929
                \/ r >= 945 /\ r <= 969
                \/ r >= 1024 /\ r <= 1153
                \/ r >= 1632 /\ r <= 1641
                \/ r >= 12353 /\ r <= 12438
                \/ r >= 12449 /\ r <= 12538
                \/ r >= 19968 /\ r <= 40869
                \/ r >= 44032 /\ r <= 55203
(* certainly neither letter nor digit: controls, quotes, backslash, ; , ' ` , *)
(* Latin-1 signs, general punctuation, currency, arrows, replacement rune,    *)
(* emoji                                                                      *)
TagBad(r) == \/ r < 32 \/ r \in {34, 39, 44, 59, 92, 96, 127, 215, 247, 65533}
             \/ r >= 128 /\ r < 170
             \/ r \in {171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 182, 183, 184, 185, 187, 188, 189, 190, 191}
             \/ r >= 8192 /\ r <= 8304
             \/ r >= 8352 /\ r <= 8384
             \/ r >= 8592 /\ r <= 9311
             \/ r >= 127744 /\ r <= 129535

RECURSIVE TagName(_, _)
(* "ok", "bad" or "any" (undetermined) *)
TagName(s, p) ==
    IF p > Len(s) THEN "ok"
    ELSE LET r == Rune(s, p)
             rest == TagName(s, p + r[2])
         IN IF r[1] \in TagPunct \/ TagLetter(r[1]) THEN rest
            ELSE IF TagBad(r[1]) THEN "bad"
            ELSE IF rest = "bad" THEN "bad" ELSE "any"

RECURSIVE SplitComma(_, _)
SplitComma(s, p) ==
    LET q == FindByte(s, p, 44)
    IN IF q > Len(s) THEN <<SubSeq(s, p, Len(s))>>
       ELSE <<SubSeq(s, p, q - 1)>> \o SplitComma(s, q + 1)

txtOmit   == <<111, 109, 105, 116, 101, 109, 112, 116, 121>>
txtString == <<115, 116, 114, 105, 110, 103>>

Excluded(f) == ~f.x \/ f.tag = <<chMinus>>

(* what the tag of a field says: key, options; un: undetermined               *)
Tag(f) ==
    LET parts == SplitComma(f.tag, 1)
        name  == parts[1]
        ok    == IF name = << >> THEN "bad" ELSE TagName(name, 1)
        opts  == {parts[k] : k \in 2..Len(parts)}
    IN [key  |-> IF ok = "ok" THEN name ELSE f.n,
        omit |-> txtOmit \in opts,
        str  |-> txtString \in opts,
        un   |-> ok = "any"]

(* positions of the fields that are written and read, in order *)
FieldsOf(T) == SelectSeq([k \in 1..Len(T.f) |-> k], LAMBDA k : ~Excluded(T.f[k]))

DupKeys(T) ==
    LET fs == FieldsOf(T)
    IN \E a, b \in 1..Len(fs) : a < b /\ Tag(T.f[fs[a]]).key = Tag(T.f[fs[b]]).key
UndetTag(T) == \E k \in 1..Len(T.f) : ~Excluded(T.f[k]) /\ Tag(T.f[k]).un

------------------------------------------------------------------------------
ScalarKinds == {"bool", "int", "uint", "uintptr", "float", "string"}
KeyKinds == {"string", "int", "uint"}
Container == {"slice", "array", "map", "struct"}

Worst(S) == IF "err" \in S THEN "err" ELSE IF "any" \in S THEN "any" ELSE "ok"

------------------------------------------------------------------------------
(* Can a destination of type t be compiled into a decoder.                    *)
DecSucc(tab, t) ==
    LET T == tab[t]
    IN IF T.u THEN {}
       ELSE CASE T.k \in {"slice", "array", "ptr"} -> {T.e}
              [] T.k = "map" -> {T.e}
              [] T.k = "struct" -> {T.f[k].t : k \in {j \in 1..Len(T.f) : ~Excluded(T.f[j])}}
              [] OTHER -> {}

DecNode(tab, t) ==
    LET T == tab[t]
        strOK(ft) == LET F == tab[ft]
                     IN \/ F.u
                        \/ F.k \in {"bool", "int", "uint", "float", "string", "slice", "array", "map", "struct", "any", "iface"}
                        \/ F.k = "ptr" /\ ~tab[F.e].u /\ tab[F.e].k \in {"bool", "int", "uint", "float", "string"}
    IN IF T.u THEN "ok"
       ELSE CASE T.k = "ptr" -> IF tab[T.e].k = "ptr" THEN "err" ELSE "ok"
              [] T.k = "struct" ->
                   IF \E j \in 1..Len(T.f) : ~Excluded(T.f[j]) /\ T.f[j].emb > 0 THEN "err"
                   ELSE IF DupKeys(T) \/ UndetTag(T) THEN "any"
                   ELSE IF \E j \in 1..Len(T.f) : ~Excluded(T.f[j]) /\ Tag(T.f[j]).str /\ ~strOK(T.f[j].t) THEN "any"
                   ELSE "ok"
              [] T.k = "map" ->
                   IF ~tab[T.key].u /\ tab[T.key].k \in {"bool", "ptr", "iface", "uintptr"} THEN "any" ELSE "ok"
              [] T.k = "slice" /\ T.b8 -> IF tab[T.e].u THEN "any" ELSE "ok"
              [] OTHER -> "ok"

(* all types a destination of type t consists of *)
RECURSIVE DecParts(_, _, _)
DecParts(tab, S, Done) ==
    IF S = {} THEN Done
    ELSE LET D == Done \cup S IN DecParts(tab, (UNION {DecSucc(tab, t) : t \in S}) \ D, D)

DecTypeVerdict(tab, t) == Worst({DecNode(tab, x) : x \in DecParts(tab, {t}, {})})

(* Does the string option apply to a field of this type when decoding         *)
Wrapped(tab, ft) ==
    LET F == tab[ft]
    IN ~F.u /\ F.k \in {"bool", "int", "uint", "float"}

------------------------------------------------------------------------------
(* Can a value of static type t be compiled into an encoder.                  *)
EncSucc(tab, t) ==
    LET T == tab[t]
    IN IF T.m \/ T.bx THEN {}
       ELSE CASE T.k \in {"slice", "array", "ptr", "map"} -> {T.e}
              [] T.k = "struct" -> {T.f[k].t : k \in {j \in 1..Len(T.f) : ~Excluded(T.f[j]) /\ ~Tag(T.f[j]).str}}
              [] OTHER -> {}

EncNode(tab, t) ==
    LET T == tab[t]
        base(ft) == IF tab[ft].k = "ptr" THEN tab[ft].e ELSE ft
        strV(ft) == IF tab[ft].m \/ tab[base(ft)].m THEN "any"
                    ELSE IF tab[base(ft)].k \in {"bool", "int", "uint", "float", "string", "any", "iface"} THEN "ok"
                    ELSE "err"
    IN IF T.m \/ T.bx THEN "ok"
       ELSE CASE T.k \in {"bad", "uintptr"} -> "err"
              [] T.k = "ptr" -> IF tab[T.e].k = "ptr" THEN "err" ELSE "ok"
              [] T.k = "map" -> IF tab[T.key].k \in KeyKinds THEN "ok" ELSE "err"
              [] T.k = "struct" ->
                   Worst({"ok"}
                     \cup {IF T.f[j].emb = 1 THEN "err" ELSE IF T.f[j].emb = 2 THEN "any"
                           ELSE IF Tag(T.f[j]).str THEN strV(T.f[j].t) ELSE "ok"
                             : j \in {i \in 1..Len(T.f) : ~Excluded(T.f[i])}}
                     \cup (IF DupKeys(T) \/ UndetTag(T) THEN {"any"} ELSE {}))
              [] OTHER -> "ok"

RECURSIVE EncParts(_, _, _)
EncParts(tab, S, Done) ==
    IF S = {} THEN Done
    ELSE LET D == Done \cup S IN EncParts(tab, (UNION {EncSucc(tab, t) : t \in S}) \ D, D)

EncTypeVerdict(tab, t) == Worst({EncNode(tab, x) : x \in EncParts(tab, {t}, {})})
=============================================================================
