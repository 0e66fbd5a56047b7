------------------------------ MODULE TypeGraph ------------------------------
(* Every way a few named types can refer to each other, and how their support *)
(* is decided: types are compiled when they are first used, in some order,    *)
(* what was compiled is kept, and types that refer to themselves are met      *)
(* again while they are being compiled.  However that goes, a type is usable  *)
(* exactly when no part of it that is needed is unsupported.  Each graph and  *)
(* order is printed, made into Go types, and used in that order.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N,         \* named types
          Refs,      \* what parts refer to: [k |-> "d", t |-> 1] is the type itself, p a pointer to it, l a slice of it; i, x, a, h: int, unsupported, interface, excluded
          Pairs,     \* refs in structs of two fields
          Forms      \* of definitions

Named == 1..N
R(k, t) == [k |-> k, t |-> t]
RefSet(ks) == {R(k, t) : k \in ks \cap {"d", "p", "l"}, t \in Named} \cup {R(k, 0) : k \in ks \ {"d", "p", "l"}}

Defs == (IF "S" \in Forms THEN {<<"S", r>> : r \in RefSet(Refs)} \cup {<<"S", r, q>> : r \in RefSet(Pairs), q \in RefSet(Pairs)} ELSE {})
        \cup {<<f, r>> : f \in Forms \cap {"L", "M", "A", "P"}, r \in RefSet(Refs \ {"h"})}
        \cup (IF "K" \in Forms THEN {<<"K", r>> : r \in RefSet(Refs \cap {"i", "p", "a", "x"})} ELSE {})
        \cup (IF "I" \in Forms THEN {<<"I">>} ELSE {})

VARIABLES def, order, cache, used, cur, todo, seen, fails
vars == <<def, order, cache, used, cur, todo, seen, fails>>

(* a value of type t holds one of type u inline: such types have to be finite *)
Inline(d, t) == {d[t][j].t : j \in {j \in 2..Len(d[t]) : d[t][1] \in {"S", "A"} /\ d[t][j].k = "d"}}
RECURSIVE Reach(_, _, _)
Reach(d, s, n) == IF n = 0 THEN s ELSE Reach(d, s \cup UNION {Inline(d, t) : t \in s}, n - 1)
Finite(d) == \A t \in Named : t \notin Reach(d, Inline(d, t), N)

Orders == {o \in [1..N -> Named] : \A i, j \in 1..N : i # j => o[i] # o[j]}

Init == /\ def \in {d \in [Named -> Defs] : Finite(d)}
        /\ order \in Orders
        /\ cache = {} /\ used = 0 /\ cur = 0 /\ todo = << >> /\ seen = {} /\ fails = << >>

(* parts of a named type *)
Parts(t) == {def[t][j] : j \in 2..Len(def[t])}
IsPtr(r) == r.k = "p" \/ (r.k = "d" /\ def[r.t][1] = "P")
(* wrong in itself *)
BadPart(t, r) == \/ r.k = "x"
                 \/ (def[t][1] = "P" /\ IsPtr(r))        \* pointer to pointer
                 \/ (r.k = "p" /\ def[r.t][1] = "P")
                 \/ (def[t][1] = "K" /\ r.k # "i")       \* map keys
Needs(t) == {r.t : r \in {r \in Parts(t) : r.k \in {"d", "p", "l"}}}

(* usable: no part that is reached is wrong *)
RECURSIVE All(_, _)
All(s, n) == IF n = 0 THEN s ELSE All(s \cup UNION {Needs(t) : t \in s}, n - 1)
Usable(t) == \A u \in All({t}, N) : \A r \in Parts(u) : ~BadPart(u, r)

Use == /\ cur = 0 /\ used < 2 * N          \* every type, then every type again
       /\ used' = used + 1
       /\ LET t == order[(used % N) + 1]
          IN IF t \in cache
             THEN /\ fails' = Append(fails, FALSE) /\ UNCHANGED <<cur, todo, seen, cache>>
             ELSE /\ cur' = t /\ todo' = <<t>> /\ seen' = {} /\ UNCHANGED <<cache, fails>>
       /\ UNCHANGED <<def, order>>

Compile ==
    /\ cur # 0 /\ todo # << >>
    /\ LET t == Head(todo)
       IN IF \E r \in Parts(t) : BadPart(t, r)
          THEN /\ fails' = Append(fails, TRUE) /\ cur' = 0 /\ todo' = << >> /\ seen' = {} /\ UNCHANGED cache
          ELSE /\ seen' = seen \cup {t}
               /\ \E s \in [1..Cardinality(Needs(t) \ (seen \cup {t})) -> Needs(t) \ (seen \cup {t})] :
                    /\ \A i, j \in DOMAIN s : i # j => s[i] # s[j]
                    /\ todo' = s \o SelectSeq(Tail(todo), LAMBDA u : u \notin seen' /\ \A i \in DOMAIN s : s[i] # u)
               /\ UNCHANGED <<cur, fails, cache>>
    /\ UNCHANGED <<def, order, used>>

(* what a failed compilation made is not kept *)
Keep == /\ cur # 0 /\ todo = << >>
        /\ cache' = cache \cup {cur} /\ fails' = Append(fails, FALSE) /\ cur' = 0 /\ seen' = {}
        /\ UNCHANGED <<def, order, used, todo>>

Next == Use \/ Compile \/ Keep
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Consistent == \A i \in 1..Len(fails) : fails[i] = ~Usable(order[((i - 1) % N) + 1])
CacheUsable == \A t \in cache : Usable(t)

Ref(r) == r.k \o (IF r.t = 0 THEN "" ELSE ToString(r.t))
Def(d) == d[1] \o (IF Len(d) > 1 THEN Ref(d[2]) ELSE "") \o (IF Len(d) > 2 THEN "," \o Ref(d[3]) ELSE "")
RECURSIVE Line(_)
Line(t) == IF t > N THEN "" ELSE Def(def[t]) \o (IF Usable(t) THEN "+" ELSE "-") \o " " \o Line(t + 1)
RECURSIVE Ord(_)
Ord(i) == IF i > N THEN "" ELSE ToString(order[i]) \o Ord(i + 1)
Printed == used = 0 => PrintT("T " \o Line(1) \o Ord(1))
=============================================================================
