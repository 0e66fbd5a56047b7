--------------------------------- MODULE Graph -------------------------------
(* Marshal on value graphs: cells hold references to pointers, slices, maps   *)
(* and arrays which consist of cells again, possibly sharing them.  The       *)
(* machine writes the text depth first and keeps the references it is inside  *)
(* of; coming to one of those again is a cycle.  Every graph of a layout is   *)
(* an initial state; each behaviour is printed and run on the real code.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT Layout

S2(i, j) == ToString(i) \o ToString(j)
P(i) == "p" \o ToString(i)
S(i, j) == "s" \o S2(i, j)
R(i) == "r" \o ToString(i)

T(s) == [k |-> "t", s |-> s, n |-> 0]
C(n) == [k |-> "c", s |-> "", n |-> n]

RECURSIVE Items(_, _, _)
(* `i:0;` cell `i:1;` cell ... of the cells i..j-1 *)
Items(i, j, x) == IF i >= j THEN << >> ELSE <<T("i:" \o ToString(x) \o ";"), C(i + 1)>> \o Items(i + 1, j, x + 1)
List(i, j) == <<T("a:" \o ToString(j - i) \o ":{")>> \o Items(i, j, 0) \o <<T("}")>>

(* layout A: an array of any; pointers to its cells, slices of it, pointers   *)
(* to arrays within it                                                        *)
NA == 3
ShapesA == [r \in {P(i) : i \in 0..NA-1} \cup {S(i, j) : i \in 0..NA-1, j \in 0..NA} \cup {R(i) : i \in 0..NA-2} |->
              CASE r \in {P(i) : i \in 0..NA-1} -> <<C((CHOOSE i \in 0..NA-1 : r = P(i)) + 1)>>
                [] r \in {R(i) : i \in 0..NA-2} -> LET i == CHOOSE i \in 0..NA-2 : r = R(i) IN List(i, i + 2)
                [] OTHER -> LET q == CHOOSE q \in (0..NA-1) \X (0..NA) : r = S(q[1], q[2]) IN List(q[1], q[2])]
SlicesOf == {S(q[1], q[2]) : q \in {x \in (0..NA-1) \X (1..NA) : x[1] < x[2]}} \cup {S(0, 0)}
UsedA == {P(i) : i \in 0..NA-1} \cup SlicesOf \cup {R(i) : i \in 0..NA-2}

(* layout B: objects o of struct{In struct{V any}; X any}, pointers i to      *)
(* their first field, p to its first field, and a map m                       *)
ShapesB == ("o0" :> <<T("a:2:{s:2:\"In\";a:1:{s:1:\"V\";"), C(1), T("}s:1:\"X\";"), C(2), T("}")>>)
        @@ ("o1" :> <<T("a:2:{s:2:\"In\";a:1:{s:1:\"V\";"), C(3), T("}s:1:\"X\";i:7;}")>>)
        @@ ("i0" :> <<T("a:1:{s:1:\"V\";"), C(1), T("}")>>)
        @@ ("i1" :> <<T("a:1:{s:1:\"V\";"), C(3), T("}")>>)
        @@ ("p0" :> <<C(1)>>)
        @@ ("m0" :> <<T("a:1:{s:1:\"k\";"), C(4), T("}")>>)

(* layout C: an array of two struct{A *T; B []T}                              *)
TC(k) == <<T("a:2:{s:1:\"A\";"), C(2 * k + 1), T("s:1:\"B\";"), C(2 * k + 2), T("}")>>
ShapesC == ("p0" :> TC(0)) @@ ("p1" :> TC(1)) @@ ("s00" :> <<T("a:0:{}")>>)
        @@ ("s01" :> <<T("a:1:{i:0;")>> \o TC(0) \o <<T("}")>>)
        @@ ("s12" :> <<T("a:1:{i:0;")>> \o TC(1) \o <<T("}")>>)
        @@ ("s02" :> <<T("a:2:{i:0;")>> \o TC(0) \o <<T("i:1;")>> \o TC(1) \o <<T("}")>>)

(* layout D: type S []S, an array of three of them *)
ShapesD == [r \in {S(i, j) : i \in 0..NA-1, j \in 0..NA} |->
              LET q == CHOOSE q \in (0..NA-1) \X (0..NA) : r = S(q[1], q[2]) IN List(q[1], q[2])]
UsedD == SlicesOf

(* layout E: type M map[string]M, two of them, and the empty map *)
ShapesE == ("m0" :> <<T("a:1:{s:1:\"k\";"), C(1), T("}")>>) @@ ("m1" :> <<T("a:1:{s:1:\"k\";"), C(2), T("}")>>) @@ ("e" :> <<T("a:0:{}")>>)

(* layout F: two objects of type U struct{M map[string]*U; I any; R [1]*U};   *)
(* m0, m1 are their maps                                                      *)
UF(k) == <<T("a:3:{s:1:\"M\";a:1:{s:1:\"k\";"), C(3 * k + 1), T("}s:1:\"I\";"), C(3 * k + 2), T("s:1:\"R\";a:1:{i:0;"), C(3 * k + 3), T("}}")>>
MF(k) == <<T("a:1:{s:1:\"k\";"), C(3 * k + 1), T("}")>>
ShapesF == ("u0" :> UF(0)) @@ ("u1" :> UF(1)) @@ ("m0" :> MF(0)) @@ ("m1" :> MF(1))

Shape(r) == CASE Layout = "A" -> ShapesA[r] [] Layout = "B" -> ShapesB[r] [] Layout = "C" -> ShapesC[r]
              [] Layout = "D" -> ShapesD[r] [] Layout = "E" -> ShapesE[r] [] OTHER -> ShapesF[r]

Graphs ==
    CASE Layout = "A" -> [1..NA -> UsedA \cup {"7", "x"}]
      [] Layout = "B" -> [1..4 -> DOMAIN ShapesB \cup {"7", "x"}]
      [] Layout = "C" -> {g \in [1..4 -> DOMAIN ShapesC \cup {"N"}] :
                            /\ g[1] \in {"N", "p0", "p1"} /\ g[3] \in {"N", "p0", "p1"}
                            /\ g[2] \notin {"p0", "p1"} /\ g[4] \notin {"p0", "p1"}}
      [] Layout = "D" -> [1..NA -> UsedD \cup {"N"}]
      [] Layout = "E" -> [1..2 -> {"m0", "m1", "e", "N"}]
      [] OTHER -> {g \in [1..6 -> {"u0", "u1", "m0", "m1", "7", "x", "N"}] :
                     /\ \A k \in {1, 3, 4, 6} : g[k] \in {"u0", "u1", "N"}
                     /\ \A k \in {2, 5} : g[k] # "N"}
Roots == CASE Layout = "A" -> UsedA
           [] Layout = "D" -> UsedD
           [] Layout = "B" -> DOMAIN ShapesB
           [] Layout = "C" -> DOMAIN ShapesC
           [] Layout = "E" -> {"m0", "m1"}
           [] OTHER -> {"u0", "u1", "m0", "m1"}

------------------------------------------------------------------------------
VARIABLES g, root, out, stk, pc
vars == <<g, root, out, stk, pc>>
(* stk: [r, rest] of the references being written, innermost last *)

Init == /\ g \in Graphs /\ root \in Roots
        /\ out = "" /\ stk = <<[r |-> root, rest |-> Shape(root)]>> /\ pc = "run"

Top == stk[Len(stk)]
Inside == {stk[k].r : k \in 1..Len(stk)}
Rest(s) == [s EXCEPT ![Len(s)].rest = Tail(@)]

WriteText ==
    /\ pc = "run" /\ stk # << >> /\ Top.rest # << >> /\ Head(Top.rest).k = "t"
    /\ out' = out \o Head(Top.rest).s /\ stk' = Rest(stk)
    /\ UNCHANGED <<g, root, pc>>

Cell == g[Head(Top.rest).n]
AtCell == pc = "run" /\ stk # << >> /\ Top.rest # << >> /\ Head(Top.rest).k = "c"

WriteLeaf ==
    /\ AtCell /\ Cell \in {"N", "7"}
    /\ out' = out \o (IF Cell = "N" THEN "N;" ELSE "i:7;") /\ stk' = Rest(stk)
    /\ UNCHANGED <<g, root, pc>>

(* something that can not be encoded *)
Fail ==
    /\ AtCell /\ Cell = "x"
    /\ pc' = "failed" /\ UNCHANGED <<g, root, out, stk>>

Enter ==
    /\ AtCell /\ Cell \notin {"N", "7", "x"} /\ Cell \notin Inside
    /\ stk' = Append(Rest(stk), [r |-> Cell, rest |-> Shape(Cell)])
    /\ UNCHANGED <<g, root, out, pc>>

Recursive ==
    /\ AtCell /\ Cell \in Inside
    /\ pc' = "cyclic" /\ UNCHANGED <<g, root, out, stk>>

Leave ==
    /\ pc = "run" /\ stk # << >> /\ Top.rest = << >>
    /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
    /\ UNCHANGED <<g, root, out, pc>>

Done == pc = "run" /\ stk = << >> /\ pc' = "ok" /\ UNCHANGED <<g, root, out, stk>>

Next == WriteText \/ WriteLeaf \/ Fail \/ Enter \/ Recursive \/ Leave \/ Done
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Independent of the machine: can a reference be reached from itself         *)
Succ(r) == {g[Shape(r)[k].n] : k \in {j \in 1..Len(Shape(r)) : Shape(r)[j].k = "c"}} \ {"N", "7", "x"}
RECURSIVE Reach(_, _)
Reach(front, seen) == IF front = {} THEN seen ELSE LET n == (UNION {Succ(r) : r \in front}) \ seen IN Reach(n, seen \cup n)
Cyclic == \E r \in {root} \cup Reach({root}, {}) : r \in Reach({r}, {})

Fails == \E r \in {root} \cup Reach({root}, {}) : \E k \in 1..Len(Shape(r)) : Shape(r)[k].k = "c" /\ g[Shape(r)[k].n] = "x"
CyclicIffRejected == /\ pc = "cyclic" => Cyclic
                     /\ pc = "failed" => Fails
                     /\ pc = "ok" => ~Cyclic /\ ~Fails
(* the guard bounds the recursion: no reference is entered twice *)
GuardBounds == Cardinality(Inside) = Len(stk)
EndsSomehow == pc = "run" => ENABLED Next

Printed == pc # "run" => PrintT("G " \o Layout \o " " \o root \o " " \o pc \o " "
                                 \o (LET L == Len(g) IN
                                     g[1] \o "," \o g[2] \o (IF L > 2 THEN "," \o g[3] ELSE "") \o (IF L > 3 THEN "," \o g[4] ELSE "")
                                     \o (IF L > 4 THEN "," \o g[5] \o "," \o g[6] ELSE ""))
                                 \o " " \o (IF pc = "ok" THEN out ELSE "-"))
=============================================================================
