------------------------------- MODULE MCSearch ------------------------------
(* The halving search with a bias, then the walk back over equal elements, as
   the code runs it, on every sorted array of up to N elements and every
   needle. Checked: the loop invariant, termination, and that the index found
   is the specified one. Every input is printed for replay on the code.      *)
EXTENDS Containers, TLC, Json

CONSTANTS N,       \* longest array
          V        \* elements are 0..V, needles -1..V+1

Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i+1]
Arrays == {s \in UNION {[1..n -> 0..V] : n \in 0..N} : Sorted(s)}

VARIABLES hay, x, bias, lo, hi, idx, pc
vars == <<hay, x, bias, lo, hi, idx, pc>>

At(i) == hay[i + 1]      \* 0-based, as in the code

Init == /\ hay \in Arrays /\ x \in -1..(V + 1) /\ bias \in {0, 1, 2}
        /\ lo = -1 /\ hi = Len(hay) /\ idx = -1
        /\ pc = IF hay = <<>> THEN "done" ELSE "halve"

Mid == (hi - lo) \div 2 + lo

Found(i) == idx' = i /\ pc' = (IF i < 0 THEN "done" ELSE "back") /\ UNCHANGED <<lo, hi>>

Halve ==
    /\ pc = "halve"
    /\ IF x = At(Mid) THEN Found(Mid)
       ELSE IF x > At(Mid)
       THEN IF hi - Mid > 1 THEN lo' = Mid /\ UNCHANGED <<hi, idx, pc>>
            ELSE IF bias = Lub THEN Found(IF hi < Len(hay) THEN hi ELSE -1)
            ELSE Found(Mid)
       ELSE IF Mid - lo > 1 THEN hi' = Mid /\ UNCHANGED <<lo, idx, pc>>
            ELSE IF bias = Lub THEN Found(Mid)
            ELSE Found(lo)
    /\ UNCHANGED <<hay, x, bias>>

Back ==
    /\ pc = "back"
    /\ IF idx > 0 /\ At(idx - 1) = At(idx) THEN idx' = idx - 1 /\ UNCHANGED pc
       ELSE pc' = "done" /\ UNCHANGED idx
    /\ UNCHANGED <<hay, x, bias, lo, hi>>

Next == Halve \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* indices at lo and below are smaller, at hi and above are greater *)
Bracket == pc = "halve" => /\ lo < Mid /\ Mid < hi
                           /\ \A i \in 0..lo : At(i) < x
                           /\ \A i \in hi..(Len(hay) - 1) : At(i) > x
Right == pc = "done" => idx = SearchAnswer(hay, x, bias)
Terminates == <>(pc = "done")

ASSUME \A s \in Arrays :
    PrintT("SCN " \o ToJson(SetToSeq({[op |-> "search", hay |-> s, needle |-> n, bias |-> b] : n \in -1..(V+1), b \in 0..2})))
=============================================================================
