------------------------------- MODULE Common -------------------------------
(* Values shared by every module: optional values are sequences of length 0
   or 1, so that they survive the trip through JSON unchanged.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

None    == <<>>
Some(x) == <<x>>
IsNone(o) == Len(o) = 0
IsSome(o) == Len(o) = 1
Get(o) == o[1]

MaxInt == 2147483647
MinInt == -2147483647 - 1

(* number of positions of sequence s that satisfy P *)
CountSeq(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})

SetOf(s) == {s[i] : i \in DOMAIN s}

(* the least index of s holding x, 0 if there is none *)
FirstIndex(s, x) == SelectInSeq(s, LAMBDA y : y = x)

(* s without repetitions, in order of first occurrence *)
Distinct(s) ==
    LET N == Len(s)
        First == {i \in 1..N : \A j \in 1..(i-1) : s[j] # s[i]}
    IN  FoldLeft(LAMBDA acc, i : IF i \in First THEN Append(acc, s[i]) ELSE acc,
                 <<>>, [i \in 1..N |-> i])

SeqMap(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]

SumInt(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

(* lexicographic order on pairs of integers *)
PairLt(a1, a2, b1, b2) == a1 < b1 \/ (a1 = b1 /\ a2 < b2)
PairLe(a1, a2, b1, b2) == a1 < b1 \/ (a1 = b1 /\ a2 <= b2)
=============================================================================
