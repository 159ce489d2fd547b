----------------------------- MODULE Containers -----------------------------
(* The insertion-ordered set, the mapping list and the biased search as
   abstract objects.                                                         *)
EXTENDS Generator, TLC

(* --- insertion-ordered set: the sequence of insertions -------------------- *)
SetAdd(s, x, dup) == IF ~dup /\ FirstIndex(s, x) # 0 THEN s ELSE Append(s, x)
SetFrom(vals, dup) == FoldLeft(LAMBDA a, x : SetAdd(a, x, dup), <<>>, vals)
SetHas(s, x)   == FirstIndex(s, x) # 0
SetIndex(s, x) == IF SetHas(s, x) THEN Some(FirstIndex(s, x) - 1) ELSE None
SetAt(s, i)    == IF i >= 0 /\ i < Len(s) THEN Some(s[i + 1]) ELSE None
SetSize(s)     == Cardinality(SetOf(s))

(* n strings x0, x1, ... added one after another; none of them is held before *)
SetFill(s, x, n) == s \o [i \in 1..n |-> x \o ToString(i - 1)]

(* --- order of mappings ----------------------------------------------------
   Strings are compared by the position of their characters in code order.   *)
CodeOrder == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(CodeOrder, i, i) : i \in 1..Len(CodeOrder)} |->
             CHOOSE i \in 1..Len(CodeOrder) : SubSeq(CodeOrder, i, i) = ch]

Sign(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0

RECURSIVE StrSign(_, _)
StrSign(a, b) ==
    IF a = b THEN 0
    ELSE IF a = "" THEN -1 ELSE IF b = "" THEN 1
    ELSE LET x == SubSeq(a, 1, 1) y == SubSeq(b, 1, 1)
         IN  IF x = y THEN StrSign(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
             ELSE Sign(CodeOf[x], CodeOf[y])

(* an absent source or name comes last *)
OptSign(a, b) == IF a = b THEN 0 ELSE IF IsNone(a) THEN 1 ELSE IF IsNone(b) THEN -1 ELSE StrSign(Get(a), Get(b))

RECURSIVE FirstNonZero(_)
FirstNonZero(s) == IF s = <<>> THEN 0 ELSE IF s[1] # 0 THEN s[1] ELSE FirstNonZero(Tail(s))

MappingSign(a, b) ==
    FirstNonZero(<<Sign(a.gl, b.gl), Sign(a.gc, b.gc), OptSign(a.s, b.s)>>
        \o (IF IsSome(a.o) /\ IsSome(b.o)
            THEN <<Sign(Get(a.o).l, Get(b.o).l), Sign(Get(a.o).c, Get(b.o).c)>> ELSE <<>>)
        \o <<OptSign(a.n, b.n)>>)

(* --- biased search: smallest best index, -1 if there is none --------------- *)
SearchAnswer(hay, x, bias) ==
    LET T == Eligible(SetOf(hay), x, bias)
    IN  IF T = {} THEN -1 ELSE FirstIndex(hay, Closest(T, bias)) - 1
=============================================================================
