------------------------------- MODULE Lookup -------------------------------
(* What a source map means: the answers its segments give to every query.
   Segments are as in SourceMapText: [gl, gc, o], o = None or Some([s,l,c,n]).
   Where several segments sit at the same position the meaning is
   nondeterministic (any of them), so answers are sets of segment indices.
   bias: 0 default, 1 greatest lower bound, 2 least upper bound.             *)
EXTENDS Common

Lub == 2

(* the member of non-empty set of integers T closest from the chosen side *)
Closest(T, bias) == IF bias = Lub THEN CHOOSE x \in T : \A y \in T : x <= y
                                  ELSE FoldSet(LAMBDA a, b : IF a > b THEN a ELSE b, CHOOSE x \in T : TRUE, T)

(* candidate keys for query q among the keys K *)
Eligible(K, q, bias) == IF q \in K THEN {q}
                        ELSE IF bias = Lub THEN {x \in K : x > q} ELSE {x \in K : x < q}

------------------------------------------------------------------------------
(* original_position_for: on the line, at the column, else the nearest before
   (or after) on the same line                                               *)
OrigIdx(segs, gl, gc, bias) ==
    LET L == {i \in DOMAIN segs : segs[i].gl = gl}
        T == Eligible({segs[i].gc : i \in L}, gc, bias)
    IN  IF T = {} THEN {} ELSE LET b == Closest(T, bias) IN {i \in L : segs[i].gc = b}

(* generated_position_for: same source, nearest original position in line then
   column order                                                              *)
OfSource(segs, s) == {i \in DOMAIN segs : IsSome(segs[i].o) /\ Get(segs[i].o).s = s}

GenIdx(segs, s, l, c, bias) ==
    LET S  == OfSource(segs, s)
        ol(i) == Get(segs[i].o).l
        oc(i) == Get(segs[i].o).c
        exact == {i \in S : ol(i) = l /\ oc(i) = c}
        side  == IF bias = Lub THEN {i \in S : PairLt(l, c, ol(i), oc(i))}
                               ELSE {i \in S : PairLt(ol(i), oc(i), l, c)}
    IN  IF exact # {} THEN exact
        ELSE IF side = {} THEN {}
        ELSE LET bl == Closest({ol(i) : i \in side}, bias)
                 onl == {i \in side : ol(i) = bl}
                 bc == Closest({oc(i) : i \in onl}, bias)
             IN  {i \in onl : oc(i) = bc}

(* all_generated_position_for: co = None or Some(column) *)
AllIdx(segs, s, l, co) ==
    LET S  == OfSource(segs, s)
        ol(i) == Get(segs[i].o).l
        oc(i) == Get(segs[i].o).c
    IN  IF IsNone(co)
        THEN LET T == {ol(i) : i \in {j \in S : ol(j) >= l}}
             IN  IF T = {} THEN {} ELSE {i \in S : ol(i) = Closest(T, Lub)}
        ELSE LET on == {i \in S : ol(i) = l /\ oc(i) >= Get(co)}
             IN  IF on = {} THEN {}
                 ELSE LET bc == Closest({oc(i) : i \in on}, Lub) IN {i \in on : oc(i) = bc}

------------------------------------------------------------------------------
(* The exclusive end of a mapping at a position: the column of the next segment
   of the line, None for the last one. Among segments tied at one position all
   but one are followed by a segment of the same column.                     *)
EndsAt(segs, gl, gc) ==
    LET L == {i \in DOMAIN segs : segs[i].gl = gl}
        here  == {i \in L : segs[i].gc = gc}
        after == {segs[i].gc : i \in {j \in L : segs[j].gc > gc}}
    IN  (IF after = {} THEN {None} ELSE {Some(Closest(after, Lub))})
        \cup (IF Cardinality(here) > 1 THEN {Some(gc)} ELSE {})

------------------------------------------------------------------------------
SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ LET A == SetOf(a) IN
       /\ A = SetOf(b)
       /\ Cardinality(A) = Len(a) \/ \A x \in A : CountSeq(a, LAMBDA y : y = x) = CountSeq(b, LAMBDA y : y = x)

SortedBy(s, Le(_, _)) == \A i \in 1..(Len(s) - 1) : Le(s[i], s[i+1])

GenLe(a, b) == PairLe(a.gl, a.gc, b.gl, b.gc)
OrigLe(a, b) == LET x == Get(a.o) y == Get(b.o)
                IN  x.s < y.s \/ (x.s = y.s /\ PairLe(x.l, x.c, y.l, y.c))

WithOrig(segs) == SelectSeq(segs, LAMBDA m : IsSome(m.o))
=============================================================================
