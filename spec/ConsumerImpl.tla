---------------------------- MODULE ConsumerImpl ----------------------------
(* A plain consumer as the code runs it: the mappings are parsed on the first
   query, sorted by generated position; buckets by source are made from copies
   on the first query by original position (which also computes the spans
   inside, because copies made earlier would never get them); every bucket is
   sorted when first used. Where equal elements make a binary search or an
   unstable sort arbitrary, the result is the set of everything possible.    *)
EXTENDS Consumer

Entry(seg) == [gl |-> seg.gl, gc |-> seg.gc, o |-> seg.o, e |-> None]

ImNew == [gen |-> None, inner |-> FALSE, outer |-> FALSE, buckets |-> None]

ImParse(c, b) == IF IsSome(c.gen) THEN c
                 ELSE [c EXCEPT !.gen = Some(SortSeq(SeqMap(b.segs, Entry), LAMBDA p, q : PairLt(p.gl, p.gc, q.gl, q.gc)))]

ImInner(c) ==
    IF c.inner THEN c
    ELSE LET G == Get(c.gen)
         IN  [c EXCEPT !.inner = TRUE,
                       !.gen = Some([i \in DOMAIN G |->
                            IF i < Len(G) /\ G[i+1].gl = G[i].gl THEN [G[i] EXCEPT !.e = Some(G[i+1].gc)] ELSE G[i]])]

SourceOf(x) == Get(x.o).s
ImBuckets(c0) ==
    IF IsSome(c0.buckets) THEN c0
    ELSE LET c == ImInner(c0)
             W == WithOrig(Get(c.gen))
             top == IF W = <<>> THEN 0 ELSE Max({SourceOf(W[i]) : i \in DOMAIN W}) + 1
         IN  [c EXCEPT !.buckets = Some([k \in 1..top |->
                 [sorted |-> FALSE, items |-> SelectSeq(W, LAMBDA x : SourceOf(x) = k - 1)]])]

OrigLt(p, q) == PairLt(Get(p.o).l, Get(p.o).c, Get(q.o).l, Get(q.o).c)
ImSort(c, k) == IF k \notin DOMAIN Get(c.buckets) \/ Get(c.buckets)[k].sorted THEN c
                ELSE [c EXCEPT !.buckets[1][k] = [sorted |-> TRUE, items |-> SortSeq(@.items, OrigLt)]]
ImSortAll(c) == [c EXCEPT !.buckets[1] = [k \in DOMAIN @ |-> [sorted |-> TRUE,
                     items |-> IF @[k].sorted THEN @[k].items ELSE SortSeq(@[k].items, OrigLt)]]]

Items(c, k) == IF k \in DOMAIN Get(c.buckets) THEN Get(c.buckets)[k].items ELSE <<>>

ImSpans(c0, b) == IF c0.outer THEN c0 ELSE [ImInner(ImParse(c0, b)) EXCEPT !.outer = TRUE]

------------------------------------------------------------------------------
(* binary search in a sorted sequence: equal positions, or where it would go *)
Equal(s, Eq(_)) == {i \in DOMAIN s : Eq(s[i])}
Insertion(s, Lt(_)) == Cardinality({i \in DOMAIN s : Lt(s[i])})    \* 0-based

AtMost(s, i) == IF i \in DOMAIN s THEN {Some(s[i])} ELSE {None}

(* results are sets of optional entries *)
ImOrig(c, l, col, bias) ==
    LET G == Get(c.gen)
        eq == Equal(G, LAMBDA x : x.gl = l /\ x.gc = col)
        ins == Insertion(G, LAMBDA x : PairLt(x.gl, x.gc, l, col))
        found == IF eq # {} THEN {Some(G[i]) : i \in eq}
                 ELSE IF bias = Lub THEN AtMost(G, ins + 1) ELSE AtMost(G, ins)
    IN  {IF IsSome(f) /\ Get(f).gl = l /\ IsSome(Get(f).o) THEN f ELSE None : f \in found}

(* at the end of a bucket the search slides into a neighbouring one, whose
   mapping the wrapper then refuses because it is another source's           *)
RECURSIVE SlideUp(_, _), SlideDown(_, _)
SlideUp(c, k) == IF k \in DOMAIN Get(c.buckets) /\ Items(c, k) = <<>> THEN SlideUp(c, k + 1) ELSE k
SlideDown(c, k) == IF k > 1 /\ k \in DOMAIN Get(c.buckets) /\ Items(c, k) = <<>> THEN SlideDown(c, k - 1) ELSE k
FirstOf(c, k) == LET s == IF k \in DOMAIN Get(c.buckets) THEN ImSort(c, k) ELSE c IN AtMost(Items(s, k), 1)

ImGen(c, k, l, col, bias) ==          \* k: source index, 1-based
    LET S == Items(c, k)
        eq == Equal(S, LAMBDA x : Get(x.o).l = l /\ Get(x.o).c = col)
        ins == Insertion(S, LAMBDA x : PairLt(Get(x.o).l, Get(x.o).c, l, col))
        found == IF eq # {} THEN {Some(S[i]) : i \in eq}
                 ELSE IF bias = Lub
                      THEN IF ins = Len(S) THEN FirstOf(c, SlideUp(c, k + 1)) ELSE AtMost(S, ins + 1)
                      ELSE IF ins = 0 THEN (IF k = 1 THEN {None} ELSE FirstOf(c, SlideDown(c, k - 1)))
                           ELSE AtMost(S, ins)
    IN  {IF IsSome(f) /\ SourceOf(Get(f)) = k - 1 THEN f ELSE None : f \in found}

ImAll(c, k, l, co) ==
    LET S == Items(c, k)
        col == OptOr(co, 0)
        first == Insertion(S, LAMBDA x : PairLt(Get(x.o).l, Get(x.o).c, l, col)) + 1
    IN  IF first \notin DOMAIN S THEN <<>>
        ELSE LET wl == IF IsNone(co) THEN Get(S[first].o).l ELSE l
                 wc == Get(S[first].o).c
                 fits(x) == Get(x.o).l = wl /\ (IsNone(co) \/ Get(x.o).c = wc)
                 rest == SubSeq(S, first, Len(S))
                 stop == SelectInSeq(rest, LAMBDA x : ~fits(x))
             IN  IF stop = 0 THEN rest ELSE SubSeq(rest, 1, stop - 1)

ImEach(c, ord) == IF ord = "gen" THEN Get(c.gen)
                  ELSE FlattenSeq([k \in DOMAIN Get(c.buckets) |-> Items(c, k)])

------------------------------------------------------------------------------
(* what is reported *)
Reported(b, f) == [gl |-> f.gl, gc |-> f.gc, o |-> Some([l |-> Get(f.o).l, c |-> Get(f.o).c]),
                   s |-> Some(b.src[Get(f.o).s + 1]),
                   n |-> IF IsNone(Get(f.o).n) THEN None ELSE Some(b.names[Get(Get(f.o).n) + 1]), e |-> f.e]
=============================================================================
