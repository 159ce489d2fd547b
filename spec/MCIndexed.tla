----------------------------- MODULE MCIndexed ------------------------------
(* The implementation-shaped indexed consumer - a halving search over section
   offsets kept 1-based, walks over sections, shifts by offsets and clipping
   at the next section - against the abstract answers, for every list of
   sections of a universe and every query. Within a section the abstract plain
   consumer answers: MCConsumer shows that the plain code agrees with it.    *)
EXTENDS Consumer, TLC, Json

CONSTANTS NS,       \* sections, at most
          Lines, Cols, \* offsets
          Pool,     \* which section maps
          K,        \* length of histories; 0: every query of every document
          Kinds     \* kinds of queries

O(s, l, c, n) == Some([s |-> s, l |-> l, c |-> c, n |-> n])
S(gl, gc, o) == [gl |-> gl, gc |-> gc, o |-> o]

MapOf(i) ==
    CASE i = 1 -> [segs |-> <<>>, src |-> <<"s0">>, contents |-> None]
      [] i = 2 -> [segs |-> <<S(1, 0, O(0, 1, 0, None)), S(1, 2, O(0, 1, 4, Some(0)))>>, src |-> <<"s0">>, contents |-> Some(<<None>>)]
      [] i = 3 -> [segs |-> <<S(1, 1, O(1, 2, 0, None)), S(2, 0, O(0, 1, 0, None)), S(2, 2, None)>>, src |-> <<"s1", "s0">>, contents |-> Some(<<Some("c1"), Some("")>>)]
      [] i = 4 -> [segs |-> <<S(1, 0, None), S(1, 1, O(0, 3, 1, Some(0))), S(1, 1, O(0, 3, 1, None))>>, src |-> <<"s2">>, contents |-> Some(<<Some("c2")>>)]
      [] i = 6 -> [segs |-> <<S(2, 1, O(0, 1, 0, None)), S(3, 0, O(1, 1, 0, None))>>, src |-> <<"s0", "s1">>, contents |-> Some(<<Some("c0")>>)]

DocOf(i) == LET d == MapOf(i)
            IN  [version |-> 3, file |-> None, root |-> None, sources |-> Some(d.src), names |-> Some(<<"n0">>),
                 m |-> Some(EncodeText(d.segs)), contents |-> d.contents, sections |-> None]
Section(o, i) == [ol |-> o[1], oc |-> o[2], doc |-> DocOf(i), url |-> None]

Offsets == {<<p, q>> : p \in Lines, q \in Cols}
OffsetLists(n) == {f \in [1..n -> Offsets] : \A i \in 1..(n - 1) : PairLe(f[i][1], f[i][2], f[i+1][1], f[i+1][2])}

(* no mapping at or beyond the start of the section that follows its own *)
Separate(f, p) == \A i \in 1..(Len(f) - 1) : LET d == MapOf(p[i]) IN
    \A k \in DOMAIN d.segs :
        PairLt(d.segs[k].gl - 1 + f[i][1], d.segs[k].gc + (IF d.segs[k].gl = 1 THEN f[i][2] ELSE 0), f[i+1][1], f[i+1][2])

VARIABLES x,     \* the abstract consumer
          ids,   \* the sections' offsets and maps
          h, good, spans
vars == <<x, ids, h, good, spans>>

Doc == [version |-> 3, file |-> None, root |-> None, sources |-> None, names |-> None, m |-> None, contents |-> None,
        sections |-> Some([i \in DOMAIN ids.f |-> Section(ids.f[i], ids.p[i])])]
DocIn(f, p) == [version |-> 3, file |-> None, root |-> None, sources |-> None, names |-> None, m |-> None, contents |-> None,
                sections |-> Some([i \in DOMAIN f |-> Section(f[i], p[i])])]
Flat(p) == FlattenSeq([i \in DOMAIN p |-> MapOf(p[i]).src])

Init == /\ \E n \in 1..NS : \E f \in OffsetLists(n), p \in [1..n -> Pool] :
              /\ "each" \in Kinds => Separate(f, p)
              /\ ids = [f |-> f, p |-> p]
              /\ x = MkConsumer(DocIn(f, p), Flat(p))
        /\ h = <<>> /\ good = TRUE /\ spans = FALSE

------------------------------------------------------------------------------
(* ---- the code: offsets are kept 1-based ---- *)
Stored(i) == [l |-> x.secs[i].ol + 1, c |-> x.secs[i].oc + 1]
Cmp(l, c, i) == IF l # Stored(i).l THEN l - Stored(i).l ELSE c - (Stored(i).c - 1)

RECURSIVE Halve(_, _, _, _)
Halve(lo, hi, l, c) ==       \* 0-based bounds, greatest lower bound
    LET mid == (hi - lo) \div 2 + lo
        d == Cmp(l, c, mid + 1)
    IN  IF d = 0 THEN mid
        ELSE IF d > 0 THEN (IF hi - mid > 1 THEN Halve(mid, hi, l, c) ELSE mid)
        ELSE IF mid - lo > 1 THEN Halve(lo, mid, l, c) ELSE lo
RECURSIVE WalkBack(_)
WalkBack(i) == IF i > 0 /\ Stored(i) = Stored(i + 1) THEN WalkBack(i - 1) ELSE i
Search(l, c) == LET i == Halve(-1, Len(x.secs), l, c) IN IF i < 0 THEN -1 ELSE WalkBack(i)

ImOrig(l, c, bias) ==
    LET k == Search(l, c) + 1
    IN  IF k = 0 THEN {None}
        ELSE LET ls == Stored(k).l - 1
                 cs == IF Stored(k).l = l THEN Stored(k).c - 1 ELSE 0
             IN  {IF IsNone(a) THEN None ELSE Some([Get(a) EXCEPT !.gl = @ + ls, !.gc = @ + cs])
                    : a \in OrigAnswers(x.secs[k].b, l - ls, c - cs, bias)}

Lists(k, src) == KnownAs(x.secs[k].b.src, src) # 0
RECURSIVE FirstListing(_, _)
FirstListing(k, src) == IF k > Len(x.secs) THEN 0 ELSE IF Lists(k, src) THEN k ELSE FirstListing(k + 1, src)

Moved(k, m) == [m EXCEPT !.gl = @ + Stored(k).l - 1, !.gc = IF m.gl = 1 THEN @ + Stored(k).c - 1 ELSE @]
ImGen(src, l, c, bias) ==
    LET k == FirstListing(1, src)
    IN  IF k = 0 THEN {None}
        ELSE {IF IsNone(a) THEN None ELSE LET m == Moved(k, Get(a)) IN Some([gl |-> m.gl, gc |-> m.gc])
                : a \in GenAnswers(x.secs[k].b, KnownAs(x.secs[k].b.src, src) - 1, l, c, bias)}
ImAll(src, l, co) ==
    LET k == FirstListing(1, src)
    IN  IF k = 0 THEN <<>> ELSE SeqMap(AllBag(x.secs[k].b, KnownAs(x.secs[k].b.src, src) - 1, l, co), LAMBDA m : Moved(k, m))

(* enumeration: a section at a time, ends shifted and clipped *)
WithEnds(b) == [i \in DOMAIN b.segs |->
    [gl |-> b.segs[i].gl, gc |-> b.segs[i].gc, o |-> b.segs[i].o,
     e |-> IF i < Len(b.segs) /\ b.segs[i+1].gl = b.segs[i].gl THEN Some(b.segs[i+1].gc) ELSE None]]
ImVisit(k, ord) ==
    LET W == WithEnds(x.secs[k].b)
        V == IF ord = "gen" THEN W ELSE SortSeq(SelectSeq(W, LAMBDA m : IsSome(m.o)), LAMBDA p, q : OrigLe(p, q) /\ ~OrigLe(q, p))
        one(m) == LET c == IF m.gl = 1 THEN Stored(k).c - 1 ELSE 0
                      ln == m.gl + Stored(k).l - 1
                      e1 == IF ~spans THEN None ELSE IF IsSome(m.e) THEN Some(Get(m.e) + c) ELSE None
                      e2 == IF spans /\ IsNone(e1) /\ k < Len(x.secs) /\ ln = Stored(k + 1).l THEN Some(Stored(k + 1).c - 1) ELSE e1
                  IN  [gl |-> ln, gc |-> m.gc + c, o |-> m.o, e |-> e2]
    IN  SeqMap(V, one)
ImEach(ord) == FlattenSeq([k \in DOMAIN x.secs |-> ImVisit(k, ord)])

RECURSIVE ImContent(_, _)
ImContent(k, src) ==
    IF k > Len(x.secs) THEN None
    ELSE LET b == x.secs[k].b
             i == KnownAs(b.src, src)
             c == IF IsNone(b.contents) \/ i = 0 THEN None ELSE ContentAt(b, i)
         IN  IF IsSome(c) THEN c ELSE ImContent(k + 1, src)

------------------------------------------------------------------------------
AllSources == <<"s0", "s1", "s2", "nope">>
QLines == 0..(Max(Lines) + 4)
QCols == 0..(Max(Cols) + 3)

Queries ==
    UNION {
      IF "orig" \in Kinds THEN {[op |-> "orig", h |-> "c", line |-> l, col |-> c, bias |-> z] : l \in QLines \ {0}, c \in QCols, z \in {0, 1, 2}} ELSE {},
      IF "genpos" \in Kinds THEN {[op |-> "genpos", h |-> "c", src |-> s, line |-> l, col |-> c, bias |-> z] : s \in SetOf(AllSources), l \in 1..4, c \in {0, 1, 2, 5}, z \in {0, 2}} ELSE {},
      IF "allpos" \in Kinds THEN {[op |-> "allpos", h |-> "c", src |-> s, line |-> l, col |-> c] : s \in SetOf(AllSources), l \in 1..3, c \in {None, Some(0), Some(2)}} ELSE {},
      IF "each" \in Kinds THEN {[op |-> "each", h |-> "c", ord |-> o] : o \in {"gen", "orig"}} ELSE {},
      IF "content" \in Kinds THEN {[op |-> "content", h |-> "c", src |-> s, panic |-> p] : s \in SetOf(AllSources), p \in {None, Some(TRUE), Some(FALSE)}}
                                  \cup {[op |-> "hasall", h |-> "c"], [op |-> "sources", h |-> "c"]} ELSE {} }

Going == Len(h) < (IF K = 0 THEN 1 ELSE K)

(* an end lies after the mapping (or at it, when another one is there too), and
   is where the next mapping of the whole file or the next section starts     *)
EndFits(m) ==
    LET starts == {x.secs[i].oc : i \in {j \in DOMAIN x.secs : x.secs[j].ol + 1 = m.gl}}
        cols == UNION {LET sec == x.secs[i] IN {sec.b.segs[k].gc + ColShift(sec, sec.b.segs[k].gl)
                          : k \in {j \in DOMAIN sec.b.segs : sec.b.segs[j].gl + sec.ol = m.gl}} : i \in DOMAIN x.secs}
        later == {c \in starts \cup cols : c > m.gc}
    IN  IF later = {} THEN m.e \in {None, Some(m.gc)} ELSE m.e \in {Some(Min(later)), Some(m.gc)}

Query(q) ==
    /\ Going
    /\ UNCHANGED <<x, ids, spans>>
    /\ h' = Append(h, q)
    /\ good' = CASE q.op = "orig"   -> ImOrig(q.line, q.col, q.bias) \subseteq IdxOrigAnswers(x, q.line, q.col, q.bias)
                 [] q.op = "genpos" -> ImGen(q.src, q.line, q.col, q.bias) \subseteq IdxGenAnswers(x, Places(x, q.src), q.line, q.col, q.bias)
                 [] q.op = "allpos" -> SameBag(ImAll(q.src, q.line, q.col), IdxAllBag(x, Places(x, q.src), q.line, q.col))
                 [] q.op = "each"   -> LET v == ImEach(q.ord) IN
                                         /\ GoodIdxVisit(x.secs, q.ord, SeqMap(v, RawNoEnd))
                                         /\ \A i \in DOMAIN v : IF spans THEN EndFits(v[i]) ELSE v[i].e = None
                 [] q.op = "content" -> LET T == {i \in DOMAIN x.secs : LET b == x.secs[i].b k == KnownAs(b.src, q.src) IN k # 0 /\ IsSome(ContentAt(b, k))}
                                            b == x.secs[Min(T)].b
                                        IN  ImContent(1, q.src) = IF T = {} THEN None ELSE ContentAt(b, KnownAs(b.src, q.src))
                 [] OTHER -> TRUE

Spans == /\ Going /\ K > 0
         /\ spans' = TRUE /\ good' = TRUE /\ h' = Append(h, [op |-> "spans", h |-> "c"])
         /\ UNCHANGED <<x, ids>>

(* ---- what is replayed on the code ---- *)
Own == [i \in DOMAIN ids.f |-> "p" \o ToString(i)]
PartOps == [i \in DOMAIN ids.f |-> [op |-> "new", h |-> Own[i], ctor |-> "create", doc |-> DocOf(ids.p[i]), url |-> None]]
New == [op |-> "new", h |-> "c", ctor |-> "create", doc |-> Doc, url |-> None]
WithParts(e) == [parts |-> Own] @@ e
Replay == IF "content" \in Kinds THEN PartOps \o <<WithParts(New)>> \o SeqMap(SetToSeq(Queries), LAMBDA e : IF e.op = "sources" THEN WithParts(e) ELSE e)
          ELSE IF K = 0 THEN <<New>> \o SetToSeq(Queries)
          ELSE <<New>> \o h

Done == /\ IF K = 0 THEN h = <<>> ELSE Len(h) = K
        /\ PrintT("SCN " \o ToJson(Replay))
        /\ h' = Append(h, [op |-> "end"]) /\ UNCHANGED <<x, ids, good, spans>>

Next == (\E q \in Queries : Query(q)) \/ Spans \/ Done
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Right == good
(* the search finds a governing section *)
Governs == \A l \in QLines, c \in QCols :
    LET G == Governing(x, l, c) k == Search(l, c) + 1
    IN  h = <<>> => IF G = {} THEN k = 0 ELSE k \in G
Decodes == \A i \in DOMAIN x.secs : x.secs[i].b.ok /\ x.secs[i].b.segs = MapOf(ids.p[i]).segs
=============================================================================
