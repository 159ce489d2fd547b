------------------------------ MODULE Consumer ------------------------------
(* Consumers as abstract objects, and the answers they may give.

   A basic consumer holds its decoded segments, the reported source list, the
   names and contents tables and whether spans were computed. An indexed one
   holds sections [ol, oc, b]: 0-based offset and a basic consumer.          *)
EXTENDS SourceMapText, Lookup

OptOr(o, d) == IF IsNone(o) THEN d ELSE Get(o)

MkBasic(doc, reported) ==
    LET t == DecodeText(OptOr(doc.m, <<>>))
    IN  [k |-> "basic", ok |-> t.ok, segs |-> t.segs, src |-> reported,
         names |-> OptOr(doc.names, <<>>), contents |-> doc.contents,
         listed |-> OptOr(doc.sources, <<>>), root |-> doc.root, spans |-> FALSE]

Listed(doc) == OptOr(doc.sources, <<>>)

(* split the concatenated source list by the sections' own counts *)
RECURSIVE Parts(_, _)
Parts(docs, list) == IF docs = <<>> THEN <<>>
                     ELSE LET n == Len(Listed(docs[1]))
                          IN  <<SubSeq(list, 1, n)>> \o Parts(Tail(docs), SubSeq(list, n+1, Len(list)))

MkIndexed(doc, reported) ==
    LET secs == Get(doc.sections)
        docs == SeqMap(secs, LAMBDA x : x.doc)
        ps   == Parts(docs, reported)
    IN  [k |-> "indexed", spans |-> FALSE, src |-> reported,
         secs |-> [i \in DOMAIN secs |-> [ol |-> secs[i].ol, oc |-> secs[i].oc, b |-> MkBasic(docs[i], ps[i])]]]

SourceCount(doc) == IF IsNone(doc.sections) THEN Len(Listed(doc))
                    ELSE FoldLeft(LAMBDA a, x : a + Len(Listed(x.doc)), 0, Get(doc.sections))

MkConsumer(doc, reported) == IF IsSome(doc.sections) THEN MkIndexed(doc, reported) ELSE MkBasic(doc, reported)

(* an indexed document is acceptable by content alone *)
OffsetsOrdered(doc) ==
    LET s == Get(doc.sections)
    IN  \A i \in 1..(Len(s) - 1) : PairLe(s[i].ol, s[i].oc, s[i+1].ol, s[i+1].oc)
NoUrls(doc) == LET s == Get(doc.sections) IN \A i \in DOMAIN s : IsNone(s[i].url)
VersionsOK(doc) == doc.version = 3 /\ (IsNone(doc.sections) \/ \A x \in SetOf(Get(doc.sections)) : x.doc.version = 3)
Acceptable(doc) == doc.version = 3 /\ (IsNone(doc.sections) \/ (OffsetsOrdered(doc) /\ NoUrls(doc)))

------------------------------------------------------------------------------
(* answers of a basic consumer; "end" fields are judged separately *)
Answer(b, seg) ==
    LET o == Get(seg.o)
    IN  [gl |-> seg.gl, gc |-> seg.gc, o |-> Some([l |-> o.l, c |-> o.c]), s |-> Some(IF o.s + 1 \in DOMAIN b.src THEN b.src[o.s + 1] ELSE "<not reported>"),
         n |-> IF IsNone(o.n) THEN None ELSE Some(b.names[Get(o.n) + 1])]

NoEnd(a) == [gl |-> a.gl, gc |-> a.gc, o |-> a.o, s |-> a.s, n |-> a.n]
RawNoEnd(a) == [gl |-> a.gl, gc |-> a.gc, o |-> a.o]

AnswersFrom(b, I) == IF I = {} THEN {None}
                     ELSE {IF IsNone(b.segs[i].o) THEN None ELSE Some(Answer(b, b.segs[i])) : i \in I}

OrigAnswers(b, l, c, bias)   == AnswersFrom(b, OrigIdx(b.segs, l, c, bias))
GenAnswers(b, s, l, c, bias) == AnswersFrom(b, GenIdx(b.segs, s, l, c, bias))
AllAnswers(b, s, l, co)      == LET I == AllIdx(b.segs, s, l, co)
                                IN  SelectSeq([i \in DOMAIN b.segs |-> <<i, b.segs[i]>>], LAMBDA x : x[1] \in I)
AllBag(b, s, l, co) == SeqMap(AllAnswers(b, s, l, co), LAMBDA x : x[2])

(* position of a reported source name, 0 if unknown *)
KnownAs(list, src) == FirstIndex(list, src)

(* contents by position in the source list (1-based) *)
ContentAt(b, k) == IF IsNone(b.contents) THEN None
                   ELSE IF k \in DOMAIN Get(b.contents) THEN Get(b.contents)[k] ELSE None
HasAll(b) == \A k \in DOMAIN b.listed : IsSome(ContentAt(b, k))

------------------------------------------------------------------------------
(* sections *)
Before(sec, l, c) == PairLe(sec.ol + 1, sec.oc, l, c)
Governing(x, l, c) ==
    LET B == {i \in DOMAIN x.secs : Before(x.secs[i], l, c)}
    IN  {i \in B : \A j \in B : PairLe(x.secs[j].ol, x.secs[j].oc, x.secs[i].ol, x.secs[i].oc)}

ColShift(sec, line) == IF line = 1 THEN sec.oc ELSE 0     \* line within the section
ShiftPos(sec, m) == [m EXCEPT !.gl = @ + sec.ol, !.gc = @ + ColShift(sec, m.gl)]

(* answers of an indexed consumer for a generated position *)
IdxOrigAnswers(x, l, c, bias) ==
    LET G == Governing(x, l, c)
    IN  IF G = {} THEN {None}
        ELSE UNION {LET sec == x.secs[i]
                        rl  == l - sec.ol
                        A   == OrigAnswers(sec.b, rl, c - ColShift(sec, rl), bias)
                    IN  {IF IsNone(a) THEN None ELSE Some(ShiftPos(sec, Get(a))) : a \in A} : i \in G}

(* where each section lists a source: at[i] is its position there, 0 if it does
   not; looked up in the first section that lists it                         *)
Places(x, src) == [i \in DOMAIN x.secs |-> KnownAs(x.secs[i].b.src, src)]
SectionOf(at) == SelectInSeq(at, LAMBDA k : k # 0)

IdxGenAnswers(x, at, l, c, bias) ==
    LET i == SectionOf(at)
    IN  IF i = 0 THEN {None}
        ELSE LET sec == x.secs[i]
                 A == GenAnswers(sec.b, at[i] - 1, l, c, bias)
             IN  {IF IsNone(a) THEN None
                  ELSE LET p == ShiftPos(sec, Get(a)) IN Some([gl |-> p.gl, gc |-> p.gc]) : a \in A}

IdxAllBag(x, at, l, co) ==
    LET i == SectionOf(at)
    IN  IF i = 0 THEN <<>>
        ELSE LET sec == x.secs[i]
             IN  SeqMap(AllBag(sec.b, at[i] - 1, l, co), LAMBDA m : ShiftPos(sec, m))

(* what enumeration of an indexed map visits: one part per section *)
VisitedOf(b, ord) == IF ord = "gen" THEN b.segs ELSE WithOrig(b.segs)
VisitLe(ord, a, b) == IF ord = "gen" THEN GenLe(a, b) ELSE OrigLe(a, b)

GoodVisit(b, ord, v) == SameBag(v, VisitedOf(b, ord)) /\ SortedBy(v, LAMBDA p, q : VisitLe(ord, p, q))

RECURSIVE GoodIdxVisit(_, _, _)
GoodIdxVisit(secs, ord, v) ==
    IF secs = <<>> THEN v = <<>>
    ELSE LET sec == secs[1]
             want == VisitedOf(sec.b, ord)
             n == Len(want)
         IN  /\ Len(v) >= n
             /\ LET part == SubSeq(v, 1, n)
                    moved == SeqMap(want, LAMBDA m : ShiftPos(sec, m))
                IN  SameBag(part, moved) /\ SortedBy(part, LAMBDA p, q : VisitLe(ord, p, q))
             /\ GoodIdxVisit(Tail(secs), ord, SubSeq(v, n + 1, Len(v)))

------------------------------------------------------------------------------
(* Ends. A lookup by generated or original position and enumeration may report
   an end before spans are computed only if it is the right one.             *)
EndsBasic(b, gl, gc) == EndsAt(b.segs, gl, gc)

(* ends of section i's mapping at section position (gl, gc), in file columns,
   clipped where the next section starts on the line                         *)
RawEnds(sec, gl, gc) == {IF IsNone(e) THEN None ELSE Some(Get(e) + ColShift(sec, gl)) : e \in EndsAt(sec.b.segs, gl, gc)}
NextStart(x, i, line) == IF i + 1 \in DOMAIN x.secs /\ x.secs[i+1].ol + 1 = line THEN Some(x.secs[i+1].oc) ELSE None
ClippedEnds(x, i, gl, gc) ==
    LET sec == x.secs[i]
    IN  {IF IsNone(e) THEN NextStart(x, i, gl + sec.ol) ELSE e : e \in RawEnds(sec, gl, gc)}
=============================================================================
