----------------------------- MODULE Generator ------------------------------
(* The generator as an abstract object: what has been added, and what any
   document it emits has to contain.

   A mapping is [gl, gc, o, s, n]: generated line (1-based) and column,
   o = None or Some([l, c]), s and n optional strings.                       *)
EXTENDS SourceMapText, Lookup

GenNew(file, root, skip) ==
    [k |-> "gen", file |-> file, root |-> root, skip |-> skip,
     added   |-> <<>>,    \* accepted mappings, in order of addition
     invalid |-> FALSE,   \* an invalid mapping was accepted (validation skipped)
     refused |-> 0,       \* number of refused additions
     contents |-> <<>>,   \* calls set_source_content: [src, c]
     last    |-> None]    \* text of the last serialization, if nothing changed since

ValidMapping(m) ==
    /\ m.gl >= 1 /\ m.gc >= 0
    /\ IF IsNone(m.o) THEN IsNone(m.s) /\ IsNone(m.n)
       ELSE IsSome(m.s) /\ Get(m.o).l >= 1 /\ Get(m.o).c >= 0

Accepts(g, m) == g.skip \/ ValidMapping(m)

GenAdd(g, m) == IF Accepts(g, m)
                THEN [g EXCEPT !.added = Append(@, m), !.invalid = @ \/ ~ValidMapping(m), !.last = None]
                ELSE [g EXCEPT !.refused = @ + 1]

GenContent(g, src, c) == [g EXCEPT !.contents = Append(@, [src |-> src, c |-> c]), !.last = None]

------------------------------------------------------------------------------
(* tables, in order of first use *)
UsedSources(g) == Distinct(FlattenSeq(SeqMap(g.added, LAMBDA m : m.s)))
UsedNames(g)   == Distinct(FlattenSeq(SeqMap(g.added, LAMBDA m : m.n)))

(* latest content set for a source, None if none or removed *)
ContentOf(g, src) == FoldLeft(LAMBDA a, x : IF x.src = src THEN x.c ELSE a, None, g.contents)

AnyContent(g) == \E i \in DOMAIN g.contents : IsSome(ContentOf(g, g.contents[i].src))

ExpectedContents(g, sources) ==
    IF AnyContent(g) THEN Some([i \in DOMAIN sources |-> ContentOf(g, sources[i])]) ELSE None

(* a decoded segment with its indices looked up in the emitted tables; an index
   outside the tables gives a mapping that was never added                   *)
Inflate(seg, sources, names) ==
    LET look(t, k) == IF k + 1 \in DOMAIN t THEN t[k + 1] ELSE "<index out of range>"
    IN  IF IsNone(seg.o) THEN [gl |-> seg.gl, gc |-> seg.gc, o |-> None, s |-> None, n |-> None]
        ELSE LET o == Get(seg.o)
             IN  [gl |-> seg.gl, gc |-> seg.gc, o |-> Some([l |-> o.l, c |-> o.c]),
                  s |-> Some(look(sources, o.s)),
                  n |-> IF IsNone(o.n) THEN None ELSE Some(look(names, Get(o.n)))]

(* the segments a consumer of this generator's document has to hold *)
IndexedSeg(m, sources, names) ==
    [gl |-> m.gl, gc |-> m.gc,
     o  |-> IF IsNone(m.o) THEN None
            ELSE Some([s |-> FirstIndex(sources, Get(m.s)) - 1, l |-> Get(m.o).l, c |-> Get(m.o).c,
                       n |-> IF IsNone(m.n) THEN None ELSE Some(FirstIndex(names, Get(m.n)) - 1)])]

Segments(g) == LET ss == UsedSources(g) ns == UsedNames(g)
               IN  SeqMap(g.added, LAMBDA m : IndexedSeg(m, ss, ns))

DistinctPositions(g) == Cardinality({<<m.gl, m.gc>> : m \in SetOf(g.added)}) = Len(g.added)

------------------------------------------------------------------------------
(* Does an emitted document d = [version, sources, names, m, file, root,
   contents, keys, text] say what it must?                                   *)
Decoded(d) == LET t == DecodeText(d.m)
              IN  [ok |-> t.ok, ms |-> SeqMap(t.segs, LAMBDA x : Inflate(x, d.sources, d.names))]

TextFaithful(g, d) ==
    LET t == Decoded(d)
        A == SetOf(g.added)
    IN  /\ t.ok
        /\ SetOf(t.ms) = A
        /\ \/ Cardinality(A) = Len(t.ms)
           \/ \A x \in A : CountSeq(t.ms, LAMBDA y : y = x) <= CountSeq(g.added, LAMBDA y : y = x)
        /\ SortedBy(t.ms, GenLe)

HeaderExact(g, d) ==
    /\ d.version = 3
    /\ d.sources = UsedSources(g)
    /\ d.names = UsedNames(g)
    /\ d.file = g.file /\ d.root = g.root
    /\ {"file", "sourceRoot"} \cap SetOf(d.keys)
         = (IF IsSome(g.file) THEN {"file"} ELSE {}) \cup (IF IsSome(g.root) THEN {"sourceRoot"} ELSE {})

ContentsAligned(g, d) == d.contents = ExpectedContents(g, d.sources)
=============================================================================
