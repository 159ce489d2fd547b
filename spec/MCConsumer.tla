----------------------------- MODULE MCConsumer -----------------------------
(* The implementation-shaped plain consumer against the abstract answers, for
   every document of a universe and every query or history of queries.       *)
EXTENDS ConsumerImpl, TLC, Json

CONSTANTS N,         \* segments per document
          Universe,  \* "gen", "orig", "small"
          K,         \* length of a history; 0: every single query of every document
          Kinds,     \* kinds of steps: subset of {"orig","genpos","allpos","each","spans","bad","content"}
          Ending     \* "none" or "fresh"

O(s, l, c, n) == Some([s |-> s, l |-> l, c |-> c, n |-> n])
S(gl, gc, o) == [gl |-> gl, gc |-> gc, o |-> o]

Segs ==
    CASE Universe = "gen"   -> {S(gl, gc, o) : gl \in {1, 2}, gc \in {0, 1, 3}, o \in {None, O(0, 1, 0, None)}}
      [] Universe = "orig"  -> {S(1, 0, o) : o \in {O(s, l, c, None) : s \in {0, 1}, l \in {1, 2}, c \in {0, 2}} \cup {None}}
      [] Universe = "small" -> {S(1, 0, O(0, 2, 1, Some(1))), S(1, 2, O(1, 1, 0, None)), S(1, 2, O(1, 1, 0, Some(0))), S(1, 4, None),
                                S(2, 1, O(0, 1, 3, Some(0))), S(3, 0, O(0, 2, 1, None))}

(* "orig": the generated column only numbers the segments *)
Docs ==
    LET seqs == UNION {[1..n -> Segs] : n \in 0..N}
    IN  IF Universe = "orig"
        THEN {[i \in DOMAIN q |-> [q[i] EXCEPT !.gc = 2 * i]] : q \in seqs}
        ELSE {q \in seqs : SortedBy(q, GenLe)}

Sources == <<"s0", "s1">>
Names == <<"n0", "n1">>
DocOf(q, tail) == [version |-> 3, file |-> None, root |-> None, sources |-> Some(Sources), names |-> Some(Names),
             m |-> Some(EncodeText(q) \o tail), contents |-> Some(<<Some("text 0"), None>>), sections |-> None]

VARIABLES b,     \* the abstract consumer
          c,     \* the implementation
          h,     \* history of queries
          good   \* the last answer is one the abstract consumer may give
vars == <<b, c, h, good>>

Init == /\ \E q \in Docs : b = MkBasic(DocOf(q, <<>>), Sources)
        /\ c = ImNew /\ h = <<>> /\ good = TRUE

MaxCol == IF Universe = "orig" THEN 3 ELSE 4
Lines == 1..3
Cols == IF Universe = "small" THEN {0, 1, 2, 3} ELSE 0..MaxCol
Biases == IF Universe = "small" THEN {0, 2} ELSE {0, 1, 2}
Srcs == Sources \o <<"nope.js">>

Queries ==
    UNION {
      IF "orig" \in Kinds THEN {[op |-> "orig", h |-> "c", line |-> l, col |-> k, bias |-> x] : l \in Lines, k \in Cols, x \in Biases} ELSE {},
      IF "genpos" \in Kinds THEN {[op |-> "genpos", h |-> "c", src |-> s, line |-> l, col |-> k, bias |-> x] : s \in SetOf(Srcs), l \in Lines, k \in Cols, x \in Biases} ELSE {},
      IF "allpos" \in Kinds THEN {[op |-> "allpos", h |-> "c", src |-> s, line |-> l, col |-> k] : s \in SetOf(Srcs), l \in Lines, k \in {None} \cup {Some(z) : z \in Cols}} ELSE {},
      IF "each" \in Kinds THEN {[op |-> "each", h |-> "c", ord |-> o] : o \in {"gen", "orig"}} ELSE {},
      IF "bad" \in Kinds THEN {[op |-> "orig", h |-> "c", line |-> l, col |-> k, bias |-> 0] : l \in {-1, 0}, k \in {0, 1}}
                              \cup {[op |-> "orig", h |-> "c", line |-> 1, col |-> -1, bias |-> 2]}
                              \cup {[op |-> "genpos", h |-> "c", src |-> s, line |-> p[1], col |-> p[2], bias |-> 1] : s \in SetOf(Srcs), p \in {<<0, 0>>, <<1, -1>>, <<-3, -1>>}}
                              \cup {[op |-> "allpos", h |-> "c", src |-> s, line |-> p[1], col |-> p[2]] : s \in SetOf(Srcs), p \in {<<0, None>>, <<0, Some(0)>>, <<1, Some(-1)>>}} ELSE {} }

(* a handful of each kind, for histories *)
Few == {[op |-> "orig", h |-> "c", line |-> 1, col |-> 3, bias |-> 0], [op |-> "orig", h |-> "c", line |-> 2, col |-> 0, bias |-> 2],
        [op |-> "genpos", h |-> "c", src |-> "s0", line |-> 2, col |-> 1, bias |-> 0],
        [op |-> "genpos", h |-> "c", src |-> "s1", line |-> 2, col |-> 0, bias |-> 1],
        [op |-> "allpos", h |-> "c", src |-> "s0", line |-> 1, col |-> None],
        [op |-> "allpos", h |-> "c", src |-> "s1", line |-> 1, col |-> Some(0)],
        [op |-> "each", h |-> "c", ord |-> "gen"], [op |-> "each", h |-> "c", ord |-> "orig"]}
       \cup (IF "bad" \in Kinds THEN {[op |-> "orig", h |-> "c", line |-> 0, col |-> 0, bias |-> 0],
                                      [op |-> "genpos", h |-> "c", src |-> "s0", line |-> 1, col |-> -1, bias |-> 0],
                                      [op |-> "allpos", h |-> "c", src |-> "nope.js", line |-> 1, col |-> None]} ELSE {})
       \cup (IF "content" \in Kinds THEN {[op |-> "content", h |-> "c", src |-> "s0", panic |-> None],
                                          [op |-> "content", h |-> "c", src |-> "nope.js", panic |-> None],
                                          [op |-> "sources", h |-> "c"]} ELSE {})

Ask == IF K = 0 THEN Queries ELSE Few
Going == Len(h) < (IF K = 0 THEN 1 ELSE K)

OutOfDomain(q) == CASE q.op \in {"orig", "genpos"} -> q.line < 1 \/ q.col < 0
                    [] q.op = "allpos" -> q.line < 1 \/ (IsSome(q.col) /\ Get(q.col) < 0)
                    [] OTHER -> FALSE
SrcIx(q) == KnownAs(b.src, q.src)
Refused(q) == (q.op \in {"genpos", "allpos"} => SrcIx(q) # 0) /\ OutOfDomain(q)

EndFine(spans, r) == LET E == EndsAt(b.segs, r.gl, r.gc) IN r.e \in E \/ (~spans /\ r.e = None)

Strip1(a) == IF IsNone(a) THEN None ELSE Some(NoEnd(Get(a)))

Query(q) ==
    /\ Going
    /\ b' = b
    /\ h' = Append(h, q)
    /\ IF Refused(q) \/ q.op \in {"content", "sources"} THEN c' = c /\ good' = TRUE
       ELSE CASE q.op = "orig" ->
                 /\ c' = ImParse(c, b)
                 /\ good' = \A f \in ImOrig(c', q.line, q.col, q.bias) :
                       LET a == IF IsNone(f) THEN None ELSE Some(Reported(b, Get(f)))
                       IN  /\ Strip1(a) \in OrigAnswers(b, q.line, q.col, q.bias)
                           /\ IsSome(a) => EndFine(c'.outer, Get(a))
            [] q.op = "genpos" ->
                 IF SrcIx(q) = 0 THEN c' = c /\ good' = TRUE
                 ELSE /\ c' = ImSort(ImBuckets(ImParse(c, b)), SrcIx(q))
                      /\ good' = \A f \in ImGen(c', SrcIx(q), q.line, q.col, q.bias) :
                           LET a == IF IsNone(f) THEN None ELSE Some(Reported(b, Get(f)))
                           IN  /\ Strip1(a) \in GenAnswers(b, SrcIx(q) - 1, q.line, q.col, q.bias)
                               /\ IsSome(a) => EndFine(c'.outer, Get(a))
            [] q.op = "allpos" ->
                 IF SrcIx(q) = 0 THEN c' = c /\ good' = TRUE
                 ELSE /\ c' = ImSort(ImBuckets(ImParse(c, b)), SrcIx(q))
                      /\ LET r == ImAll(c', SrcIx(q), q.line, q.col)
                         IN  good' = /\ SameBag(SeqMap(r, RawNoEnd), AllBag(b, SrcIx(q) - 1, q.line, q.col))
                                     /\ \A i \in DOMAIN r : EndFine(c'.outer, r[i])
            [] q.op = "each" ->
                 /\ c' = IF q.ord = "gen" THEN ImParse(c, b) ELSE ImSortAll(ImBuckets(ImParse(c, b)))
                 /\ LET r == ImEach(c', q.ord)
                    IN  good' = /\ GoodVisit(b, q.ord, SeqMap(r, RawNoEnd))
                                /\ \A i \in DOMAIN r : EndFine(c'.outer, r[i])


Spans == /\ Going /\ "spans" \in Kinds
         /\ c' = ImSpans(c, b) /\ good' = TRUE /\ UNCHANGED b
         /\ h' = Append(h, [op |-> "spans", h |-> "c"])

(* ---- what is replayed on the code ---- *)
NewOp(hn, tail) == [op |-> "new", h |-> hn, ctor |-> "create", doc |-> DocOf(b.segs, tail), url |-> None]
Tagged(ops) == SeqMap(ops, LAMBDA e : IF e.op = "spans" THEN e ELSE [d |-> "D"] @@ e)
QS == SelectSeq(h, LAMBDA e : e.op # "spans")
Fresh == FlattenSeq([k \in DOMAIN QS |-> <<NewOp("f", <<>>), [QS[k] EXCEPT !.h = "f"]>>])
Broken == <<33>>            \* a character that is no base64 digit
Replay == IF K = 0
          THEN <<NewOp("c", <<>>)>> \o SetToSeq(Queries)
               \o (IF Ending = "broken" THEN <<NewOp("c", Broken)>> \o SetToSeq(Queries) ELSE <<>>)
          ELSE <<NewOp("c", <<>>)>> \o h \o (IF Ending = "fresh" THEN Reverse(QS) \o Fresh ELSE <<>>)

Done == /\ IF K = 0 THEN h = <<>> ELSE Len(h) = K
        /\ PrintT("SCN " \o ToJson(Tagged(Replay)))
        /\ h' = Append(h, [op |-> "end"]) /\ UNCHANGED <<b, c, good>>

Next == (\E q \in Ask : Query(q)) \/ Spans \/ Done
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Decodes == b.ok                                     \* encoder and decoder agree
Right == good
Parsed == IsSome(c.gen) => SameBag(SeqMap(Get(c.gen), RawNoEnd), b.segs) /\ SortedBy(Get(c.gen), GenLe)
Bucketed == IsSome(c.buckets) =>
    /\ c.inner                        \* copies are made only once ends are known
    /\ SameBag(SeqMap(FlattenSeq([k \in DOMAIN Get(c.buckets) |-> Items(c, k)]), RawNoEnd), WithOrig(b.segs))
SpansKnown == c.outer => c.inner
=============================================================================
