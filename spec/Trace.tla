------------------------------- MODULE Trace --------------------------------
(* Trace validation. The file named by the environment variable TRACE holds one
   event per line: an operation of the crate's public API, its arguments and
   what the real code returned (r). Every event must be a step the specified
   objects can take; the answer of the operations that the property PROP talks
   about must be one the specification allows.

   The state is deterministic: every argument is logged, so the search is
   linear. A rejected event is printed and the rest of its scenario skipped.  *)
EXTENDS Containers, Consumer, Url, Document, TLC, Json, IOUtils

Asked == IOEnv.PROP
(* C29 puts histories of other properties side by side; each event is judged as
   the property it comes from has it                                         *)
PropOf(e) == IF Asked = "C29" THEN e.p ELSE Asked
Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next event
          st,     \* [objs: handle -> object, memo: key -> answer, docs: doc id -> sources]
          dead,   \* scenario being skipped
          judged  \* number of answers judged

vars == <<l, st, dead, judged>>

Fresh == [objs |-> <<>>, memo |-> <<>>]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Has(s, h) == h \in DOMAIN s.objs

Ok(e) == e.r.k = "ok"
Panicked(e) == e.r.k = "panic"
SetObj(s, h, o) == [s EXCEPT !.objs = Put(@, h, o)]

------------------------------------------------------------------------------
(* many mappings in one event: all valid *)
FillMappings(e) ==
    [k \in 1..e.n |->
        LET j == k - 1
        IN  [gl |-> 1 + (j \div e.per), gc |-> 3 * (j % e.per), o |-> Some([l |-> 1 + j, c |-> j % 7]),
             s |-> Some("s" \o ToString(j % e.pool)),
             n |-> IF e.npool > 0 THEN Some("n" \o ToString(j % e.npool)) ELSE None]]

(* A mapping given to the code may carry the end of its span; only a list keeps it. *)
Plain(m) == [gl |-> m.gl, gc |-> m.gc, o |-> m.o, s |-> m.s, n |-> m.n]
Whole(m) == [gl |-> m.gl, gc |-> m.gc, o |-> m.o, s |-> m.s, n |-> m.n,
             e |-> IF "e" \in DOMAIN m THEN m.e ELSE None]

(* ---- state after an event (arguments and success only, never its answer,
        except the reported source list, which names later answers) ---------- *)
Built(e) == Ok(e) /\ e.r.v.kind \in {"basic", "indexed"}

After(s, e) ==
    LET o == s.objs[e.h] IN
    CASE e.op = "gen_new"     -> SetObj(s, e.h, GenNew(e.file, e.root, e.skip))
      [] e.op = "gen_add"     -> SetObj(s, e.h, GenAdd(o, Plain(e.m)))
      [] e.op = "gen_fill"    -> SetObj(s, e.h, [o EXCEPT !.added = @ \o FillMappings(e), !.last = None])
      [] e.op = "gen_content" -> SetObj(s, e.h, GenContent(o, e.src, e.c))
      [] e.op = "gen_json"    -> IF Ok(e) THEN SetObj(s, e.h, [o EXCEPT !.last = Some(e.r.v.text)]) ELSE s
      [] e.op = "new"         -> IF Built(e) THEN SetObj(s, e.h, MkConsumer(e.doc, e.r.v.sources)) ELSE s
      [] e.op = "new_gen"     -> IF Built(e)
                                 THEN LET g == s.objs[e.g]
                                      IN  SetObj(s, e.h,
                                            [k |-> "basic", ok |-> TRUE, segs |-> Segments(g), src |-> e.r.v.sources,
                                             names |-> UsedNames(g), contents |-> ExpectedContents(g, UsedSources(g)),
                                             listed |-> UsedSources(g), root |-> g.root, spans |-> FALSE])
                                 ELSE s
      [] e.op = "spans"       -> IF Ok(e) THEN SetObj(s, e.h, [o EXCEPT !.spans = TRUE]) ELSE s
      [] e.op = "aset_new"    -> SetObj(s, e.h, [k |-> "aset", v |-> <<>>])
      [] e.op = "aset_from"   -> SetObj(s, e.h, [k |-> "aset", v |-> SetFrom(e.vals, e.dup)])
      [] e.op = "aset_clone"  -> SetObj(s, e.to, o)
      [] e.op = "aset_add"    -> SetObj(s, e.h, [o EXCEPT !.v = SetAdd(@, e.x, e.dup)])
      [] e.op = "aset_fill"   -> SetObj(s, e.h, [o EXCEPT !.v = SetFill(@, e.x, e.n)])
      [] e.op = "mlist_new"   -> SetObj(s, e.h, [k |-> "mlist", v |-> <<>>])
      [] e.op = "mlist_add"   -> SetObj(s, e.h, [o EXCEPT !.v = Append(@, Whole(e.m))])
      [] OTHER                -> s

------------------------------------------------------------------------------
(* ---- what a step must satisfy whatever the property ---------------------- *)
(* operations on valid arguments do not fail *)
StepOK(s, e) ==
    /\ e.r.k \in {"ok", "panic"}
    /\ e.op = "new" => (IF VersionsOK(e.doc) /\ Acceptable(e.doc)
                        THEN Built(e) /\ Len(e.r.v.sources) = SourceCount(e.doc)
                        ELSE TRUE)
    /\ e.op = "new_gen" => Built(e) /\ Len(e.r.v.sources) = Len(UsedSources(s.objs[e.g]))
    /\ e.op \in {"gen_new", "gen_fill", "aset_fill", "gen_content", "gen_json", "sources", "hasall", "aset_new", "aset_from", "aset_clone",
                 "aset_add", "mlist_new", "mlist_add"} => Ok(e)
    /\ (e.op = "gen_add" /\ Accepts(s.objs[e.h], e.m)) => Ok(e)
    /\ (e.op = "spans" /\ (s.objs[e.h].k = "indexed" \/ s.objs[e.h].ok)) => Ok(e)

------------------------------------------------------------------------------
(* ---- judges: for the events a property talks about ----------------------- *)
Strip(v) == SeqMap(v, NoEnd)
RawStrip(v) == SeqMap(v, RawNoEnd)

(* answers without span ends, as a string, to compare one query with another *)
Key(e) == CASE e.op = "orig"    -> ToString(<<"orig", e.line, e.col, e.bias>>)
            [] e.op = "genpos"  -> ToString(<<"genpos", e.src, e.line, e.col, e.bias>>)
            [] e.op = "allpos"  -> ToString(<<"allpos", e.src, e.line, e.col>>)
            [] e.op = "each"    -> ToString(<<"each", e.ord>>)
            [] e.op = "content" -> ToString(<<"content", e.src, e.panic>>)
            [] OTHER            -> e.op

HeldBy(o) == o.k
NoEndAnswer(s, e) ==
    IF e.r.k # "ok" THEN e.r.k
    ELSE ToString(
      CASE e.op = "orig" -> Strip(e.r.v)
        [] e.op = "genpos" -> IF HeldBy(s.objs[e.h]) = "basic" THEN Strip(e.r.v) ELSE e.r.v
        [] e.op \in {"allpos", "each"} -> RawStrip(e.r.v)
        [] OTHER -> e.r.v)

(* the answer an event gives to a query about document e.d *)
Comparable == {"orig", "genpos", "allpos", "each", "content", "hasall", "sources", "spans", "new", "new_gen"}
FullKey(s, e) ==
    CASE e.op \in {"new", "new_gen"} -> e.d \o " new"
      [] OTHER -> e.d \o " " \o Key(e)
Same(s, e) == FullKey(s, e) \in DOMAIN s.memo => s.memo[FullKey(s, e)] = NoEndAnswer(s, e)
Remember(s, e) == IF FullKey(s, e) \in DOMAIN s.memo THEN s
                  ELSE [s EXCEPT !.memo = Put(@, FullKey(s, e), NoEndAnswer(s, e))]

(* C27: the accessors of the sum of both kinds: as_basic, its mutable form,
   try_as_basic and its mutable form, then the same for indexed              *)
Views(indexed) == LET yes == <<"yes", "yes", "yes", "yes">> no == <<"panic", "panic", "no", "no">>
                  IN  IF indexed THEN no \o yes ELSE yes \o no

(* C03: the decoded mappings for one set of additions *)
C03Key(g) == ToString(SetOf(g.added))
C03Val(d) == LET t == Decoded(d) IN ToString(<<t.ok, SetOf(t.ms), Distinct(SeqMap(t.ms, LAMBDA m : <<m.gl, m.gc>>))>>)

(* ends *)
EndOf(b, a) == EndsBasic(b, a.gl, a.gc)
KnownPos(b, a) == \E i \in DOMAIN b.segs : b.segs[i].gl = a.gl /\ b.segs[i].gc = a.gc

EndOK(b, a) == KnownPos(b, a) => (IF b.spans THEN a.e \in EndOf(b, a)
                                  ELSE a.e = None \/ a.e \in EndOf(b, a))
GenEndOK(b, a) ==
    KnownPos(b, a) =>
      LET E == {IF IsNone(x) THEN Some(-1) ELSE x : x \in EndOf(b, a)}
      IN  IF b.spans THEN a.e \in E ELSE a.e = None \/ a.e \in E

(* the section and section position of a whole-file position reported by an
   indexed consumer: any section that has a segment there                    *)
IdxEnds(x, a) ==
    UNION {LET sec == x.secs[i]
               rl == a.gl - sec.ol
               rc == a.gc - ColShift(sec, rl)
               here == \E j \in DOMAIN sec.b.segs : sec.b.segs[j].gl = rl /\ sec.b.segs[j].gc = rc
           IN  IF here THEN RawEnds(sec, rl, rc) \cup ClippedEnds(x, i, rl, rc) ELSE {}
           : i \in DOMAIN x.secs}
IdxEndOK(x, a) == LET E == IdxEnds(x, a)
                  IN  E # {} => (a.e \in E \/ (~x.spans /\ a.e = None))

(* C18: enumeration after spans, section by section *)
ClipAll(x, ord, v) ==
    LET sizes == SeqMap(x.secs, LAMBDA sec : Len(VisitedOf(sec.b, ord)))
        start(i) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(sizes, 1, i - 1))
    IN  \A i \in DOMAIN x.secs :
          \A j \in (start(i) + 1)..(start(i) + sizes[i]) :
             LET sec == x.secs[i]
                 rl == v[j].gl - sec.ol
                 rc == v[j].gc - ColShift(sec, rl)
             IN  IF x.spans THEN v[j].e \in ClippedEnds(x, i, rl, rc)
                 ELSE v[j].e \in {None} \cup RawEnds(sec, rl, rc) \cup ClippedEnds(x, i, rl, rc)


(* the source a name stands for: a reported name for itself, any other string
   for what it resolves to (map URLs of these histories are absent or not
   relative paths, so that the two agree)                                    *)
Named(b, src, url) == LET k == KnownAs(b.src, src)
                      IN  IF k # 0 THEN k ELSE Recognise(b.src, b.root, src, url)
Known(o, e) == IF o.k = "basic" THEN Named(o, e.src, o.url) ELSE KnownAs(o.src, e.src)
PlacesNamed(x, src) == [i \in DOMAIN x.secs |-> Named(x.secs[i].b, src, x.url)]

Basic(s, e)   == e.h \in DOMAIN s.objs /\ s.objs[e.h].k = "basic"
Indexed(s, e) == e.h \in DOMAIN s.objs /\ s.objs[e.h].k = "indexed"
Gen(s, e)     == e.h \in DOMAIN s.objs /\ s.objs[e.h].k = "gen"

DefaultPanics(p) == IF IsNone(p) THEN TRUE ELSE Get(p)

(* ---- relevant events per property *)
Relevant(s, e) ==
    LET Prop == PropOf(e) IN
    CASE Prop = "C01" -> e.op = "gen_json" /\ ~s.objs[e.h].invalid
      [] Prop = "C02" -> e.op \in {"orig", "genpos", "each"}
      [] Prop = "C03" -> e.op = "gen_json"
      [] Prop = "C04" -> e.op = "gen_json"
      [] Prop = "C05" -> e.op = "gen_json"
      [] Prop = "C06" -> e.op = "gen_add" \/ (e.op = "gen_json" /\ ~s.objs[e.h].invalid /\ s.objs[e.h].refused > 0)
      [] Prop = "C07" -> e.op = "orig"
      [] Prop = "C08" -> e.op = "genpos"
      [] Prop = "C09" -> e.op = "allpos"
      [] Prop = "C10" -> e.op = "each"
      [] Prop = "C11" -> e.op \in {"orig", "genpos", "allpos", "each"}
      [] Prop = "C12" -> e.op \in Comparable /\ (e.op = "spans" => "d" \in DOMAIN e)
      [] Prop = "C27" -> (e.op \in Comparable /\ (e.op = "spans" => "d" \in DOMAIN e)) \/ e.op = "views"
      [] Prop = "C13" -> e.op \in {"new", "csu", "sources"}
      [] Prop = "C14" -> e.op \in {"content", "genpos", "allpos"}
      [] Prop = "C15" -> e.op \in {"content", "hasall"}
      [] Prop = "C16" -> e.op = "orig" /\ Indexed(s, e)
      [] Prop = "C17" -> e.op \in {"genpos", "allpos"} /\ Indexed(s, e)
      [] Prop = "C18" -> e.op = "each" /\ Indexed(s, e)
      [] Prop = "C19" -> e.op \in {"build", "new"}
      [] Prop = "C20" -> e.op \in {"vlq", "b64", "enc32"}
      [] Prop = "C21" -> e.op = "search"
      [] Prop = "C22" -> e.op \in {"aset_has", "aset_index", "aset_at", "aset_size", "aset_list"}
      [] Prop = "C23" -> e.op \in {"mlist_list", "mlist_iter", "cmp", "strcmp"}
      [] Prop = "C24" -> e.op \in {"join", "relative", "rejoin"}
      [] Prop = "C25" -> e.op \in {"orig", "genpos", "allpos", "each", "new", "new_raw"} /\ (e.op = "new_raw" => e.want # "any")
      [] Prop = "C26" -> e.op \in {"new", "sources", "content", "hasall"}
      [] Prop = "C28" -> e.op \in {"rewrite", "held"}

(* ---- the answers of a basic consumer, judged on their own ---------------- *)
OrigOK(s, e) ==
    LET o == s.objs[e.h] IN
    Ok(e) /\ Strip(e.r.v) \in OrigAnswers(o, e.line, e.col, e.bias)

GenOK(s, e) ==
    LET o == s.objs[e.h] k == Known(o, e) IN
    Ok(e) /\ Strip(e.r.v) \in (IF k = 0 THEN {None} ELSE GenAnswers(o, k - 1, e.line, e.col, e.bias))

AllOK(s, e) ==
    LET o == s.objs[e.h] k == Known(o, e) IN
    Ok(e) /\ SameBag(RawStrip(e.r.v), IF k = 0 THEN <<>> ELSE AllBag(o, k - 1, e.line, e.col))

EachOK(s, e) == Ok(e) /\ GoodVisit(s.objs[e.h], e.ord, RawStrip(e.r.v))

(* C02: a generator with distinct positions and its consumer *)
C02OK(s, e) ==
    LET o == s.objs[e.h] IN
    CASE e.op = "each" -> EachOK(s, e)
      [] e.op = "orig" ->
           LET here == {i \in DOMAIN o.segs : o.segs[i].gl = e.line /\ o.segs[i].gc = e.col}
           IN  here # {} => Ok(e) /\ Strip(e.r.v) \in AnswersFrom(o, here)
      [] OTHER ->
           LET k == Known(o, e)
               here == {i \in DOMAIN o.segs : IsSome(o.segs[i].o) /\ Get(o.segs[i].o).s = k - 1
                                              /\ Get(o.segs[i].o).l = e.line /\ Get(o.segs[i].o).c = e.col}
           IN  here # {} => Ok(e) /\ Strip(e.r.v) \in AnswersFrom(o, here)

(* C05: names that are one and the same relative to the source root may share
   their content, or hold one each                                           *)
C05OK(g, d) ==
    ContentsAligned(g, d) \/
    LET names == SetOf(d.sources) \cup {g.contents[i].src : i \in DOMAIN g.contents}
        key == [x \in names |-> IF IsSome(g.root) THEN RelStr(Get(g.root), x) ELSE x]
        of(src) == FoldLeft(LAMBDA a, x : IF key[x.src] = key[src] THEN x.c ELSE a, None, g.contents)
        exact == AnyContent(g)
        shared == \E i \in DOMAIN g.contents : IsSome(of(g.contents[i].src))
        alone(x) == \A y \in names : key[y] = key[x] => y = x
    IN  /\ d.sources = UsedSources(g)
        /\ \E x \in names : ~alone(x)
        /\ IF IsNone(d.contents) THEN ~exact \/ ~shared
           ELSE /\ exact \/ shared
                /\ Len(Get(d.contents)) = Len(d.sources)
                /\ \A i \in DOMAIN d.sources :
                      Get(d.contents)[i] \in {ContentOf(g, d.sources[i]), of(d.sources[i])}

C11OK(s, e) ==
    LET o == s.objs[e.h] IN
    ~Ok(e) \/
    IF o.k = "basic"
    THEN CASE e.op = "genpos" -> \A i \in DOMAIN e.r.v : GenEndOK(o, e.r.v[i])
           [] OTHER -> \A i \in DOMAIN e.r.v : EndOK(o, e.r.v[i])
    ELSE e.op = "genpos" \/ \A i \in DOMAIN e.r.v : IdxEndOK(o, e.r.v[i])

C14OK(s, e) ==
    LET o == s.objs[e.h]
        k == Recognise(o.src, o.root, e.src, o.url)
    IN  CASE e.op = "content" ->
               IF k # 0 THEN Ok(e) /\ e.r.v = ContentAt(o, k)
               ELSE IF IsNone(o.contents) THEN ~Ok(e) \/ e.r.v = None
               ELSE IF DefaultPanics(e.panic) THEN Panicked(e) ELSE Ok(e) /\ e.r.v = None
          [] e.op = "genpos" ->
               Ok(e) /\ Strip(e.r.v) \in (IF k = 0 THEN {None} ELSE GenAnswers(o, k - 1, e.line, e.col, e.bias))
          [] OTHER ->
               Ok(e) /\ SameBag(RawStrip(e.r.v), IF k = 0 THEN <<>> ELSE AllBag(o, k - 1, e.line, e.col))

C15OK(s, e) ==
    LET o == s.objs[e.h] IN
    IF e.op = "hasall" THEN Ok(e) /\ e.r.v = HasAll(o)
    ELSE LET k == Known(o, e)
         IN  IF k # 0 THEN Ok(e) /\ e.r.v = ContentAt(o, k)
             ELSE IF IsNone(o.contents) THEN ~Ok(e) \/ e.r.v = None
             ELSE IF DefaultPanics(e.panic) THEN Panicked(e) ELSE Ok(e) /\ e.r.v = None

C26OK(s, e) ==
    CASE e.op = "new" ->
           IF IsNone(e.doc.sections) THEN Ok(e)
           ELSE Ok(e) /\ e.r.v.sources = FlattenSeq(SeqMap(e.parts, LAMBDA h : s.objs[h].src))
      [] e.op = "sources" ->
           Ok(e) /\ (Indexed(s, e) => e.r.v = FlattenSeq(SeqMap(e.parts, LAMBDA h : s.objs[h].src)))
      [] e.op = "hasall" ->
           LET o == s.objs[e.h] IN o.k = "indexed" => Ok(e) /\ e.r.v = (\A i \in DOMAIN o.secs : HasAll(o.secs[i].b))
      [] OTHER ->
           LET o == s.objs[e.h] IN
           o.k = "indexed" =>
             LET held(i) == LET b == o.secs[i].b k == Recognise(b.src, b.root, e.src, o.url)
                            IN  IF k = 0 THEN None ELSE ContentAt(b, k)
                 i == SelectInSeq([j \in DOMAIN o.secs |-> j], LAMBDA j : IsSome(held(j)))
             IN  IF i # 0 THEN Ok(e) /\ e.r.v = held(i)
                 ELSE IF DefaultPanics(e.panic) THEN Panicked(e) ELSE Ok(e) /\ e.r.v = None

C19Expected(doc) ==
    IF Acceptable(doc)
    THEN [acc |-> TRUE, kind |-> "indexed",
          sources |-> FlattenSeq(SeqMap(Get(doc.sections), LAMBDA x : Listed(x.doc)))]
    ELSE [acc |-> FALSE, kind |-> "panic", sources |-> <<>>]

C25OK(s, e) ==
    CASE e.op = "new_raw" -> IF e.want = "err" THEN Ok(e) /\ e.r.v.kind = "err" ELSE Panicked(e)
      [] e.op = "new" -> IF VersionsOK(e.doc) THEN Ok(e) ELSE Panicked(e)
      [] OTHER ->
          LET o == s.objs[e.h]
              out == IF e.op = "orig" THEN e.line < 1 \/ e.col < 0
                     ELSE IF e.op = "genpos" THEN e.line < 1 \/ e.col < 0
                     ELSE IF e.op = "allpos" THEN e.line < 1 \/ (IsSome(e.col) /\ Get(e.col) < 0)
                     ELSE FALSE
              empty == ~Ok(e) \/ e.r.v = <<>>
              known == e.op = "orig" \/ Known(o, e) # 0
          IN  IF o.k = "basic"
              THEN IF e.op = "each" THEN ~o.ok => empty
                   ELSE /\ (out \/ ~o.ok) => empty
                        /\ ((out \/ ~o.ok) /\ known) => Panicked(e)
              ELSE /\ out => empty
                   /\ (e.op # "each" /\ \A i \in DOMAIN o.secs : ~o.secs[i].b.ok) => empty

Judge(s, e) ==
    LET Prop == PropOf(e) IN
    CASE Prop = "C01" -> Ok(e) /\ TextFaithful(s.objs[e.h], e.r.v)
      [] Prop = "C02" -> C02OK(s, e)
      [] Prop = "C03" -> Ok(e) /\ LET g == s.objs[e.h] IN
                           /\ IsSome(g.last) => Get(g.last) = e.r.v.text
                           /\ C03Key(g) \in DOMAIN s.memo => s.memo[C03Key(g)] = C03Val(e.r.v)
      [] Prop = "C04" -> Ok(e) /\ HeaderExact(s.objs[e.h], e.r.v)
      [] Prop = "C05" -> Ok(e) /\ C05OK(s.objs[e.h], e.r.v)
      [] Prop = "C06" -> IF e.op = "gen_add" THEN (IF Accepts(s.objs[e.h], e.m) THEN Ok(e) ELSE Panicked(e))
                         ELSE Ok(e) /\ LET g == s.objs[e.h] d == e.r.v IN
                                SetOf(Decoded(d).ms) \subseteq SetOf(g.added)
                                /\ SetOf(d.sources) \subseteq SetOf(UsedSources(g))
                                /\ SetOf(d.names) \subseteq SetOf(UsedNames(g))
      [] Prop = "C07" -> OrigOK(s, e)
      [] Prop = "C08" -> GenOK(s, e)
      [] Prop = "C09" -> AllOK(s, e)
      [] Prop = "C10" -> EachOK(s, e)
      [] Prop = "C11" -> C11OK(s, e)
      [] Prop = "C12" -> Same(s, e)
      [] Prop = "C27" -> /\ e.op \in Comparable => Same(s, e)
                         /\ e.op = "views" => (Ok(e) /\ e.r.v = Views(IsSome(e.doc.sections)))
                         /\ e.op = "new" => (Ok(e) /\ e.r.v.kind = IF IsSome(e.doc.sections) THEN "indexed" ELSE "basic")
      [] Prop = "C13" -> CASE e.op = "new" -> Ok(e) /\ e.r.v.sources = SeqMap(Listed(e.doc), LAMBDA x : SourceStr(e.doc.root, x, e.url))
                           [] e.op = "sources" -> Ok(e) /\ e.r.v = s.objs[e.h].src
                           [] OTHER -> Ok(e) /\ e.r.v = SourceStr(e.root, e.src, e.url)
      [] Prop = "C14" -> C14OK(s, e)
      [] Prop = "C15" -> C15OK(s, e)
      [] Prop = "C16" -> Ok(e) /\ LET x == s.objs[e.h] IN
                           /\ Strip(e.r.v) \in IdxOrigAnswers(x, e.line, e.col, e.bias)
                           /\ \A a \in SetOf(e.r.v) : IdxEndOK(x, a)
      [] Prop = "C17" -> Ok(e) /\ LET x == s.objs[e.h] IN
                           IF e.op = "genpos" THEN e.r.v \in IdxGenAnswers(x, PlacesNamed(x, e.src), e.line, e.col, e.bias)
                           ELSE /\ SameBag(RawStrip(e.r.v), IdxAllBag(x, PlacesNamed(x, e.src), e.line, e.col))
                                /\ \A a \in SetOf(e.r.v) : IdxEndOK(x, a)
      [] Prop = "C18" -> Ok(e) /\ LET x == s.objs[e.h] IN
                           GoodIdxVisit(x.secs, e.ord, RawStrip(e.r.v)) /\ ClipAll(x, e.ord, e.r.v)
      [] Prop = "C19" -> IF e.op = "build" THEN Ok(e) /\ e.r.v = <<C19Expected(e.doc)>>
                         ELSE IF Acceptable(e.doc) THEN Ok(e) /\ e.r.v.kind = C19Expected(e.doc).kind /\ e.r.v.sources = C19Expected(e.doc).sources
                         ELSE Panicked(e)
      [] Prop = "C20" -> Ok(e) /\ CASE e.op = "vlq" -> e.r.v = Encode(e.v)
                                    [] e.op = "b64" -> e.r.v = Base64Char(e.v)
                                    [] OTHER -> e.r.v.bad = <<>> /\ e.r.v.count = e.expect /\ e.table = EncTable
      [] Prop = "C21" -> Ok(e) /\ e.r.v = SearchAnswer(e.hay, e.needle, e.bias)
      [] Prop = "C22" -> Ok(e) /\ LET v == s.objs[e.h].v IN
                           e.r.v = CASE e.op = "aset_has" -> SetHas(v, e.x)
                                     [] e.op = "aset_index" -> SetIndex(v, e.x)
                                     [] e.op = "aset_at" -> SetAt(v, e.idx)
                                     [] e.op = "aset_size" -> SetSize(v)
                                     [] OTHER -> v
      [] Prop = "C23" -> Ok(e) /\ CASE e.op = "cmp" -> e.r.v = MappingSign(e.a, e.b)
                                    [] e.op = "strcmp" -> e.r.v = OptSign(e.a, e.b)
                                    [] e.op = "mlist_list" -> SameBag(e.r.v, s.objs[e.h].v) /\ SortedBy(e.r.v, GenLe)
                                    [] OTHER -> SameBag(SeqMap(e.r.v, LAMBDA x : x.m), s.objs[e.h].v)
                                                /\ \A i \in DOMAIN e.r.v : e.r.v[i].ix = i - 1
      [] Prop = "C24" -> Ok(e) /\ CASE e.op = "join" -> e.r.v = JoinStr(e.a, e.b)
                                    [] e.op = "relative" -> LET r == Parse(e.a) t == Parse(e.b) IN
                                          (SamePlace(r, t) \/ e.r.v = NormStr(e.b))
                                    [] OTHER -> LET r == Parse(e.a) t == Parse(e.b) IN
                                          (SamePlace(r, t) /\ Expressible(r, t)) =>
                                             \/ e.r.v.back = NormStr(e.b)
                                             \/ AtOrAbove(r, t) /\ SameUpToSlash(Normalize(Parse(e.r.v.back)), Normalize(t))
      [] Prop = "C25" -> C25OK(s, e)
      [] Prop = "C26" -> C26OK(s, e)
      [] Prop = "C28" -> Ok(e) /\ IF e.op = "held" THEN e.r.v.doc = s.objs[e.h].doc /\ e.r.v.extra = <<>>
                                  ELSE LET want == Meaning(e.doc, e.hurt) IN
                                       /\ (e.r.v.made = "err") = IsNone(want)
                                       /\ IF IsNone(want) THEN e.r.v.kind = "err"
                                          ELSE e.r.v.kind = "doc" /\ e.r.v.doc = want /\ e.r.v.extra = <<>>
                                               /\ e.r.v.again = want \o want

MemoAfter(s, e) ==
    LET Prop == PropOf(e) IN
    CASE Prop \in {"C12", "C27"} /\ Relevant(s, e) /\ e.op \in Comparable -> Remember(s, e)
      [] Prop = "C03" /\ e.op = "gen_json" /\ Ok(e) ->
           LET k == C03Key(s.objs[e.h])
           IN  IF k \in DOMAIN s.memo THEN s ELSE [s EXCEPT !.memo = Put(@, k, C03Val(e.r.v))]
      [] OTHER -> s

------------------------------------------------------------------------------
TraceInit == l = 1 /\ st = Fresh /\ dead = -1 /\ judged = 0

Step ==
    /\ l <= Len(Events)
    /\ LET e  == Events[l]
           s  == IF e.i = 1 THEN Fresh ELSE st
           rel == Relevant(s, e)
           good == StepOK(s, e) /\ (rel => Judge(s, e))
       IN  IF dead = e.sid
           THEN UNCHANGED <<st, dead, judged>>
           ELSE IF good
           THEN /\ st' = LET t == MemoAfter(After(s, e), e)
                         IN  IF e.op \in {"new", "new_gen"} /\ Has(t, e.h)
                             THEN [t EXCEPT !.objs[e.h] = (IF e.op = "new" THEN [url |-> e.url, doc |-> e.doc] ELSE [url |-> e.url]) @@ @] ELSE t
                /\ judged' = judged + (IF rel THEN 1 ELSE 0)
                /\ UNCHANGED dead
           ELSE /\ PrintT(<<"REJECT", e.sid, e.i, e.op>>)
                /\ dead' = e.sid
                /\ st' = Fresh
                /\ judged' = judged + 1
    /\ l' = l + 1

Finish == l = Len(Events) + 1 /\ PrintT(<<"JUDGED", judged>>) /\ l' = l + 1 /\ UNCHANGED <<st, dead, judged>>

TraceNext == Step \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceView == l
TraceAccepted == TLCGet("stats").diameter - 2 = Len(Events)
=============================================================================
