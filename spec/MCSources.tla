----------------------------- MODULE MCSources ------------------------------
(* A plain consumer's source list and the memo it keeps of names it has looked
   up, as the code runs it, against what the names mean.                     *)
EXTENDS Walk, SourceMapText, TLC, Json

CONSTANTS Roots, Urls, Pool,   \* source roots, map URLs (both as optional strings), sources
          N,                   \* sources per document, at most
          K,                   \* lookups per history; 0: every name, twice, in one history
          Ending               \* "lookups" or "resolve"

Docs == {s \in UNION {[1..n -> Pool] : n \in 1..N} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}

FewRoots == {None, Some(""), Some("/r"), Some("lib")}
ManyRoots == FewRoots \cup {Some("/"), Some("/r/"), Some("lib/"), Some(".."), Some("."), Some("./lib/../x"), Some("http://h.org"),
                            Some("http://h.org/r"), Some("//c.net/z"), Some("/a/../b")}
FewUrls == {None, Some("http://m.org/d/o.map"), Some("/maps/o.map")}
ManyUrls == FewUrls \cup {Some(""), Some("o.map"), Some("rel/o.map"), Some("../o.map"), Some("http://m.org"), Some("http://m.org/d/"), Some("//h.org/m/x.map"),
                          Some("/o.map?v=1"), Some("http://m.org/d/o.map?x=/y/z#f"), Some("/"), Some("webpack:///w/o.map")}

VARIABLES root, url, srcs,   \* the document and the URL given for it
          Reported,          \* the resolved list
          cache,             \* name -> position
          h,                 \* names looked up
          got                \* what the last lookup found
vars == <<root, url, srcs, Reported, cache, h, got>>

Init == /\ root \in Roots /\ url \in Urls /\ srcs \in Docs
        /\ Reported = [i \in DOMAIN srcs |-> SourceStr(root, srcs[i], url)]
        /\ cache = <<>> /\ h = <<>> /\ got = 0

RelSpelling(s) == Parse(s).t = "rel"
NamesOf(d) == Reported \o d \o SelectSeq(SeqMap(d, LAMBDA s : IF RelSpelling(s) THEN "./" \o s ELSE s \o "#"), LAMBDA s : TRUE)
              \o <<"nope.js", "../a.js", "">>
Names == SetOf(NamesOf(srcs))

(* the lookup: memo, then relative to the map, then to the root *)
Find(c, x) ==
    IF x \in DOMAIN c THEN c[x]
    ELSE LET i == FirstIndex(Reported, SourceStr(None, x, url))
         IN  IF i # 0 THEN i ELSE FirstIndex(Reported, SourceStr(root, x, url))
Note(c, x, i) == IF i = 0 THEN c ELSE [y \in DOMAIN c \cup {x} |-> IF y = x THEN i ELSE c[y]]

Look(x) == /\ Len(h) < K
           /\ got' = Find(cache, x)
           /\ cache' = Note(cache, x, Find(cache, x))
           /\ h' = Append(h, x)
           /\ UNCHANGED <<root, url, srcs, Reported>>

(* ---- what is replayed on the code: sources one segment each ---- *)
(* one mapping per source: line i, column 0 of source i-1 at line i *)
Segment(i) == [gl |-> i, gc |-> 0, o |-> Some([s |-> i - 1, l |-> i, c |-> 0, n |-> None])]
Text(n) == EncodeText([i \in 1..n |-> Segment(i)])
Doc == [version |-> 3, file |-> None, root |-> root, sources |-> Some(srcs), names |-> Some(<<>>), m |-> Some(Text(Len(srcs))),
        contents |-> Some(SeqMap(srcs, LAMBDA s : Some("text of " \o s))), sections |-> None]
Ctor == IF IsSome(url) THEN "consume" ELSE "new"
New(hn, ctor) == [op |-> "new", h |-> hn, ctor |-> ctor, doc |-> Doc, url |-> url]
Ask(x, k) == CASE k % 3 = 0 -> [op |-> "content", h |-> "c", src |-> x, panic |-> IF k % 2 = 0 THEN None ELSE Some(FALSE)]
               [] k % 3 = 1 -> [op |-> "genpos", h |-> "c", src |-> x, line |-> 1 + (k % 2), col |-> 3, bias |-> 0]
               [] OTHER     -> [op |-> "allpos", h |-> "c", src |-> x, line |-> 1, col |-> None]
All == NamesOf(srcs)
Replay ==
    IF Ending = "resolve"
    THEN <<New("c", "create"), [op |-> "sources", h |-> "c"], New("d", Ctor)>>
         \o SeqMap(srcs, LAMBDA s : [op |-> "csu", root |-> root, src |-> s, url |-> url])
    ELSE IF K = 0
    THEN <<New("c", Ctor)>> \o [k \in DOMAIN All |-> Ask(All[k], 3 * k)]
         \o [k \in DOMAIN All |-> Ask(All[k], k)] \o [k \in DOMAIN All |-> Ask(All[k], k + 1)]
    ELSE <<New("c", "create")>> \o [k \in DOMAIN h |-> Ask(h[k], 3 * k)]

Done == /\ Len(h) = K
        /\ PrintT("SCN " \o ToJson(Replay))
        /\ h' = Append(h, "end") /\ UNCHANGED <<root, url, srcs, Reported, cache, got>>

Next == (\E x \in Names : Look(x)) \/ Done
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Alone == Recognise(Reported, root, Last(h), url)
Asked == h # <<>> /\ Len(h) <= K

(* the memo never changes an answer *)
Memo == Asked => got = Alone
CacheRight == Asked => \A x \in DOMAIN cache \ {Last(h)} : cache[x] = Recognise(Reported, root, x, url)

(* every source is recognised as spelled, unless that means another one
   relative to the map                                                       *)
RelMap == IsSome(url) /\ Parse(Get(url)).t = "rel"
AsSpelled == h = <<>> => \A i \in DOMAIN srcs :
    LET r == Recognise(Reported, root, srcs[i], url)
    IN  r # 0 /\ (Reported[r] = Reported[i] \/ SourceStr(None, srcs[i], url) = Reported[r])
(* and as reported, unless the map's own URL is relative *)
AsReported == h # <<>> \/ RelMap \/ \A i \in DOMAIN srcs :
    LET r == Recognise(Reported, root, Reported[i], url) IN r # 0 /\ Reported[r] = Reported[i]

(* resolving leads where walking leads: to the map's directory, into the root,
   along the source                                                          *)
HasRoot == IsSome(root) /\ Get(root) # ""
Bare == [top |-> [t |-> "rel", sch |-> "", host |-> ""], dir |-> Deep, leaf |-> None]
MapDir == IF IsNone(url) THEN Bare ELSE [Place(Parse(Get(url))) EXCEPT !.leaf = None]
RootDir == IF HasRoot THEN Enter(From(MapDir, Parse(Get(root)))) ELSE MapDir
Read(s) == LET p == Parse(s) IN IF HasRoot /\ p.t = "path" THEN [p EXCEPT !.t = "rel"] ELSE p
Resolved == h = <<>> => \A i \in DOMAIN srcs :
    /\ Place(SourceRef(root, srcs[i], url)) = From(RootDir, Read(srcs[i]))
    /\ Normalize(SourceRef(root, srcs[i], url)) = SourceRef(root, srcs[i], url)
    /\ SourceRef(root, srcs[i], url).q = Parse(srcs[i]).q /\ SourceRef(root, srcs[i], url).f = Parse(srcs[i]).f
AbsoluteKept == h = <<>> => \A i \in DOMAIN srcs : Parse(srcs[i]).t = "abs" => Reported[i] = NormStr(srcs[i])
=============================================================================
