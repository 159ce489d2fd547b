----------------------------- MODULE MCGenerator -----------------------------
(* The generator as the code runs it: a mapping list with a "sorted" flag and
   a fast path for additions in order, two index tables, a table of contents
   by root-relative source, and a serializer that writes every field relative
   to registers holding its previous value. Beside it the abstract generator
   (what was added). Every history of K operations is explored and printed.  *)
EXTENDS Containers, TLC, Json

CONSTANTS K,         \* length of a history
          Acts,      \* subset of {"add", "bad", "json", "content"}
          Universe,  \* "tiny", "ties", "wide": which mappings may be added
          Skips,     \* values of skip_validation
          Root,      \* source root: <<>> or <<r>>
          Ending     \* what is appended to a printed history: "json", "orders", "consumers"

M(gl, gc, l, c, s, n) == [gl |-> gl, gc |-> gc, o |-> Some([l |-> l, c |-> c]), s |-> Some(s), n |-> n]
M0(gl, gc) == [gl |-> gl, gc |-> gc, o |-> None, s |-> None, n |-> None]

Mappings ==
    CASE Universe = "tiny" -> {M0(1, 0), M(1, 0, 1, 0, "a", None), M(1, 3, 2, 40, "b", Some("n")),
                               M(3, 1, 1, 5, "a", Some("m")), M(3, 0, 9, 0, "b", Some("n"))}
      [] Universe = "ties" -> {M(1, 2, 1, 0, "a", None), M(1, 2, 1, 0, "a", Some("n")), M(1, 2, 1, 0, "b", None),
                               M(1, 2, 1, 1, "a", None), M0(1, 2), M(2, 2, 1, 0, "a", None)}
      [] Universe = "wide" -> {M(gl, gc, l, 0, s, n) : gl \in {1, 3}, gc \in {0, 700}, l \in {1, 70000}, s \in {"a", "b"}, n \in {None, Some("n")}}
                              \cup {M0(1, 0), M0(1, 1), M0(4, 0)}
      [] Universe = "distinct" -> {M0(1, 0), M(1, 3, 2, 40, "b", Some("n")), M(1, 4, 2, 40, "a", None), M(2, 4, 1, 5, "a", Some("m")),
                                   M(5, 0, 2, 39, "b", None), M(5, 33, 3, 0, "b", Some("n"))}

BadMappings == {[M(1, 1, 1, 1, "x", Some("z")) EXCEPT !.gl = 0], [M(1, 1, 1, 1, "x", Some("z")) EXCEPT !.gc = -1],
                [M(1, 1, 1, 1, "x", Some("z")) EXCEPT !.s = None], [M(1, 1, 1, 1, "x", Some("z")) EXCEPT !.o = None],
                [M0(1, 1) EXCEPT !.n = Some("z")], [M0(1, 1) EXCEPT !.s = Some("x")], M(2, 2, 0, 0, "x", None), M(2, 2, 1, -1, "x", None)}

NoRoot == None
SomeRoot == Some("/root")

VARIABLES g,    \* abstract generator
          im,   \* the code's registers
          h     \* history
vars == <<g, im, h>>

Init == /\ \E skip \in Skips : g = GenNew(None, Root, skip)
        /\ im = [arr |-> <<>>, sorted |-> TRUE, last |-> None, sources |-> <<>>, names |-> <<>>,
                 contents |-> <<>>, text |-> None]
        /\ h = <<>>

(* ---- the code ---- *)
InOrder(last, m) == IsNone(last) \/ LET a == Get(last) IN
                       m.gl > a.gl \/ (m.gl = a.gl /\ m.gc >= a.gc) \/ MappingSign(a, m) <= 0

Insert(t, o) == IF IsNone(o) THEN t ELSE SetAdd(t, Get(o), FALSE)

ImAdd(i, m) ==
    LET ok == InOrder(i.last, m)
    IN  [i EXCEPT !.arr = Append(@, m), !.sorted = @ /\ ok, !.last = IF ok THEN Some(m) ELSE @,
                  !.sources = Insert(@, m.s), !.names = Insert(@, m.n), !.text = None]

ToArray(i) == IF i.sorted THEN i
              ELSE [i EXCEPT !.arr = SortSeq(@, LAMBDA a, b : MappingSign(a, b) < 0), !.sorted = TRUE]

Text(i) == EncodeText(SeqMap(i.arr, LAMBDA m : IndexedSeg(m, i.sources, i.names)))

Written(i0) == LET i == ToArray(i0) IN [i EXCEPT !.text = Some(Text(i))]

Keyed(t, k) == k \in DOMAIN t
ImContent(i, src, c) ==
    [i EXCEPT !.text = None,
              !.contents = IF IsNone(c) THEN [x \in DOMAIN @ \ {src} |-> @[x]]
                           ELSE [x \in DOMAIN @ \cup {src} |-> IF x = src THEN Get(c) ELSE @[x]]]
ImContents(i) == IF DOMAIN i.contents = {} THEN None
                 ELSE Some([k \in DOMAIN i.sources |-> IF Keyed(i.contents, i.sources[k])
                                                       THEN Some(i.contents[i.sources[k]]) ELSE None])

Doc(i) == [version |-> 3, sources |-> i.sources, names |-> i.names, m |-> Get(i.text),
           file |-> None, root |-> Root, keys |-> IF IsSome(Root) THEN <<"sourceRoot">> ELSE <<>>,
           contents |-> ImContents(i)]

(* ---- steps ---- *)
Going == Len(h) < K

Add(m) == /\ Going /\ "add" \in Acts
          /\ Universe = "distinct" => \A x \in SetOf(g.added) : x.gl # m.gl \/ x.gc # m.gc
          /\ g' = GenAdd(g, m) /\ im' = ImAdd(im, m)
          /\ h' = Append(h, [op |-> "gen_add", h |-> "g", m |-> m])

AddBad(m) == /\ Going /\ "bad" \in Acts
             /\ g' = GenAdd(g, m)
             /\ im' = IF g.skip THEN ImAdd(im, m) ELSE im
             /\ h' = Append(h, [op |-> "gen_add", h |-> "g", m |-> m])

Emit == /\ Going /\ "json" \in Acts /\ ~g.invalid
        /\ im' = Written(im)
        /\ UNCHANGED g
        /\ h' = Append(h, [op |-> "gen_json", h |-> "g"])

Content(s, c) == /\ Going /\ "content" \in Acts
                 /\ g' = GenContent(g, s, c) /\ im' = ImContent(im, s, c)
                 /\ h' = Append(h, [op |-> "gen_content", h |-> "g", src |-> s, c |-> c])

(* ---- what is replayed on the code ---- *)
New(hn) == [op |-> "gen_new", h |-> hn, file |-> None, root |-> Root, skip |-> g.skip]
J(hn) == [op |-> "gen_json", h |-> hn]
Adds == SelectSeq(h, LAMBDA e : e.op = "gen_add")
On(e, hn) == [e EXCEPT !.h = hn]
Query(c) ==
    FlattenSeq([k \in DOMAIN g.added |->
        LET m == g.added[k] IN
        <<[op |-> "orig", h |-> c, line |-> m.gl, col |-> m.gc, bias |-> k % 3]>>
        \o (IF IsNone(m.o) THEN <<>>
            ELSE <<[op |-> "genpos", h |-> c, srci |-> FirstIndex(im.sources, Get(m.s)) - 1,
                    line |-> Get(m.o).l, col |-> Get(m.o).c, bias |-> (k + 1) % 3]>>)])
    \o <<[op |-> "each", h |-> c, ord |-> "gen"], [op |-> "each", h |-> c, ord |-> "orig"]>>
Replay ==
    <<New("g")>> \o h \o
    (CASE Ending = "json" -> IF g.invalid THEN <<>> ELSE <<J("g")>>
       [] Ending = "list" -> <<J("g")>>
       [] Ending = "orders" -> <<J("g"), J("g"), New("r")>> \o SeqMap(Reverse(Adds), LAMBDA e : On(e, "r")) \o <<J("r"), J("r")>>
       [] Ending = "consumers" -> <<[op |-> "new_gen", h |-> "c", g |-> "g", ctor |-> "gen", url |-> None]>> \o Query("c")
             \o <<[op |-> "new_gen", h |-> "d", g |-> "g", ctor |-> "create", url |-> None], [op |-> "spans", h |-> "d"]>> \o Query("d"))

(* the same history for the mapping list alone *)
AsList(e) == IF e.op = "gen_new" THEN [op |-> "mlist_new", h |-> "l"]
             ELSE IF e.op = "gen_add" THEN [op |-> "mlist_add", h |-> "l", m |-> e.m]
             ELSE [op |-> "mlist_list", h |-> "l"]
Printed == IF Ending = "list"
           THEN SeqMap(Replay, AsList) \o <<[op |-> "mlist_iter", h |-> "l"], [op |-> "mlist_list", h |-> "l"]>>
           ELSE Replay

Done == /\ Len(h) = K
        /\ PrintT("SCN " \o ToJson(Printed))
        /\ im' = IF g.invalid THEN im ELSE Written(im)
        /\ h' = Append(h, [op |-> "end"]) /\ UNCHANGED g

Next == \/ \E m \in Mappings : Add(m)
        \/ \E m \in BadMappings : AddBad(m)
        \/ Emit
        \/ \E s \in {"a", "b"}, c \in {None, Some("x"), Some("y")} : Content(s, c)
        \/ Done
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Held == SameBag(im.arr, g.added)
Flag == im.sorted => SortedBy(im.arr, GenLe)
LastIsLargest == IsSome(im.last) => \A i \in DOMAIN im.arr : GenLe(im.arr[i], Get(im.last))
Tables == im.sources = UsedSources(g) /\ im.names = UsedNames(g)

Emitted == IsSome(im.text) /\ ~g.invalid
Faithful == Emitted => TextFaithful(g, Doc(im))
Header   == Emitted => HeaderExact(g, Doc(im))
Contents == Emitted => ContentsAligned(g, Doc(im))
NoTrace  == \A m \in BadMappings : g.skip \/ m \notin SetOf(im.arr)

(* serializing again gives the same text *)
Repeatable == [][IsSome(im.text) /\ IsSome(im'.text) => im.text = im'.text]_vars

(* what a consumer of the text holds answers for every mapping added *)
Segs == DecodeText(Get(im.text)).segs
Answers == (Emitted /\ DistinctPositions(g)) =>
    \A k \in DOMAIN g.added :
        LET m == g.added[k]
            want == IndexedSeg(m, im.sources, im.names)
            O == OrigIdx(Segs, m.gl, m.gc, 0)
        IN  /\ {Segs[i] : i \in O} = {want}
            /\ IsSome(m.o) => \E i \in GenIdx(Segs, Get(want.o).s, Get(m.o).l, Get(m.o).c, 0) : Segs[i] = want

ASSUME Ending = "list" =>
    \A a \in Mappings : PrintT("SCN " \o ToJson(SetToSeq({[op |-> "cmp", a |-> a, b |-> b] : b \in Mappings})))

(* the order of mappings is total on the universe *)
ASSUME \A a, b \in Mappings : MappingSign(a, b) = -MappingSign(b, a) /\ (MappingSign(a, b) = 0) = (a = b)
ASSUME Universe # "wide" => \A a, b, c \in Mappings :
          MappingSign(a, b) <= 0 /\ MappingSign(b, c) <= 0 => MappingSign(a, c) <= 0
=============================================================================
