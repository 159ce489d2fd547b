------------------------------ MODULE MCCreate ------------------------------
(* The ways of creating a consumer, as paths through the functions of the code:
   each carries a document in some form and a map URL from its entry to the
   function that builds the consumer. All end in the same consumer.          *)
EXTENDS Consumer, Url, TLC, Json

CONSTANTS Rich    \* a larger universe

O(s, l, c, n) == Some([s |-> s, l |-> l, c |-> c, n |-> n])
S(gl, gc, o) == [gl |-> gl, gc |-> gc, o |-> o]

Texts == {<<>>, <<S(1, 0, O(0, 1, 0, Some(0))), S(1, 4, O(1, 2, 1, None)), S(3, 0, None)>>}
         \cup (IF Rich THEN {<<S(2, 3, O(1, 1, 0, None))>>, <<S(1, 0, O(0, 3, 2, None)), S(1, 0, O(1, 3, 2, Some(0)))>>} ELSE {})
Lists == {<<"a.js", "d/b.js">>} \cup (IF Rich THEN {<<"/a.js", "http://o.org/b.js">>, <<"../a.js", "b.js">>} ELSE {})
Roots == {None, Some("/r")} \cup (IF Rich THEN {Some(""), Some("lib/")} ELSE {})
ContentLists == {None, Some(<<Some("x"), None>>)}
Urls == {None, Some("http://m.org/d/o.map")} \cup (IF Rich THEN {Some(""), Some("/maps/o.map"), Some("o.map")} ELSE {})

Plain == {[version |-> 3, file |-> None, root |-> r, sources |-> Some(l), names |-> Some(<<"n">>), m |-> Some(EncodeText(t)),
           contents |-> c, sections |-> None] : r \in Roots, l \in Lists, t \in Texts, c \in ContentLists}
Sec(o, d) == [ol |-> o[1], oc |-> o[2], doc |-> d, url |-> None]
Few == {d \in Plain : d.root = None \/ d.contents = None}
Indexed == {[version |-> 3, file |-> None, root |-> None, sources |-> None, names |-> None, m |-> None, contents |-> None,
             sections |-> Some(s)] : s \in {<<>>} \cup {<<Sec(<<0, 0>>, d)>> : d \in Few}
                                        \cup {<<Sec(<<0, 2>>, d), Sec(<<2, 0>>, e)>> : d \in {x \in Few : IsNone(x.root)}, e \in IF Rich THEN Few ELSE {x \in Few : IsSome(x.root)}}}

Ctors == {"create", "new", "json", "consume"}

VARIABLES doc, url, ctor,
          at,       \* "text", "parsed", "decided", "checked", "built"
          held,     \* what is carried
          made      \* the consumer
vars == <<doc, url, ctor, at, held, made>>

Init == /\ doc \in Plain \cup Indexed /\ url \in Urls
        /\ ctor \in IF IsSome(url) THEN Ctors ELSE Ctors \ {"consume"}
        /\ at = (IF ctor = "json" THEN "parsed" ELSE "text")
        /\ held = [doc |-> doc, url |-> url, kind |-> "unknown"] /\ made = None

To(s, v) == at' = s /\ held' = v /\ UNCHANGED <<doc, url, ctor, made>>

(* the callback form is the constructor of its type, called with the URL *)
Consume == at = "text" /\ ctor = "consume" /\ held.kind = "unknown" /\ To("text", [held EXCEPT !.kind = IF IsSome(doc.sections) THEN "indexed" ELSE "basic"])
Parse1  == at = "text" /\ (ctor = "consume" => held.kind # "unknown") /\ To("parsed", held)
(* only the general form looks at the document to decide; the others are asked for a type *)
Decide  == at = "parsed" /\ To("decided", [held EXCEPT !.kind = IF IsSome(held.doc.sections) THEN "indexed" ELSE "basic"])
Check   == at = "decided" /\ held.doc.version = 3 /\ To("checked", held)
Resolve(d, u) == SeqMap(Listed(d), LAMBDA x : SourceStr(d.root, x, u))
Build   == /\ at = "checked"
           /\ made' = Some(IF held.kind = "indexed"
                           THEN MkIndexed(held.doc, FlattenSeq(SeqMap(Get(held.doc.sections), LAMBDA x : Resolve(x.doc, held.url))))
                           ELSE MkBasic(held.doc, Resolve(held.doc, held.url)))
           /\ at' = "built" /\ UNCHANGED <<doc, url, ctor, held>>

(* ---- what is replayed on the code ---- *)
HandleOf(k) == CASE k = "create" -> "a" [] k = "new" -> "b" [] k = "json" -> "j" [] k = "consume" -> "k"
NewOp(k) == [op |-> "new", h |-> HandleOf(k), ctor |-> k, doc |-> doc, url |-> url, d |-> "D"]
Names == IF IsSome(doc.sections) THEN Get(made).src ELSE Listed(doc) \o Get(made).src
QuerySeq(hn) ==
    FlattenSeq([i \in DOMAIN Names |->
      <<[op |-> "content", h |-> hn, src |-> Names[i], panic |-> None, d |-> "D"],
        [op |-> "genpos", h |-> hn, src |-> Names[i], line |-> 2, col |-> 1, bias |-> i % 3, d |-> "D"],
        [op |-> "allpos", h |-> hn, src |-> Names[i], line |-> 1, col |-> None, d |-> "D"]>>])
    \o <<[op |-> "orig", h |-> hn, line |-> 1, col |-> 4, bias |-> 0, d |-> "D"], [op |-> "orig", h |-> hn, line |-> 1, col |-> 1, bias |-> 2, d |-> "D"],
         [op |-> "orig", h |-> hn, line |-> 3, col |-> 3, bias |-> 1, d |-> "D"],
         [op |-> "each", h |-> hn, ord |-> "gen", d |-> "D"], [op |-> "each", h |-> hn, ord |-> "orig", d |-> "D"],
         [op |-> "sources", h |-> hn, d |-> "D"], [op |-> "hasall", h |-> hn, d |-> "D"]>>
Ways == IF IsSome(url) THEN <<"create", "new", "json", "consume">> ELSE <<"create", "new", "json">>
Replay == FlattenSeq([i \in DOMAIN Ways |-> <<NewOp(Ways[i])>> \o QuerySeq(HandleOf(Ways[i]))])

Done == /\ at = "built"
        /\ IF ctor = "create" THEN PrintT("SCN " \o ToJson(Replay)) ELSE TRUE
        /\ at' = "end" /\ UNCHANGED <<doc, url, ctor, held, made>>

Next == Consume \/ Parse1 \/ Decide \/ Check \/ Build \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the abstract consumer, whatever the way *)
Want == IF IsSome(doc.sections) THEN MkIndexed(doc, FlattenSeq(SeqMap(Get(doc.sections), LAMBDA x : Resolve(x.doc, url))))
        ELSE MkBasic(doc, Resolve(doc, url))
Agree == IsSome(made) => Get(made) = Want
Kind  == IsSome(made) => (Get(made).k = "indexed") = IsSome(doc.sections)
Carried == held.doc = doc /\ held.url = url
Ends == <>(at = "end")
=============================================================================
