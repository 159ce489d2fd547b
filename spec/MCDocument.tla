----------------------------- MODULE MCDocument ------------------------------
(* Reading a document member by member, in any order and with members in
   between that mean nothing, writing what was read, and reading that again:
   the same document each time, or a refusal if a member has the wrong type or
   one that is needed never came.                                            *)
EXTENDS Document, TLC, Json

CONSTANTS Rich

Members == {"version", "file", "sourceRoot", "sources", "names", "mappings", "sourcesContent", "sections"}

(* one value or two for each member, and absence *)
Sub(n) == [version |-> n, file |-> None, root |-> Some(""), sources |-> Some(<<>>), names |-> None, m |-> Some(<<>>),
           contents |-> None, sections |-> None]
Nested(n) == [Sub(3) EXCEPT !.sections = Some(<<[ol |-> n, oc |-> 0, url |-> None, doc |-> Sub(3)]>>)]
Files == {None, Some("out.js")}
Roots == {None, Some("")}
Srcs  == {None, Some(<<"a.js", "">>)}
Nms   == {None, Some(<<>>)}
Ms    == {None, Some(<<65, 65, 65, 65>>)}
Conts == {None, Some(<<None, Some("")>>)}
Secs  == {None, Some(<<>>), Some(<<[ol |-> 0, oc |-> 0, url |-> None, doc |-> Sub(3)], [ol |-> 2, oc |-> 1, url |-> Some("u"), doc |-> Nested(1)]>>)}
Versions == IF Rich THEN {3, 0, -1, 2147483647} ELSE {3, 2}

Docs == {[version |-> v, file |-> f, root |-> r, sources |-> s, names |-> n, m |-> m, contents |-> c, sections |-> x]
         : v \in Versions, f \in Files, r \in Roots, s \in Srcs, n \in Nms, m \in Ms, c \in Conts, x \in Secs}
Full == [version |-> 3, file |-> Some("f"), root |-> Some("r"), sources |-> Some(<<"s">>), names |-> Some(<<"n">>), m |-> Some(<<65>>),
         contents |-> Some(<<Some("c")>>), sections |-> Some(<<[ol |-> 1, oc |-> 2, url |-> Some("u"), doc |-> [Sub(3) EXCEPT !.file = Some("g"), !.names = Some(<<"k">>), !.contents = Some(<<None>>)]]>>)]

Hurts == {h \in [sec : {0, 1}, member : Members \cup InSection, kind : Kinds] :
             ~Neutral(h) /\ (h.sec = 0 => h.member \notin InSection) /\ (h.sec = 1 => h.member # "sections")}

VARIABLES doc, hurt,   \* the text: what it was written from, and one change
          todo,        \* members still to come
          slots,       \* members read so far
          round,       \* 1: the text, 2: what was written back
          out,         \* results of the readings so far: None for a refusal or Some(document)
        shown
vars == <<doc, hurt, todo, slots, round, out, shown>>

Field(d, m) == IF m = "version" THEN Some(d.version) ELSE d[FieldOf(m)]
Present(d) == {m \in Members : IsSome(Field(d, m))}

(* which member of the document the change falls into *)
Place(h) == IF h.sec = 0 THEN h.member ELSE "sections"

Init == /\ \/ doc \in Docs /\ hurt = None
           \/ doc = Full /\ hurt \in {Some(h) : h \in Hurts}
        /\ todo = (Present(doc) \ (IF IsSome(hurt) /\ Get(hurt).sec = 0 /\ Get(hurt).kind = "drop" THEN {Get(hurt).member} ELSE {})) \cup {"x_other"}
        /\ slots = [m \in Members |-> None] /\ round = 1 /\ out = <<>> /\ shown = FALSE

Here(m) == round = 1 /\ IsSome(hurt) /\ Place(Get(hurt)) = m

(* what the reader makes of the value of a member: a value, null, or an error *)
Value(m) ==
    IF ~Here(m) THEN <<"ok", Field(IF round = 1 THEN doc ELSE Get(out[1]), m)>>
    ELSE IF Refused(Get(hurt)) THEN <<"err">>
    ELSE IF Get(hurt).sec = 0 THEN <<"ok", None>>
    ELSE <<"ok", Meaning(doc, hurt)[1].sections>>

Fail == out' = Append(out, None) /\ todo' = {} /\ slots' = [m \in Members |-> None] /\ UNCHANGED <<doc, hurt, round, shown>>

Read(m) == /\ m \in todo
           /\ IF m = "x_other" THEN todo' = todo \ {m} /\ UNCHANGED <<doc, hurt, slots, round, out, shown>>
              ELSE LET v == Value(m)
                   IN  IF v[1] = "err" THEN Fail
                       ELSE /\ slots' = [slots EXCEPT ![m] = v[2]] /\ todo' = todo \ {m}
                            /\ UNCHANGED <<doc, hurt, round, out, shown>>

AsDoc == [version |-> Get(slots["version"]), file |-> slots["file"], root |-> slots["sourceRoot"], sources |-> slots["sources"],
          names |-> slots["names"], m |-> slots["mappings"], contents |-> slots["sourcesContent"], sections |-> slots["sections"]]

(* all members seen: a document, which is written and read once more *)
End == /\ todo = {} /\ Len(out) < round /\ (IF out = <<>> THEN TRUE ELSE IsSome(Last(out)))
       /\ IF IsNone(slots["version"]) THEN Fail
          ELSE /\ out' = Append(out, Some(AsDoc))
               /\ IF round = 1 THEN /\ round' = 2 /\ todo' = Present(AsDoc)
                                    /\ slots' = [m \in Members |-> None]
                  ELSE UNCHANGED <<round, todo, slots>>
               /\ UNCHANGED <<doc, hurt, shown>>

(* ---- what is replayed on the code ---- *)
Fixed == <<"version", "file", "sourceRoot", "sources", "names", "mappings", "sourcesContent", "sections">>
Orders == <<<<>>, Reverse(Fixed), <<"x_a", "sections", "version">>, <<"mappings", "x_b", "names", "sources", "x_c">>>>
Replay == [i \in DOMAIN Orders |-> [op |-> "rewrite", doc |-> doc, hurt |-> hurt, order |-> Orders[i], fmt |-> 0]]
Over == IF out = <<>> THEN FALSE ELSE IsNone(Last(out)) \/ Len(out) = 2
Done == /\ Over /\ ~shown /\ shown' = TRUE
        /\ PrintT("SCN " \o ToJson(Replay))
        /\ UNCHANGED <<doc, hurt, todo, slots, round, out>>

Next == (\E m \in todo : Read(m)) \/ End \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
Right == \A i \in DOMAIN out : out[i] = Meaning(doc, hurt)
Filled == \A m \in Members : IsSome(slots[m]) => m \notin todo
Ends == <>shown
=============================================================================
