------------------------------ MODULE Document -------------------------------
(* Source map documents as values, read from text and written back.

   A document is [version, file, root, sources, names, m, contents, sections];
   all members but the version are optional. A section is [ol, oc, url, doc].
   An absent member and a null one mean the same; members a source map does not
   have are passed over; the order of members means nothing.

   A hurt is one change to the text: in section `sec` (0: the document itself)
   the member `member` is left out, or its value replaced by one of the kind
   `kind`.                                                                    *)
EXTENDS Common

Ints == {"version", "line", "column"}
Strs == {"file", "sourceRoot", "mappings", "url"}
Lists == {"sources", "names", "sourcesContent", "sections"}
Objs == {"offset", "map"}
InSection == {"offset", "map", "line", "column", "url"}     \* members only a section has
Optional == Strs \cup Lists

Kinds == {"drop", "null", "string", "number", "float", "big", "bool", "array", "object", "mixed"}

(* a value of the member's own type says nothing *)
Neutral(hurt) == \/ hurt.kind = "string" /\ hurt.member \in Strs
                 \/ hurt.kind = "number" /\ hurt.member \in Ints
                 \/ hurt.kind = "array" /\ hurt.member \in Lists

Refused(hurt) == IF hurt.kind \in {"drop", "null"} THEN hurt.member \notin Optional ELSE ~Neutral(hurt)

FieldOf(member) == CASE member = "file" -> "file" [] member = "sourceRoot" -> "root" [] member = "sources" -> "sources"
                     [] member = "names" -> "names" [] member = "mappings" -> "m" [] member = "sourcesContent" -> "contents"
                     [] member = "sections" -> "sections"

Without(doc, member) == [doc EXCEPT ![FieldOf(member)] = None]

(* the document a text means: hurt is None or Some(hurt); None if refused *)
Meaning(doc, hurt) ==
    IF IsNone(hurt) THEN Some(doc)
    ELSE LET h == Get(hurt) IN
         IF Refused(h) THEN None
         ELSE IF h.kind \notin {"drop", "null"} THEN Some(doc)
         ELSE IF h.sec = 0 THEN Some(Without(doc, h.member))
         ELSE Some([doc EXCEPT !.sections[1][h.sec] =
                      IF h.member = "url" THEN [@ EXCEPT !.url = None]
                      ELSE [@ EXCEPT !.doc = Without(@, h.member)]])
=============================================================================
