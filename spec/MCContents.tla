----------------------------- MODULE MCContents -----------------------------
(* Content lookup of a plain consumer as the code runs it - the whole list is
   copied, the source's position looked up, the entry taken if the list is
   long enough, and a missing source refused unless asked otherwise - against
   what the document holds, for every list of contents and every lookup.     *)
EXTENDS Consumer, TLC, Json

CONSTANTS MaxSources, MaxContents, Texts, K

Contents == {None} \cup {Some(t) : t \in UNION {[1..n -> {None} \cup {Some(t) : t \in Texts}] : n \in 0..MaxContents}}
Src(n) == [i \in 1..n |-> "s" \o ToString(i)]

VARIABLES n, contents, h, answer
vars == <<n, contents, h, answer>>

Doc == [version |-> 3, file |-> None, root |-> None, sources |-> Some(Src(n)), names |-> Some(<<>>), m |-> Some(<<>>),
        contents |-> contents, sections |-> None]
B == MkBasic(Doc, Src(n))

Init == n \in 1..MaxSources /\ contents \in Contents /\ h = <<>> /\ answer = "none"

Queries == {[op |-> "content", h |-> "c", src |-> s, panic |-> p] : s \in SetOf(Src(MaxSources)), p \in {None, Some(TRUE), Some(FALSE)}}
           \cup {[op |-> "hasall", h |-> "c"]}

(* the code *)
ImContent(s, p) ==
    IF IsNone(contents) THEN <<"ok", None>>
    ELSE LET i == FirstIndex(Src(n), s)
         IN  IF i = 0 THEN (IF OptOr(p, TRUE) THEN <<"panic">> ELSE <<"ok", None>>)
             ELSE <<"ok", IF i > Len(Get(contents)) THEN None ELSE Get(contents)[i]>>
ImHasAll == IF IsNone(contents) THEN FALSE
            ELSE /\ Len(Get(contents)) >= n
                 /\ \A i \in 1..n : IsSome(SubSeq(Get(contents), 1, n)[i])

Ask(q) == /\ Len(h) < (IF K = 0 THEN 1 ELSE K)
          /\ answer' = IF q.op = "hasall" THEN <<"ok", ImHasAll>> ELSE ImContent(q.src, q.panic)
          /\ h' = Append(h, q) /\ UNCHANGED <<n, contents>>

New == [op |-> "new", h |-> "c", ctor |-> "create", doc |-> Doc, url |-> None]
Done == /\ Len(h) = K
        /\ PrintT("SCN " \o ToJson(<<New>> \o IF K = 0 THEN SetToSeq(Queries) ELSE h))
        /\ h' = Append(h, [op |-> "end"]) /\ UNCHANGED <<n, contents, answer>>
Next == (\E q \in Queries : Ask(q)) \/ Done
Spec == Init /\ [][Next]_vars

Asked == h # <<>> /\ Last(h).op # "end"
Right == Asked =>
    LET q == Last(h) IN
    IF q.op = "hasall" THEN answer = <<"ok", HasAll(B)>>
    ELSE LET k == KnownAs(B.src, q.src)
         IN  IF k # 0 THEN answer = <<"ok", ContentAt(B, k)>>
             ELSE IF IsNone(contents) THEN answer = <<"ok", None>>
             ELSE answer = IF q.panic = Some(FALSE) THEN <<"ok", None>> ELSE <<"panic">>
=============================================================================
