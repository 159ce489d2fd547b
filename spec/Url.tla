-------------------------------- MODULE Url ---------------------------------
(* URL references as they appear in source maps: parsing, normalisation,
   joining, relativising, and the resolution of "sources" entries.

   A reference is [t, sch, host, segs, q, f]
     t    "abs" (scheme://host/path), "scheme" (//host/path),
          "path" (/path) or "rel" (path)
     segs the path split at "/" (without the leading "/")
     q, f optional query and fragment, without "?" and "#"
   Characters a URL does not hold are escaped (escapes.json: per part, what is
   written instead), and except in schemes of the application's own a backslash
   in the path separates segments. Schemes and hosts are written in small
   letters, and a scheme's own port not at all.
   An application's scheme may be without authority ("webpack:/src/a.js").
   Domain: no escaped dots, no reference that starts with a scheme that is not
   followed by a slash, no special scheme followed by one slash only, no
   control characters, no space at either end, no leading backslash.         *)
EXTENDS Common, Json

Escapes == JsonDeserialize("escapes.json")

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
IndexIn(s, ch) == FirstIndex(Chars(s), ch)           \* 0 if absent
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

RECURSIVE Split(_)
Split(s) == LET k == IndexIn(s, "/")
            IN  IF k = 0 THEN <<s>> ELSE <<Take(s, k - 1)>> \o Split(Drop(s, k))

Join(segs) == IF segs = <<>> THEN ""
              ELSE FoldLeft(LAMBDA a, x : a \o "/" \o x, segs[1], Tail(segs))

(* string s with the characters in the domain of t replaced *)
Replaced(s, t) == IF \A i \in 1..Len(s) : SubSeq(s, i, i) \notin DOMAIN t THEN s
                  ELSE FoldLeft(LAMBDA a, x : a \o (IF x \in DOMAIN t THEN t[x] ELSE x), "", Chars(s))
Backslash == [x \in {"\\"} |-> "/"]
Upper == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LowerOf == [x \in SetOf(Upper) |-> Chars("abcdefghijklmnopqrstuvwxyz")[FirstIndex(Upper, x)]]
Lowered(s) == Replaced(s, LowerOf)
Special == {"http", "https", "ws", "wss", "ftp", "file"}

Letters == SetOf(Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"))
SchemeChars == SetOf(Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+-."))

StartsWith(s, p) == Len(s) >= Len(p) /\ Take(s, Len(p)) = p

(* number of leading scheme characters followed by ":/", 0 if there is none *)
SchemeLen(s) == LET k == IndexIn(s, ":")
                IN  IF k < 2 \/ k >= Len(s) THEN 0
                    ELSE IF SubSeq(s, k+1, k+1) # "/" THEN 0
                    ELSE IF Take(s, 1) \notin Letters THEN 0
                    ELSE IF \A i \in 1..(k-1) : SubSeq(s, i, i) \in SchemeChars THEN k - 1 ELSE 0

Type(s) == IF StartsWith(s, "//") THEN "scheme"
           ELSE IF StartsWith(s, "/") THEN "path"
           ELSE IF SchemeLen(s) > 0 THEN "abs" ELSE "rel"

(* no authority at all, which is not the same as an empty one *)
NoHost == "<none>"

(* everything after "//": host and path segments *)
HostPath(s) == LET k == IndexIn(s, "/")
               IN  IF k = 0 THEN [host |-> s, segs |-> <<"">>]
                   ELSE [host |-> Take(s, k - 1), segs |-> Split(Drop(s, k))]

(* a host's letters are small ones, and its scheme's own port goes unsaid *)
OwnPort(sch) == CASE sch \in {"http", "ws"} -> ":80" [] sch \in {"https", "wss"} -> ":443" [] sch = "ftp" -> ":21" [] OTHER -> ""
HostIn(sch, host) ==
    LET u == IndexIn(host, "@")
        h == Lowered(Drop(host, u))
        p == OwnPort(sch)
        n == Len(h) - Len(p)
    IN  Take(host, u) \o (IF p # "" /\ n > 0 /\ Drop(h, n) = p THEN Take(h, n) ELSE h)

(* own: the reference is read in a scheme of the application's own *)
ParseIn(str, own) ==
    LET h  == IndexIn(str, "#")
        f  == IF h = 0 THEN None ELSE Some(Replaced(Drop(str, h), Escapes.frag))
        s1 == IF h = 0 THEN str ELSE Take(str, h - 1)
        m  == IndexIn(s1, "?")
        q  == IF m = 0 THEN None ELSE Some(Replaced(Drop(s1, m), Escapes.query))
        s2 == IF m = 0 THEN s1 ELSE Take(s1, m - 1)
        t  == Type(s2)
        n  == SchemeLen(s2)
        s  == IF (IF t = "abs" THEN Lowered(Take(s2, n)) \notin Special ELSE own) THEN s2 ELSE Replaced(s2, Backslash)
        hp == IF t = "abs"
              THEN IF StartsWith(Drop(s, n + 1), "//") THEN HostPath(Drop(s, n + 3))
                   ELSE [host |-> NoHost, segs |-> Split(Drop(s, n + 2))]
              ELSE HostPath(Drop(s, 2))
    IN  [t    |-> t,
         sch  |-> IF t = "abs" THEN Lowered(Take(s, n)) ELSE "",
         host |-> CASE t = "abs" -> IF Lowered(Take(s, n)) \in Special THEN HostIn(Lowered(Take(s, n)), hp.host) ELSE hp.host
                    [] t = "scheme" -> IF own THEN hp.host ELSE HostIn("", hp.host)
                    [] OTHER -> "",
         segs |-> SeqMap(CASE t \in {"abs", "scheme"} -> hp.segs
                           [] t = "path" -> Split(Drop(s, 1))
                           [] OTHER -> Split(s), LAMBDA x : Replaced(x, Escapes.path)),
         q |-> q, f |-> f]

Parse(str) == ParseIn(str, FALSE)
AppScheme(u) == u.t = "abs" /\ u.sch \notin Special

(* what keeps a path from being read as something else: a host, an absolute
   path or a scheme                                                          *)
Guard(u) ==
    LET empty == Len(u.segs) > 1 /\ u.segs[1] = ""
    IN  IF u.t = "path" \/ (u.t = "abs" /\ u.host = NoHost) THEN (IF empty THEN "./" ELSE "")
        ELSE IF u.t = "rel" THEN (IF empty \/ (u.segs # <<>> /\ IndexIn(u.segs[1], ":") # 0) THEN "./" ELSE "")
        ELSE ""

Render(u) ==
    (CASE u.t = "abs"    -> u.sch \o (IF u.host = NoHost THEN ":/" ELSE "://" \o u.host \o "/")
       [] u.t = "scheme" -> "//" \o u.host \o "/"
       [] u.t = "path"   -> "/"
       [] OTHER          -> "")
    \o Guard(u)
    \o Join(u.segs)
    \o (IF IsSome(u.q) THEN "?" \o Get(u.q) ELSE "")
    \o (IF IsSome(u.f) THEN "#" \o Get(u.f) ELSE "")

------------------------------------------------------------------------------
(* removal of dot segments; a final "." or ".." leaves a directory *)
DirEnd(acc, last) == IF last THEN Append(acc, "") ELSE acc

Norm(segs, rooted) ==
    LET n == Len(segs)
        Step(a, i) ==
            LET x == segs[i] last == i = n
            IN  IF x = "." THEN [a EXCEPT !.p = DirEnd(@, last)]
                ELSE IF x = ".." THEN
                     IF a.p = <<>> THEN [up |-> IF rooted THEN 0 ELSE a.up + 1, p |-> DirEnd(<<>>, last)]
                     ELSE [a EXCEPT !.p = DirEnd(Front(a.p), last)]
                ELSE [a EXCEPT !.p = Append(@, x)]
        r == FoldLeft(Step, [up |-> 0, p |-> <<>>], [i \in 1..n |-> i])
    IN  [i \in 1..r.up |-> ".."] \o r.p

Rooted(u) == u.t # "rel"
Normalize(u) == [u EXCEPT !.segs = Norm(@, Rooted(u))]

(* the directory a reference names, without the final empty segment *)
DirSegs(u) == LET s == Norm(u.segs, Rooted(u))
              IN  IF s # <<>> /\ Last(s) = "" THEN Front(s) ELSE s

(* reference p resolved against r taken as a directory *)
JoinRef(r, p) ==
    CASE p.t = "abs" -> Normalize(p)
      [] p.t = "scheme" -> Normalize(IF r.t = "abs" THEN [p EXCEPT !.t = "abs", !.sch = r.sch, !.host = IF r.sch \in Special THEN HostIn(r.sch, @) ELSE @]
                                      ELSE p)
      [] p.t = "path" -> Normalize(IF r.t \in {"abs", "scheme"}
                                   THEN [p EXCEPT !.t = r.t, !.sch = r.sch, !.host = r.host] ELSE p)
      [] OTHER -> Normalize([p EXCEPT !.t = r.t, !.sch = r.sch, !.host = r.host,
                                      !.segs = DirSegs(r) \o p.segs])

JoinStr(a, b) == LET r == Parse(a) IN Render(JoinRef(r, ParseIn(b, AppScheme(r))))
NormStr(a) == Render(Normalize(Parse(a)))

------------------------------------------------------------------------------
SamePlace(r, t) == r.t = t.t /\ r.sch = t.sch /\ r.host = t.host

RECURSIVE CommonLen(_, _, _)
CommonLen(a, b, k) == IF k < Len(a) /\ k < Len(b) /\ a[k+1] = b[k+1] THEN CommonLen(a, b, k+1) ELSE k

(* number of leading ".." of a normalised relative path *)
Ups(s) == Len(SelectSeq(s, LAMBDA x : x = ".."))

(* target relative to root taken as a directory; defined when both are of the
   same kind and host                                                        *)
RelRef(r, t) ==
    LET rs == DirSegs(r)
        ts == Norm(t.segs, Rooted(t))
        \* nothing after a final slash is no directory
        k  == CommonLen(rs, IF ts # <<>> /\ Last(ts) = "" THEN Front(ts) ELSE ts, 0)
    IN  [t |-> "rel", sch |-> "", host |-> "",
         segs |-> [i \in 1..(Len(rs) - k) |-> ".."] \o SubSeq(ts, k + 1, Len(ts)),
         q |-> t.q, f |-> t.f]

(* going up from a relative directory that itself starts above the base cannot
   be expressed (its name is not known)                                      *)
Expressible(r, t) ==
    Rooted(r) \/ LET rs == DirSegs(r) ts == Norm(t.segs, FALSE)
                 IN  Ups(rs) <= Ups(ts)

RelStr(a, b) == LET r == Parse(a) t == Parse(b)
                IN  IF SamePlace(r, t) THEN Render(RelRef(r, t)) ELSE NormStr(b)

(* equality of normalised references up to a final slash *)
NoSlash(s) == IF s # <<>> /\ Last(s) = "" THEN Front(s) ELSE s
SameUpToSlash(u, v) == [u EXCEPT !.segs = NoSlash(@)] = [v EXCEPT !.segs = NoSlash(@)]

(* is (normalised) t the root itself or a directory above it? *)
AtOrAbove(r, t) == LET rs == DirSegs(r) ts == NoSlash(Norm(t.segs, Rooted(t)))
                   IN  IsPrefix(ts, rs) \/ (~Rooted(r) /\ ts # <<>> /\ \A i \in DOMAIN ts : ts[i] = "..")

------------------------------------------------------------------------------
(* the directory of a map URL *)
TrimFile(u) == LET s == Norm(u.segs, Rooted(u))
               IN  [u EXCEPT !.segs = (IF s = <<>> THEN <<>> ELSE Front(s)) \o <<"">>]

(* an entry of "sources" resolved; root and url optional strings *)
SourceRef(root, src, url) ==
    LET has == IsSome(root) /\ Get(root) # ""
        s0  == Parse(src)
        s1  == IF has /\ s0.t = "path" THEN [s0 EXCEPT !.t = "rel"] ELSE s0
        s2  == Normalize(s1)
        s3  == IF has THEN JoinRef(Parse(Get(root)), s2) ELSE s2
    IN  IF IsSome(url) THEN JoinRef(TrimFile(Parse(Get(url))), s3) ELSE s3

SourceStr(root, src, url) == Render(SourceRef(root, src, url))

(* recognition of a source name: resolved against the map URL alone, else
   against the source root as well; the position in the reported list, 0 if
   unknown                                                                   *)
Recognise(reported, root, src, url) ==
    LET a == FirstIndex(reported, SourceStr(None, src, url))
        b == FirstIndex(reported, SourceStr(root, src, url))
    IN  IF a # 0 THEN a ELSE b
=============================================================================
