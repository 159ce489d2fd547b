------------------------------- MODULE MCUrl --------------------------------
(* The laws of URL references: joining, relativising and normalising lead to
   the places that walking a tree of directories leads to.

   The walker reads the root reference as a directory and then the path.     *)
EXTENDS Walk, TLC, Json

CONSTANTS Names,     \* segments
          LenA, LenB,\* segments of the root and of the path, at most
          Kinds,     \* kinds of references
          Tails      \* with or without query and fragment

Paths(n) == UNION {[1..k -> Names] : k \in 0..n}
Slashed(P) == {p \in P : TRUE} \cup {Append(p, "") : p \in P}

(* "own" and "bare": an application's scheme, with and without authority *)
Ref(k, s, q, f) == [t |-> IF k \in {"own", "bare"} THEN "abs" ELSE k,
                    sch |-> CASE k = "abs" -> "http" [] k \in {"own", "bare"} -> "app" [] OTHER -> "",
                    host |-> CASE k \in {"abs", "scheme"} -> "h.org" [] k = "own" -> "" [] k = "bare" -> NoHost [] OTHER -> "",
                    segs |-> s, q |-> q, f |-> f]

(* how a parsed reference spells its path: never the empty sequence *)
Spelled(s) == IF s = <<>> THEN <<"">> ELSE s

RefsOf(n, tails) == {Ref(t, Spelled(s), q, f) : t \in Kinds, s \in Slashed(Paths(n)),
                     q \in IF tails THEN {None, Some("q=1")} ELSE {None}, f \in IF tails THEN {None, Some("f")} ELSE {None}}

As == RefsOf(LenA, FALSE)
Bs == RefsOf(LenB, Tails)

(* another host, to be kept apart *)
Foreign(t) == [t EXCEPT !.host = "other.net"]

VARIABLES a, b,     \* root and path
          at,       \* [top, dir, leaf]: where the walker is
          todo      \* segments still to walk
vars == <<a, b, at, todo>>

Init == /\ a \in As /\ b \in Bs /\ at = Start(a) /\ todo = a.segs

Sep == <<"|">>       \* the end of the root: what follows is the path
Step == /\ todo # <<>> /\ todo[1] # "|"
        /\ LET last == Len(todo) = 1
           IN  /\ at' = Into(at, todo[1], last)
               /\ todo' = Tail(todo)
        /\ UNCHANGED <<a, b>>

(* the root has been walked: read the path there *)
Turn == /\ todo = <<>> /\ at = Place(a)
        /\ at' = From(Enter(at), b) /\ todo' = Sep
        /\ UNCHANGED <<a, b>>

Op(o) == [op |-> o, a |-> Render(a), b |-> Render(b)]
Done == /\ todo = Sep
        /\ PrintT("SCN " \o ToJson(<<Op("join"), Op("relative"), Op("rejoin")>>))
        /\ todo' = <<"|", "|">> /\ UNCHANGED <<a, b, at>>

Next == Step \/ Turn \/ Done
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Read == todo = Sep

(* joining leads where reading the path in the root's directory leads *)
J == JoinRef(a, b)
JoinLeads == Read => Place(J) = at
JoinKeepsTail == Read => J.q = b.q /\ J.f = b.f
JoinNormal == Read => Normalize(J) = J

(* normalising changes no place, and a normal path has no needless dots *)
NormalLeads == Read => Place(Normalize(b)) = Place(b)
NoDots == Read => LET s == Normalize(b).segs IN
             /\ \A i \in DOMAIN s : s[i] # "."
             /\ Rooted(b) => \A i \in DOMAIN s : s[i] # ".."
             /\ \A i \in 2..Len(s) : s[i] = ".." => s[i - 1] = ".."
Idempotent == Read => Normalize(Normalize(b)) = Normalize(b)

(* the relative form leads from the root's directory to the target *)
R == RelRef(a, b)
SameKind == SamePlace(a, b)
RelLeads == (Read /\ SameKind /\ Expressible(a, b)) =>
               LET p == From(Enter(Place(a)), R) IN p = Place(b) \/ (AtOrAbove(a, b) /\ Enter(p) = Enter(Place(b)))
RelJoins == (Read /\ SameKind /\ Expressible(a, b)) =>
               \/ JoinRef(a, R) = Normalize(b)
               \/ AtOrAbove(a, b) /\ SameUpToSlash(JoinRef(a, R), Normalize(b))
ForeignKept == Read /\ b.t \in {"abs", "scheme"} => RelStr(Render(a), Render(Foreign(b))) = NormStr(Render(Foreign(b)))

(* spelling: nothing is read as another kind of reference, or elsewhere *)
Back(u) == Parse(Render(u))
Spelling == Read => /\ Normalize(Back(b)) = Normalize(b) /\ Back(b).t = b.t
                    /\ (Guard(b) = "" => Back(b) = b)
                    /\ Normalize(Back(J)) = J /\ Back(J).t = J.t
                    /\ Render(Normalize(Back(J))) = Render(J)
                    /\ SameKind => Back(R).t = "rel" /\ NormStr(Render(R)) = Render(R)
=============================================================================
