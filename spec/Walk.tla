-------------------------------- MODULE Walk --------------------------------
(* What URL references mean, independently of how they are computed: walking a
   tree of directories. A reference leads from the directory in which it is
   read to a place; ".." goes up (and stays at a root), "." stays.           *)
EXTENDS Url

(* relative references are read in a directory deep enough never to be left *)
Deep == <<"u", "v", "w", "x", "y", "z">>
Top(r) == IF r.t = "rel" THEN [t |-> "rel", sch |-> "", host |-> ""] ELSE [t |-> r.t, sch |-> r.sch, host |-> r.host]
Start(r) == [top |-> Top(r), dir |-> IF r.t = "rel" THEN Deep ELSE <<>>, leaf |-> None]

(* one step: into a name, which may be empty in the middle. A name with nothing
   after it is a file there.                                                 *)
Into(p, x, last) ==
    IF x = "." \/ (x = "" /\ last) THEN [p EXCEPT !.leaf = None]
    ELSE IF x = ".." THEN [p EXCEPT !.dir = IF @ = <<>> THEN <<>> ELSE Front(@), !.leaf = None]
    ELSE IF last THEN [p EXCEPT !.leaf = Some(x)]
    ELSE [p EXCEPT !.dir = Append(@, x)]

RECURSIVE Walk(_, _)
Walk(p, segs) == IF segs = <<>> THEN p
                 ELSE Walk(Into(p, segs[1], Len(segs) = 1), Tail(segs))

(* a place entered as a directory *)
Enter(p) == IF IsSome(p.leaf) THEN [p EXCEPT !.dir = Append(@, Get(p.leaf)), !.leaf = None] ELSE p

(* where a reference read in place p leads *)
From(p, r) ==
    CASE r.t = "abs"    -> Walk(Start(r), r.segs)
      [] r.t = "scheme" -> Walk([Start(r) EXCEPT !.top = IF p.top.t = "abs" THEN [p.top EXCEPT !.host = r.host] ELSE @], r.segs)
      [] r.t = "path"   -> Walk([Start(r) EXCEPT !.top = IF p.top.t \in {"abs", "scheme"} THEN p.top ELSE @], r.segs)
      [] OTHER          -> Walk([p EXCEPT !.leaf = None], r.segs)

Place(r) == Walk(Start(r), r.segs)
=============================================================================
