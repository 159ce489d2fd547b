--------------------------- MODULE SourceMapText ----------------------------
(* The "mappings" text of a Source Map v3 document: a decoder automaton over
   character codes, and an encoder (used by the generator model).

   A decoded segment is
     [gl, gc, o]  with o = None or Some([s, l, c, n])
   gl and l 1-based, columns 0-based, s a 0-based source index, n an optional
   0-based name index.                                                      *)
EXTENDS Vlq

Comma == 44
Semi  == 59

TextInit == [ok |-> TRUE, line |-> 1, f |-> <<0, 0, 0, 0, 0>>, k |-> 0,
             sep |-> FALSE, d |-> DecInit, segs |-> <<>>]

Seg(t) == [gl |-> t.line, gc |-> t.f[1],
           o  |-> IF t.k = 1 THEN None
                  ELSE Some([s |-> t.f[2], l |-> t.f[3] + 1, c |-> t.f[4],
                             n |-> IF t.k = 5 THEN Some(t.f[5]) ELSE None])]

Bad(t) == [t EXCEPT !.ok = FALSE]

(* close the current segment, if any; a separator must follow a segment that
   a comma announced                                                        *)
Close(t) == IF t.d.j # 0 THEN Bad(t)
            ELSE IF t.k = 0 THEN (IF t.sep THEN Bad(t) ELSE t)
            ELSE IF t.k \in {1, 4, 5} THEN [t EXCEPT !.segs = Append(@, Seg(t)), !.k = 0, !.sep = FALSE]
            ELSE Bad(t)

TextStep(t, c) ==
    IF ~t.ok THEN t
    ELSE IF c = Comma THEN (IF t.k = 0 THEN Bad(t) ELSE [Close(t) EXCEPT !.sep = TRUE])
    ELSE IF c = Semi  THEN LET u == Close(t)
                           IN  [u EXCEPT !.line = @ + 1, !.f[1] = 0]
    ELSE LET d == DecStep(t.d, c)
         IN  CASE d.st = "bad" -> Bad(t)
               [] d.st = "go"  -> [t EXCEPT !.d = d]
               [] OTHER ->
                    LET delta == IF d.neg THEN -d.mag ELSE d.mag
                        k     == t.k + 1
                    IN  IF k > 5 THEN Bad(t)
                        ELSE IF delta > 0 /\ t.f[k] > MaxInt - delta THEN Bad(t)
                        ELSE IF t.f[k] + delta < 0 THEN Bad(t)
                        ELSE [t EXCEPT !.d = DecInit, !.k = k, !.f[k] = @ + delta]

(* [ok, segs] *)
DecodeText(chars) ==
    LET t == Close(FoldLeft(TextStep, TextInit, chars))
    IN  [ok |-> t.ok, segs |-> t.segs]

------------------------------------------------------------------------------
(* Encoder: segments (indices) in document order -> character codes.
   Fields are written relative to the previous value of the same field; the
   generated column restarts on every line; a segment equal to its
   predecessor is written once.                                             *)
EncInit == [out |-> <<>>, line |-> 1, f |-> <<0, 0, 0, 0, 0>>, prev |-> None]

Fields(m) == <<m.gc>> \o (IF IsNone(m.o) THEN <<>>
             ELSE LET o == Get(m.o) IN <<o.s, o.l - 1, o.c>> \o o.n)

EncStep(e, m) ==
    LET jump  == m.gl - e.line
        f0    == IF jump > 0 THEN [e.f EXCEPT ![1] = 0] ELSE e.f
        flds  == Fields(m)
        semis == [i \in 1..jump |-> Semi]
        glue  == IF jump = 0 /\ IsSome(e.prev) THEN <<Comma>> ELSE <<>>
        body  == FlattenSeq([k \in DOMAIN flds |-> Encode(flds[k] - f0[k])])
    IN  IF e.prev = Some(m) THEN e
        ELSE [out  |-> e.out \o semis \o glue \o body,
              line |-> m.gl,
              f    |-> [k \in 1..5 |-> IF k <= Len(flds) THEN flds[k] ELSE f0[k]],
              prev |-> Some(m)]

EncodeText(segs) == FoldLeft(EncStep, EncInit, segs).out
=============================================================================
