------------------------------- MODULE MCBuild ------------------------------
(* Construction of an indexed consumer: a sequential pass over the offsets,
   then a pool of workers that split the list of sections between them and
   build one section each at a time, in any interleaving; a worker that meets a
   section with a URL or a map of another version panics, and so does the
   construction, once the workers have stopped.

   Racy = TRUE moves the offset check into the workers, which compare with the
   offset some worker saw last: the negative control, in which TLC finds the
   outcome to depend on the schedule.                                        *)
EXTENDS Consumer, TLC, Json

CONSTANTS NS,        \* sections, at most
          Workers,   \* a set
          Offs,      \* possible offsets, a set of pairs
          Faults,    \* kinds of sections: "ok", "url", "version", "embedded"
          Racy

FourOffs == {<<0, 0>>, <<0, 2>>, <<1, 0>>, <<1, 3>>}
ThreeOffs == {<<0, 1>>, <<0, 3>>, <<1, 0>>}

VARIABLES f, kinds, version,   \* the document: offsets and kind of each section
          pc,                  \* "pass", "build", "joined"
          next,                \* the pass: section to look at
          last,                \* offset seen last
          todo,                \* worker -> interval of sections left
          slot,                \* section -> built?
          busy,                \* worker -> section being checked, 0 if none
          panicked
vars == <<f, kinds, version, pc, next, last, todo, slot, busy, panicked>>

Sections == DOMAIN f
Lt(a, b) == PairLt(a[1], a[2], b[1], b[2])

(* the pool splits 1..n into intervals, one per worker, in any way *)
Splits(n) == {g \in [Workers -> SUBSET (1..n)] :
                 /\ \A v, w \in Workers : v # w => g[v] \cap g[w] = {}
                 /\ UNION {g[w] : w \in Workers} = 1..n}

Init == /\ \E n \in 0..NS : f \in [1..n -> Offs] /\ kinds \in [1..n -> Faults \ {"version"}]
        /\ version \in {3} \cup (IF "version" \in Faults THEN {2} ELSE {})
        /\ pc = "pass" /\ next = 1 /\ last = <<-1, 0>>
        /\ todo = [w \in Workers |-> {}] /\ busy = [w \in Workers |-> 0]
        /\ slot = [i \in DOMAIN f |-> FALSE] /\ panicked = FALSE

Stop == pc' = "joined" /\ panicked' = TRUE /\ UNCHANGED <<f, kinds, version, next, last, todo, slot, busy>>

Pass == /\ pc = "pass"
        /\ IF version # 3 THEN Stop
           ELSE IF Racy \/ next > Len(f)
           THEN /\ pc' = "build" /\ last' = <<-1, 0>>
                /\ todo' \in Splits(Len(f))
                /\ UNCHANGED <<f, kinds, version, next, slot, busy, panicked>>
           ELSE IF Lt(f[next], last) THEN Stop
           ELSE /\ last' = f[next] /\ next' = next + 1
                /\ UNCHANGED <<f, kinds, version, pc, todo, slot, busy, panicked>>

(* a worker takes a section; with the racy check it reads and writes the
   offset seen last                                                          *)
Take(w) == /\ pc = "build" /\ busy[w] = 0 /\ todo[w] # {}
           /\ LET i == Min(todo[w])
              IN  /\ todo' = [todo EXCEPT ![w] = @ \ {i}]
                  /\ IF kinds[i] # "ok" \/ (Racy /\ Lt(f[i], last))
                     THEN panicked' = TRUE /\ UNCHANGED <<busy, last>>
                     ELSE /\ busy' = [busy EXCEPT ![w] = i]
                          /\ last' = IF Racy THEN f[i] ELSE last
                          /\ UNCHANGED panicked
           /\ UNCHANGED <<f, kinds, version, pc, next, slot>>

Build(w) == /\ pc = "build" /\ busy[w] # 0
            /\ slot' = [slot EXCEPT ![busy[w]] = TRUE]
            /\ busy' = [busy EXCEPT ![w] = 0]
            /\ UNCHANGED <<f, kinds, version, pc, next, last, todo, panicked>>

(* work left over moves to an idle worker *)
Steal(v, w) == /\ pc = "build" /\ v # w /\ todo[v] = {} /\ busy[v] = 0 /\ Cardinality(todo[w]) > 1
               /\ LET i == Max(todo[w]) IN todo' = [todo EXCEPT ![v] = {i}, ![w] = @ \ {i}]
               /\ UNCHANGED <<f, kinds, version, pc, next, last, slot, busy, panicked>>

(* after a panic work not begun may be dropped *)
JoinAll == /\ pc = "build" /\ \A w \in Workers : busy[w] = 0 /\ (todo[w] = {} \/ panicked)
           /\ pc' = "joined"
           /\ UNCHANGED <<f, kinds, version, next, last, todo, slot, busy, panicked>>

(* ---- what is replayed on the code ---- *)
Sub(i) == [version |-> IF kinds[i] = "embedded" THEN 2 ELSE 3, file |-> None, root |-> None, sources |-> Some(<<"s" \o ToString(i)>>),
           names |-> Some(<<>>), m |-> Some(<<>>), contents |-> None, sections |-> None]
Doc == [version |-> version, file |-> None, root |-> None, sources |-> None, names |-> None, m |-> None, contents |-> None,
        sections |-> Some([i \in DOMAIN f |-> [ol |-> f[i][1], oc |-> f[i][2], doc |-> Sub(i),
                                              url |-> IF kinds[i] = "url" THEN Some("http://h.org/x.map") ELSE None]])]
Shown == /\ pc = "pass" /\ next = 1 /\ last = <<-1, 0>>
         /\ PrintT("SCN " \o ToJson(<<[op |-> "build", doc |-> Doc, url |-> None, ctor |-> "create", threads |-> <<1, 2, 4>>, reps |-> 2]>>))
Told == (pc = "pass" /\ next = 1 /\ ~Racy /\ \A i \in DOMAIN f : kinds[i] # "embedded") => Shown

Next == Pass \/ \E w \in Workers : Take(w) \/ Build(w) \/ \E v \in Workers : Steal(v, w)
        \/ JoinAll
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
(* the outcome is a function of the document *)
Outcome == pc = "joined" => (panicked = ~(VersionsOK(Doc) /\ Acceptable(Doc)))
Complete == (pc = "joined" /\ ~panicked) => \A i \in DOMAIN f : slot[i]
Once == \A v, w \in Workers : v # w => todo[v] \cap todo[w] = {} /\ (busy[v] = 0 \/ busy[v] # busy[w])
Joins == <>(pc = "joined")
=============================================================================
