------------------------------ MODULE MCArraySet -----------------------------
(* The insertion-ordered set as the code keeps it: an array and a map from
   string to index, against the abstract sequence of insertions.             *)
EXTENDS Containers, TLC, Json

CONSTANTS Members, K

VARIABLES arr, map,   \* as in the code; map is a function on the members seen
          v,          \* abstract: the sequence
          h           \* operations so far
vars == <<arr, map, v, h>>

Init == arr = <<>> /\ map = <<>> /\ v = <<>> /\ h = <<>>

Add(x, dup) ==
    LET known == x \in DOMAIN map
        idx   == Len(arr)
    IN  /\ Len(h) < K
        /\ arr' = IF ~known \/ dup THEN Append(arr, x) ELSE arr
        /\ map' = IF known THEN map ELSE [y \in DOMAIN map \cup {x} |-> IF y = x THEN idx ELSE map[y]]
        /\ v' = SetAdd(v, x, dup)
        /\ h' = Append(h, [op |-> "aset_add", h |-> "s", x |-> x, dup |-> dup])

Asks == LET Q(x) == <<[op |-> "aset_has", h |-> "s", x |-> x], [op |-> "aset_index", h |-> "s", x |-> x]>>
            P(i) == <<[op |-> "aset_at", h |-> "s", idx |-> i - 2]>>
        IN  FlattenSeq(SeqMap(SetToSeq(Members), Q)) \o FlattenSeq([i \in 1..(K + 3) |-> P(i)])
            \o <<[op |-> "aset_size", h |-> "s"], [op |-> "aset_list", h |-> "s"]>>

(* the whole history, then every question; and the same insertions at once *)
Done == /\ Len(h) = K
        /\ PrintT("SCN " \o ToJson(<<[op |-> "aset_new", h |-> "s"]>> \o h \o Asks))
        /\ h' = Append(h, [op |-> "end"]) /\ UNCHANGED <<arr, map, v>>

Next == (\E x \in Members, d \in BOOLEAN : Add(x, d)) \/ Done
Spec == Init /\ [][Next]_vars

Member  == DOMAIN map = SetOf(v) /\ \A x \in Members : (x \in DOMAIN map) = SetHas(v, x)
Order   == arr = v
Index   == \A x \in DOMAIN map : SetIndex(v, x) = Some(map[x])
Size    == Cardinality(DOMAIN map) = SetSize(v)
Indices == \A x \in DOMAIN map : arr[map[x] + 1] = x /\ \A i \in 1..map[x] : arr[i] # x
NoDup   == (\A i \in DOMAIN h : h[i].op = "end" \/ ~h[i].dup) => Len(arr) = SetSize(v)
=============================================================================
