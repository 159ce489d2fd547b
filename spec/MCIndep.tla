------------------------------- MODULE MCIndep -------------------------------
(* Several threads, each using a consumer of its own. They share one thing: the
   URL handlers, made by whichever thread needs them first while the others
   wait. Lookups of source names are memoised in the consumer.

   Every answer is the one the thread's own history alone would give, in every
   interleaving. Shared = TRUE keeps one memo for all consumers: the negative
   control, in which TLC finds a thread that gets another one's answer.       *)
EXTENDS Consumer, Url, TLC, Json

CONSTANTS Threads,  \* 1..n
          K,        \* calls of each thread after the consumer is made
          Shared,
          Whole     \* calls are not cut into steps (histories are printed)

Listing == <<"a.js", "lib/a.js">>
Roots == <<None, Some("/r"), Some("lib")>>
Calls == {"content a.js", "content lib/a.js", "content zz.js", "orig", "spans"}
SrcOf(c) == CASE c = "content a.js" -> "a.js" [] c = "content lib/a.js" -> "lib/a.js" [] OTHER -> "zz.js"
IsContent(c) == c \notin {"orig", "spans"}

Reported == [k \in DOMAIN Roots |-> SeqMap(Listing, LAMBDA x : SourceStr(Roots[k], x, None))]
Alone == [k \in DOMAIN Roots |-> [c \in {c \in Calls : IsContent(c)} |-> Recognise(Reported[k], Roots[k], SrcOf(c), None)]]

VARIABLES root,      \* thread -> its document's source root, as an index
          handlers,  \* "none", "made by t", "ready"
          pc,        \* thread -> "new", "idle", "call", "end"
          call,      \* thread -> the call under way
          memo,      \* consumer (or "all") -> source name -> answer, 0 if not asked
          answers,   \* thread -> sequence of <<call, answer>>
          log        \* order in which calls returned: <<thread, call>>
vars == <<root, handlers, pc, call, memo, answers, log>>

MemoOf(t) == IF Shared THEN 0 ELSE t

Init == /\ root \in [Threads -> DOMAIN Roots] /\ handlers = 0
        /\ pc = [t \in Threads |-> "new"] /\ call = [t \in Threads |-> "new"]
        /\ memo = [m \in {0} \cup Threads |-> [c \in Calls |-> 0]]
        /\ answers = [t \in Threads |-> <<>>] /\ log = <<>>

Ready == handlers = -1
(* the first to need the handlers makes them *)
Claim(t) == /\ pc[t] \in {"new", "call"} /\ handlers = 0 /\ (IF pc[t] = "call" THEN IsContent(call[t]) ELSE TRUE)
            /\ handlers' = t /\ UNCHANGED <<root, pc, call, memo, answers, log>>
Provide(t) == handlers = t /\ handlers' = -1 /\ UNCHANGED <<root, pc, call, memo, answers, log>>

Made(t) == /\ pc[t] = "new" /\ Ready
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ log' = IF Whole THEN Append(log, <<t, "new">>) ELSE log
           /\ UNCHANGED <<root, handlers, call, memo, answers>>

Start(t, c) == /\ pc[t] = "idle" /\ Len(answers[t]) < K
               /\ pc' = [pc EXCEPT ![t] = "call"] /\ call' = [call EXCEPT ![t] = c]
               /\ UNCHANGED <<root, handlers, memo, answers, log>>

Back(t, v) == /\ answers' = [answers EXCEPT ![t] = Append(@, <<call[t], v>>)]
              /\ pc' = [pc EXCEPT ![t] = IF Len(answers[t]) + 1 = K THEN "end" ELSE "idle"]
              /\ log' = IF Whole THEN Append(log, <<t, call[t]>>) ELSE log

Return(t) ==
    /\ pc[t] = "call"
    /\ IF ~IsContent(call[t]) THEN Back(t, 0) /\ UNCHANGED memo
       ELSE IF memo[MemoOf(t)][call[t]] # 0 THEN Back(t, memo[MemoOf(t)][call[t]]) /\ UNCHANGED memo
       ELSE /\ Ready
            /\ LET v == Alone[root[t]][call[t]]
               IN  Back(t, v) /\ memo' = [memo EXCEPT ![MemoOf(t)][call[t]] = v]
    /\ UNCHANGED <<root, handlers, call>>

(* with Whole nothing happens between a call and its return *)
Quiet(t) == ~Whole \/ \A u \in Threads \ {t} : pc[u] # "call" /\ handlers # u

(* ---- what is replayed on the code ---- *)
Text == <<65, 65, 65, 65, 44, 67, 67, 65, 65>>              \* AAAA,CCAA
Doc(t) == [version |-> 3, file |-> None, root |-> Roots[root[t]], sources |-> Some(Listing), names |-> Some(<<>>), m |-> Some(Text),
           contents |-> Some(<<Some("first of " \o ToString(t)), Some("second of " \o ToString(t))>>), sections |-> None]
H(t) == "c" \o ToString(t)
Op(x) == LET t == x[1] IN
    CASE x[2] = "new"   -> [op |-> "new", h |-> H(t), ctor |-> "create", doc |-> Doc(t), url |-> None, p |-> "C13"]
      [] x[2] = "orig"  -> [op |-> "orig", h |-> H(t), line |-> 1, col |-> 1, bias |-> 0, p |-> "C11"]
      [] x[2] = "spans" -> [op |-> "spans", h |-> H(t), p |-> "C11"]
      [] OTHER -> [op |-> "content", h |-> H(t), src |-> SrcOf(x[2]), panic |-> Some(FALSE), p |-> "C14"]
Over == \A t \in Threads : pc[t] = "end"
Done == /\ Whole /\ Over /\ log[1] # <<>>
        /\ PrintT("SCN " \o ToJson(SeqMap(log, Op)))
        /\ log' = <<<<>>>> /\ UNCHANGED <<root, handlers, pc, call, memo, answers>>

Next == Done \/ \E t \in Threads : Quiet(t) /\ (Claim(t) \/ Provide(t) \/ Made(t) \/ Return(t) \/ \E c \in Calls : Start(t, c))
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Quiet(t) /\ (Claim(t) \/ Provide(t) \/ Made(t) \/ Return(t) \/ \E c \in Calls : Start(t, c)))

------------------------------------------------------------------------------
Own == \A t \in Threads : \A i \in DOMAIN answers[t] :
         LET c == answers[t][i][1]
         IN  answers[t][i][2] = IF IsContent(c) THEN Alone[root[t]][c] ELSE 0
OneMaker == handlers # 0 => \A t, u \in Threads : (handlers = t /\ handlers = u) => t = u
Ends == <>Over
=============================================================================
