------------------------------ MODULE CrankMC ------------------------------
(***************************************************************************)
(* The crank in its loop, next to a market that keeps producing events.     *)
(*                                                                          *)
(* The queue is the sequence of the owners of its events, oldest first. In  *)
(* a round the crank looks at the queue, picks the open-orders accounts to  *)
(* name, and every worker sends one transaction naming them. The program    *)
(* takes events off the front while their owner is named, at most Limit of  *)
(* them. New events arrive at any moment, so a transaction may run against  *)
(* a longer queue than the one it was made for, and workers may find that   *)
(* others have already done their work.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Owners,      \* 0..n-1
          Room,        \* accounts that fit in a transaction
          Limit,       \* events per transaction
          Workers,
          MaxSteps

VARIABLES q, seen, todo, hist, steps, sent, met
vars == <<q, seen, todo, hist, steps, sent, met>>

Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Pick(_, _)
\* the owners of the oldest events, as many as there is room for
Pick(s, P) == IF s = <<>> \/ Cardinality(P) = Room THEN P ELSE Pick(Tail(s), P \cup {Head(s)})
RECURSIVE Reach(_, _, _)
Reach(s, P, n) == IF s = <<>> \/ n = 0 \/ Head(s) \notin P THEN 0 ELSE 1 + Reach(Tail(s), P, n - 1)

Init == q = <<>> /\ seen = {} /\ todo = 0 /\ hist = "" /\ steps = 0 /\ sent = TRUE /\ met = 0

\* owners are interchangeable: they appear in order
Arrive(o) ==
  /\ steps < MaxSteps /\ o =< met
  /\ met' = IF o = met THEN met + 1 ELSE met
  /\ q' = Append(q, o)
  /\ hist' = hist \o " a" \o ToString(o) /\ steps' = steps + 1
  /\ UNCHANGED <<seen, todo, sent>>
\* a round begins: the queue is read once, for all workers
Look ==
  /\ todo = 0 /\ q # <<>>
  /\ seen' = Pick(q, {}) /\ todo' = Workers /\ sent' = FALSE
  /\ hist' = IF steps < MaxSteps THEN hist \o " c" ELSE hist
  /\ steps' = IF steps < MaxSteps THEN steps + 1 ELSE steps
  /\ UNCHANGED <<q, met>>
Send ==
  /\ todo > 0
  /\ LET k == Reach(q, seen, Limit) IN
     /\ q' = SubSeq(q, k + 1, Len(q))
     /\ sent' = (sent \/ k > 0)
  /\ todo' = todo - 1
  /\ UNCHANGED <<seen, hist, steps, met>>
Next == (\E o \in Owners : Arrive(o)) \/ Look \/ Send
Spec == Init /\ [][Next]_vars /\ WF_vars(Look) /\ WF_vars(Send)

\* every round takes something off the queue
Progress == todo = 0 => sent
\* in particular its first transaction does
FirstCounts == (todo = Workers /\ q # <<>>) => Reach(q, seen, Limit) > 0
\* and the queue is empty again and again once events stop arriving
Drains == []<>(q = <<>>)
Emit == (steps = MaxSteps /\ todo = 0) => PrintT("SCRIPT" \o hist)
=============================================================================
