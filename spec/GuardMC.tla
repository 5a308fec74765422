------------------------------ MODULE GuardMC ------------------------------
(* Two accounts, keys that differ in little, data too short, too long or    *)
(* damaged; every history is printed, to be replayed on the real program.   *)
EXTENDS Guard, FiniteSets, TLC
CONSTANT MaxSteps
VARIABLES own, bal, paid, hist, steps
vars == <<own, bal, paid, hist, steps>>
A == [i \in 1..32 |-> i]
Keys == [A |-> A, F |-> [A EXCEPT ![1] = 2], L |-> [A EXCEPT ![32] = 33], Z |-> [i \in 1..32 |-> 0]]
Names == DOMAIN Keys
Accs == {"a", "b"}
Lists == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<"a", "a">>}
\* what is written after the key's name: the text of the data
Shape(k, s) ==
  CASE s = "" -> Keys[k]
    [] s = "<" -> SubSeq(Keys[k], 1, 31)
    [] s = ">" -> Keys[k] \o <<0>>
    [] s = "+" -> Keys[k] \o Keys[k]
    [] s = "-" -> <<>>
Shapes == {"", "<", ">", "+", "-"}
Show(ac) == IF ac = <<>> THEN "." ELSE IF Len(ac) = 1 THEN ac[1] ELSE ac[1] \o ac[2]
Init == /\ own \in [Accs -> {"A", "Z"}] /\ bal = [x \in Accs |-> 0] /\ paid = {}
        /\ hist = " o a " \o own["a"] \o " o b " \o own["b"] /\ steps = 0
Own == [x \in Accs |-> Keys[own[x]]]
Assign(x, k) ==
  /\ own' = [own EXCEPT ![x] = k] /\ hist' = hist \o " o " \o x \o " " \o k
  /\ UNCHANGED <<bal, paid>>
Send(ac, k, s) ==
  LET d == Shape(k, s) IN
  /\ bal' = Pay(Own, bal, ac, d)
  /\ paid' = IF bal' # bal THEN paid \cup {<<ac[1], own[ac[1]], k, s>>} ELSE paid
  /\ hist' = hist \o " p " \o Show(ac) \o " " \o k \o s
  /\ UNCHANGED own
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ \E x \in Accs, k \in Names : k # own[x] /\ Assign(x, k)
           \/ \E ac \in Lists, k \in Names, s \in Shapes : Send(ac, k, s)
Spec == Init /\ [][Next]_vars
View == <<own, bal, hist, steps>>
\* money only ever went to an account that the named program owned at that moment
Guarded == \A p \in paid : p[2] = p[3] /\ p[4] = ""
\* and a well-formed guard for the right owner never stands in the way
Open == \A x \in Accs : Accepts(Own, <<x>>, Keys[own[x]])
Emit == steps = MaxSteps => PrintT("SCRIPT" \o hist)
=============================================================================
