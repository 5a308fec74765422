------------------------------ MODULE CreateMC ------------------------------
(***************************************************************************)
(* Two would-be markets A (plain) and B (permissioned), each with its own   *)
(* accounts, up to two of which are defective; up to three creation         *)
(* attempts which may mix the sets, repeat an account, or leave accounts    *)
(* out. Every history is printed, to be replayed on the real program.       *)
(***************************************************************************)
EXTENDS Create, TLC
CONSTANT MaxSteps
Roles == <<"m", "r", "e", "b", "s", "c", "p">>
DexDefects == {"owner", "mod", "short", "poor", "head", "flag", "tail"}
TokDefects == {"notspl", "len", "uninit", "frozen", "holder", "del", "close", "mint", "poor"}
MintDefects == {"notspl", "len", "uninit", "poor"}
Defects == ({"m", "r", "e", "b", "s"} \X DexDefects) \cup ({"c", "p"} \X TokDefects) \cup ({"N1", "N2"} \X MintDefects)

Nm(r, x) == r \o x
Right(r, x) == CASE r = "m" -> (IF x = "A" THEN LenV1 ELSE LenV2) [] r = "r" -> 12 + 32 + 80 [] r = "e" -> 12 + 32 + 88 * MinEvents
                 [] OTHER -> 12 + 8 + 32 + 72 * MinNodes
\* the account of set A (or mint) with defect d; sets are otherwise in order
DexAcc(r, x, d) ==
  [o |-> IF "owner" \in d THEN "sys" ELSE "dex",
   len |-> IF "mod" \in d THEN Right(r, x) + 1 ELSE IF "short" \in d THEN Right(r, x) - 8 ELSE Right(r, x),
   rent |-> "poor" \notin d,
   c |-> IF d \cap {"head", "flag", "tail"} # {} THEN [k |-> "dirty"] ELSE Blank]
TokAcc(r, x, d) ==
  [o |-> IF "notspl" \in d THEN "sys" ELSE "spl", len |-> IF "len" \in d THEN 164 ELSE 165, rent |-> "poor" \notin d,
   c |-> IF d \cap {"len"} # {} THEN [k |-> "raw"] ELSE
         [k |-> "token", st |-> IF "uninit" \in d THEN 0 ELSE IF "frozen" \in d THEN 2 ELSE 1,
          mint |-> IF (r = "c") # ("mint" \in d) THEN "N1" ELSE "N2",
          own |-> IF "holder" \in d THEN "U" ELSE Nm("v", x), del |-> "del" \in d, close |-> "close" \in d]]
MintAcc(d) == [o |-> IF "notspl" \in d THEN "sys" ELSE "spl", len |-> IF "len" \in d THEN 90 ELSE 82, rent |-> "poor" \notin d,
               c |-> IF "len" \in d THEN [k |-> "raw"] ELSE [k |-> "mint", st |-> IF "uninit" \in d THEN 0 ELSE 1]]
Plain == [o |-> "sys", len |-> 0, rent |-> TRUE, c |-> [k |-> "raw"]]
Of(ds, r) == {q[2] : q \in {z \in ds : z[1] = r}}
World(ds) ==
  [n \in {"N1", "N2", "rent", "a1", "a2", "a3", "a4"} \cup {Nm(Roles[i], x) : i \in 1..7, x \in {"A", "B"}} |->
    CASE n \in {"N1", "N2"} -> MintAcc(Of(ds, n))
      [] n \in {"rent", "a1", "a2", "a3", "a4"} -> Plain
      [] OTHER -> LET i == CHOOSE i \in 1..7 : \E x \in {"A", "B"} : n = Nm(Roles[i], x)
                      x == IF n = Nm(Roles[i], "A") THEN "A" ELSE "B"
                      d == IF x = "A" THEN Of(ds, Roles[i]) ELSE {}
                  IN IF i =< 5 THEN DexAcc(Roles[i], x, d) ELSE TokAcc(Roles[i], x, d)]

Full(x) == [i \in 1..7 |-> Nm(Roles[i], x)] \o <<"N1", "N2", "rent">>
Extra(n) == SubSeq(<<"a1", "a2", "a3", "a4">>, 1, n)
Alt(x) == IF x = "A" THEN "B" ELSE "A"
\* account lists: all of one set; one account of the other set; one repeated; one dropped
Lists(x) ==
  {Full(x)} \cup {[Full(x) EXCEPT ![i] = Nm(Roles[i], Alt(x))] : i \in 1..7}
  \cup {[Full(x) EXCEPT ![i] = Full(x)[j]] : i \in 1..5, j \in 1..5}
  \cup {[Full(x) EXCEPT ![8] = "N2"], [Full(x) EXCEPT ![9] = "N1"], [Full(x) EXCEPT ![6] = Full(x)[7], ![7] = Full(x)[6]]}
Req(x, lst, n, nn) ==
  [ac |-> lst \o Extra(n), vs |-> CASE nn = "ok" -> Nm("v", SubSeq(lst[1], 2, 2)) [] nn = "alt" -> "?" [] nn = "none" -> "",
   clot |-> "10", plot |-> "7", fee |-> "0", nonce |-> nn, dust |-> "3"]
Reqs == {Req("A", l, n, nn) : l \in Lists("A"), n \in {0, 1}, nn \in {"ok"}} \cup {Req("B", l, n, "ok") : l \in Lists("B"), n \in 0..4}
        \cup {Req("A", SubSeq(Full("A"), 1, 9), 0, "ok"), Req("A", SubSeq(Full("A"), 1, 7), 0, "ok")}
        \cup {Req("A", Full("A"), 0, nn) : nn \in {"alt", "none"}} \cup {Req("B", Full("B"), 3, nn) : nn \in {"alt", "none"}}
\* later attempts, once something exists
Second == {Req("A", l, 0, "ok") : l \in Lists("A")} \cup {Req("B", l, 3, "ok") : l \in Lists("B")}
Third == {Req("A", Full("A"), 0, "ok"), Req("B", Full("B"), 2, "ok")}

VARIABLES ds, w, hist
vars == <<ds, w, hist>>
Init == /\ ds \in {{}} \cup {{d} : d \in Defects} \cup {{d, e} : d \in {<<"m", "poor">>, <<"e", "short">>, <<"c", "del">>, <<"N2", "uninit">>}, e \in Defects}
        /\ w = World(ds) /\ hist = <<>>
Choices == IF hist = <<>> THEN (IF ds = {} THEN Reqs ELSE {Req("A", Full("A"), 0, "ok"), Req("B", Full("B"), 1, "ok")})
           ELSE IF Len(hist) = 1 THEN (IF ds = {} /\ Markets(w) # {} THEN Second ELSE IF ds # {} THEN Third ELSE {}) ELSE Third
Next == /\ Len(hist) < MaxSteps
        /\ \E a \in Choices : w' = After(w, a) /\ hist' = Append(hist, <<a, Creatable(w, a)>>) /\ UNCHANGED ds
Spec == Init /\ [][Next]_vars

\* never vacuous: exactly the requests without any fault are honoured
SoundInv == Sound(w)
OnceOnly == \A m \in Markets(w) : Cardinality({i \in 1..Len(hist) : hist[i][2] /\ Mk(hist[i][1]) = m}) = 1
\* a defective set A is never turned into a market
NoDefective == ds # {} => \A m \in Markets(w) : m = "mB" /\ Of(ds, "N1") \cup Of(ds, "N2") = {}
Stable == [][\A n \in DOMAIN w : w[n].c # Blank => w'[n] = w[n]]_vars
RECURSIVE Str(_, _)
Str(s, i) == IF i > Len(s) THEN "" ELSE (IF i = 1 THEN "" ELSE ",") \o s[i] \o Str(s, i + 1)
RECURSIVE DStr(_)
DStr(S) == IF S = {} THEN "" ELSE LET d == CHOOSE d \in S : TRUE IN " " \o d[1] \o ":" \o d[2] \o DStr(S \ {d})
RECURSIVE HStr(_)
HStr(h) == IF h = <<>> THEN "" ELSE " | " \o h[1][1].nonce \o " " \o Str(h[1][1].ac, 1) \o HStr(Tail(h))
Terminal == Len(hist) = MaxSteps \/ Choices = {}
Emit == IF Terminal THEN PrintT("SCRIPT" \o DStr(ds) \o HStr(hist)) ELSE TRUE
=============================================================================
