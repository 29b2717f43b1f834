------------------------------- MODULE Storm -------------------------------
(***************************************************************************)
(* What many goroutines do with one client at once: random rounds of        *)
(* operations of users (lookups, calls, resolutions, registrations, new     *)
(* suites, dumps) and of the control plane (new contents, omissions,        *)
(* rejected responses, failing streams), printed as JSON.  Run with         *)
(* -simulate num=1.  "tick" sleeps until the given next sweep, so that the  *)
(* goroutines wake at the instant of the sweep.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

Num == atoi(IOEnv.NUM)

R(n) == RandomElement(1..n)
Chance(p) == RandomElement(1..100) <= p
One(S) == RandomElement(S)
OneOf(sq) == sq[R(Len(sq))]
Gen(n, F(_)) == TLCEval([i \in 1..n |-> TLCEval(F(i))])
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

Types == {"LDS", "RDS", "CDS", "EDS"}
Styles == <<"calm", "calm", "drops", "rough", "rough", "sweeps", "sweeps", "all", "focus", "focus", "focus">>

(* The names 1..k; 0 is the inbound listener. *)
Name(t, k) == IF t = "LDS" /\ Chance(10) THEN 0 ELSE R(k)

(* f: the type most of the operations of a focused storm are about *)
User(style, f, k, ticks, i) ==
    LET r == R(100) IN
    IF style = "focus" /\ Chance(80) THEN [k |-> "get", t |-> f, n |-> R(k), ms |-> OneOf(<<0, 0, 1>>), chk |-> Chance(5)]
    ELSE IF i \in ticks THEN [k |-> "tick", n |-> OneOf(<<1, 1, 2>>)]
    ELSE IF r <= 62 THEN LET t == One(Types) IN [k |-> "get", t |-> t, n |-> Name(t, k), ms |-> OneOf(<<0, 0, 0, 0, 1, 30>>), chk |-> Chance(15)]
    ELSE IF r <= 72 THEN [k |-> "call", n |-> R(k), via |-> One({"", "retry"})]
    ELSE IF r <= 80 THEN [k |-> "find", n |-> R(k)]
    ELSE IF r <= 87 THEN [k |-> "dump"]
    ELSE IF r <= 92 THEN [k |-> "reg", t |-> One(Types)]
    ELSE IF r <= 95 THEN [k |-> "suite", t |-> One({"cb", "retry", "limit"})]
    ELSE [k |-> "nap", ms |-> OneOf(<<0, 1, 30, 200, 5000>>)]

Env(style, f, k, ticks, i) ==
    LET r == R(100)
        ns == SetToSeq(TLCEval(RandomSubset(One(1..(IF k < 6 THEN k ELSE 6)), 0..k)))
        push == [k |-> "push", t |-> One(Types), ns |-> ns]
    IN IF style = "focus" /\ Chance(85) THEN (IF f = "LDS" /\ Chance(40) THEN [k |-> "nds"] ELSE [push EXCEPT !.t = f])
       ELSE IF i \in ticks THEN [k |-> "tick", n |-> OneOf(<<1, 1, 2>>)]
       ELSE IF r <= 60 THEN push
       ELSE IF r <= 65 THEN [k |-> "nds"]
       ELSE IF r <= 75 THEN (IF style \in {"drops", "all"} THEN [k |-> "drop", t |-> One({"LDS", "CDS"}), ns |-> ns] ELSE push)
       ELSE IF r <= 82 THEN (IF style \in {"rough", "all"} THEN [k |-> "bad", t |-> One(Types)] ELSE push)
       ELSE IF r <= 88 THEN (IF style \in {"rough", "all"} THEN [k |-> "fail"] ELSE push)
       ELSE [k |-> "nap", ms |-> OneOf(<<0, 0, 0, 1, 30, 200>>)]

Round(style, f, k) ==
    LET n == One({10, 20, 30})
        ticks == IF style \in {"sweeps", "all"} THEN TLCEval(RandomSubset(One({2, 3, 4}), 2..n)) ELSE {}
    IN Gen(One({1, 1, 2}), LAMBDA i : Gen(n, LAMBDA j : Env(style, f, k, ticks, j)))
       \o Gen(One({4, 6, 8}), LAMBDA i : Gen(n, LAMBDA j : User(style, f, k, ticks, j)))

Row(x_) ==
    LET style == OneOf(Styles)
        k == IF style = "focus" THEN OneOf(<<20, 60, 60>>) ELSE OneOf(<<2, 3, 4, 8, 20>>)
        f == One(Types)
    IN [k |-> "storm", style |-> style, cfg |-> [nds |-> (style = "focus" /\ f = "LDS") \/ Chance(50), lds |-> Chance(50), timeout |-> 100, mm |-> Chance(30)], names |-> k,
        rounds |-> Gen(One({1, 2, 3}), LAMBDA i : Round(style, f, k))]

VARIABLE i
Init == i = 0
Next == i < Num /\ i' = i + 1 /\ PrintT(<<"GEN", ToJson(Row(i))>>)
=============================================================================
