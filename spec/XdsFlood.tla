------------------------------ MODULE XdsFlood ------------------------------
(***************************************************************************)
(* Histories in which the client has far more requests to send than it can  *)
(* queue, while its sender is stopped, its stream is being replaced (once or  *)
(* several times) or                                                         *)
(* there is none.  XdsTrace judges them like all others: nothing may         *)
(* deadlock (C07), lookups end (C05), and once things have calmed down the   *)
(* last request of each type names the interest set (C03, C04).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Types == <<"CDS", "RDS", "EDS", "LDS">>
Many == 1100       \* more than any queue holds that a client could do with

Look(id, t, n, ctx) == [op |-> "lookup", id |-> id, t |-> t, n |-> n, ctx |-> ctx]
Res(t, n, c) == IF t = "CDS" THEN [n |-> n, c |-> c, od |-> [th |-> -1, vol |-> 0, z |-> 0]]
                ELSE IF t = "RDS" THEN [n |-> n, c |-> c, routes |-> <<>>] ELSE [n |-> n, c |-> c]
Resp(t, k, ns) == [op |-> "resp", t |-> t, ver |-> "v" \o ToString(k), nonce |-> "n" \o ToString(k), res |-> [i \in 1..Len(ns) |-> Res(t, ns[i], 10 * k + i)]]
(* n lookups of one name, whose callers have gone, one after the other: each of them makes a request. *)
Flood(id, n, t, name) == [op |-> "many", id |-> id, n |-> n, t |-> t, name |-> name]
Op(o) == [op |-> o]
Adv(ms) == [op |-> "adv", ms |-> ms]
Sched(stops, gate, steps) == [op |-> "sched", stops |-> stops, gate |-> gate, steps |-> steps]
Go(who) == [op |-> "go", who |-> who]

Begin(t) == <<Look(1, t, "a", 0), Resp(t, 1, <<"a">>)>>
End(t) == <<Resp(t, 3, <<"a", "b", "c">>), Look(9001, t, "b", 0), Look(9002, t, "a", 0), Adv(1003), Look(9003, t, "d", 0), Resp(t, 4, <<"d">>),
            Op("fail"), Resp(t, 5, <<"a", "b", "d">>), Look(9004, t, "d", 0), Adv(5003)>>

Flooded(t, n) == <<Flood(100, n, t, "x"), Look(8001, t, "b", 0)>>
Count == 12
Place(p, t, n) ==
    \* while the sender is about to request everything on a new stream
    CASE p = 1 -> <<Sched(<<"resub">>, FALSE, <<Op("fail")>> \o Flooded(t, n) \o <<Go("S"), Look(8002, t, "c", 0)>>)>>
    \* the same, and that stream fails too
      [] p = 2 -> <<Sched(<<"resub">>, FALSE, <<Op("fail")>> \o Flooded(t, n) \o <<Op("fail"), Go("S"), Look(8002, t, "c", 0), Go("S")>>)>>
    \* while the sender sends
      [] p = 3 -> <<Sched(<<"send">>, TRUE, <<Look(8000, t, "y", 0)>> \o Flooded(t, n))>>
    \* while the sender sends on a stream that fails
      [] p = 4 -> <<Sched(<<"send">>, TRUE, <<Look(8000, t, "y", 0), Flood(5000, n \div 2, t, "x"), Op("fail")>> \o Flooded(t, n) \o <<Go("S"), Look(8002, t, "c", 0)>>)>>
    \* while the receiver replaces the stream
      [] p = 5 -> <<Sched(<<"reconnect.reset">>, FALSE, <<Op("fail")>> \o Flooded(t, n) \o <<Go("R"), Look(8002, t, "c", 0)>>)>>
    \* while there is no stream
      [] p = 6 -> <<Op("down"), Op("fail")>> \o Flooded(t, n) \o <<Adv(5003), Look(8002, t, "c", 0), Op("up"), Adv(61007)>>
    \* while sends fail
      [] p = 7 -> <<Op("deaf")>> \o Flooded(t, n) \o <<Look(8002, t, "c", 0), Op("fail")>>
    \* streams fail one after the other while the sender is about to request everything
      [] p = 9 -> <<Sched(<<"resub">>, FALSE, <<Op("fail"), Look(8001, t, "b", 0), Op("fail"), Op("fail"), Look(8002, t, "c", 0), Op("fail"), Go("S")>>)>>
    \* while it sends
      [] p = 10 -> <<Sched(<<"send">>, TRUE, <<Look(8000, t, "y", 0), Op("fail"), Op("fail"), Look(8001, t, "b", 0), Op("fail"), Op("fail")>>), Look(8002, t, "c", 0)>>
    \* while neither it nor the receiver goes on
      [] p = 11 -> <<Sched(<<"resub", "reconnect.reset">>, FALSE, <<Op("fail"), Look(8001, t, "b", 0), Go("R"), Op("fail"), Go("R"), Op("fail"), Look(8002, t, "c", 0), Go("R"), Op("fail"), Go("S"), Go("R")>>)>>
    \* or without any pause
      [] p = 12 -> <<[op |-> "batch", steps |-> <<Op("fail"), Look(8001, t, "b", 0), Op("fail"), Op("fail"), Look(8002, t, "c", 0), Op("fail")>>]>>
    \* while the client does not stop
      [] OTHER -> <<[op |-> "batch", steps |-> Flooded(t, n) \o <<Op("fail"), Look(8002, t, "c", 0)>>]>>

Row(p, t, n) == [b |-> "flood-" \o ToString(p) \o "-" \o t \o "-" \o ToString(n), cfg |-> [nds |-> FALSE, lds |-> FALSE, timeout |-> 1000],
                 steps |-> Begin(t) \o Place(p, t, n) \o End(t)]

(* Many names of one type at once: all are looked up, some of them again    *)
(* before the sweep that finds the others idle; one of those comes back, the *)
(* stream fails.                                                             *)
Name(k) == "k" \o ToString(k)
Every(k, n, step) == {i \in k..n : (i - k) % step = 0}
LookAll(id, t, from, n, step) == [op |-> "batch", steps |-> [j \in 1..Cardinality(Every(from, n, step)) |-> Look(id + j, t, Name(from + (j - 1) * step), 0)]]
RespAll(t, k, n) == [op |-> "resp", t |-> t, ver |-> "v" \o ToString(k), nonce |-> "n" \o ToString(k), res |-> [i \in 1..n |-> Res(t, Name(i), 1000 * k + i)]]
Crowd(t, n) ==
    [b |-> "crowd-" \o t \o "-" \o ToString(n), cfg |-> [nds |-> FALSE, lds |-> FALSE, timeout |-> 1000],
     steps |-> <<LookAll(0, t, 1, n, 1), RespAll(t, 1, n), Adv(40003), LookAll(1000, t, 1, n, 3), RespAll(t, 2, n - 5), Adv(25007),
                 Look(2001, t, Name(2), 0), RespAll(t, 3, n), Look(2002, t, Name(1), 0), Op("fail"), RespAll(t, 4, n),
                 LookAll(3000, t, 1, n, 7), RespAll(t, 5, n)>>]

VARIABLE i
Init == i = 0
Next == /\ i < 2 * Count + 4
        /\ i' = i + 1
        /\ IF i >= 2 * Count THEN PrintT(<<"GEN", ToJson(Crowd(Types[1 + i - 2 * Count], 40))>>) ELSE LET p == 1 + (i % Count) IN
           PrintT(<<"GEN", ToJson(Row(p, Types[1 + ((i + (i \div Count)) % 4)], IF i < Count THEN Many ELSE 60))>>)
=============================================================================
