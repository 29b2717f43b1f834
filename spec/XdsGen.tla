------------------------------- MODULE XdsGen -------------------------------
(***************************************************************************)
(* Random histories of XdsModel, printed as JSON.  Run with -simulate.      *)
(* The profile says how often each kind of step is taken.                   *)
(***************************************************************************)
EXTENDS XdsModel, Json, IOUtils, Randomization

Depth   == atoi(IOEnv.DEPTH)
Profile == IOEnv.PROFILE

VARIABLES s, hist
vars == <<s, hist>>

R(n) == RandomElement(1..n)
Chance(p) == RandomElement(1..100) <= p
One(S) == RandomElement(S)
OneOf(sq) == sq[R(Len(sq))]

(* Weights of resp, lookup, cancel, adv, fail, down/up, auth, reg, suite, serve, batch; and of bad resources *)
W == CASE Profile = "stream" -> <<30, 25, 2, 14, 14, 8, 1, 1, 1, 0, 8>>
       [] Profile = "nack"   -> <<60, 20, 1, 6, 3, 1, 0, 2, 3, 1, 3>>
       [] Profile = "lookup" -> <<25, 40, 8, 14, 2, 1, 1, 1, 0, 0, 12>>
       [] Profile = "sweep"  -> <<30, 26, 1, 36, 2, 1, 0, 2, 2, 0, 4>>
       [] Profile = "conc"   -> <<15, 12, 2, 8, 4, 2, 0, 6, 2, 0, 52>>
       [] Profile = "policy" -> <<56, 24, 0, 8, 3, 1, 0, 2, 8, 2, 2>>
       [] Profile = "limit"  -> <<72, 5, 0, 6, 4, 1, 0, 2, 4, 4, 2>>
       [] Profile \in {"retry", "breaker"} -> <<60, 18, 0, 8, 4, 1, 0, 2, 4, 0, 3>>
       [] Profile = "bind"   -> <<55, 30, 2, 6, 3, 1, 0, 1, 0, 0, 4>>
       [] OTHER              -> <<42, 30, 3, 9, 4, 2, 0, 2, 2, 1, 7>>
Ops == <<"resp", "lookup", "cancel", "adv", "fail", "down", "auth", "reg", "suite", "serve", "batch">>
BadPct == CASE Profile = "nack" -> 30 [] Profile = "policy" -> 8 [] OTHER -> 10

RECURSIVE PickW(_, _)
PickW(i, k) == IF k <= W[i] THEN Ops[i] ELSE PickW(i + 1, k - W[i])

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

(* --------------------------------- names ------------------------------- *)

Hosts   == {"svca", "SvcA", "svca.default", "svcb.ns2", "svcb.ns2.svc", "svca.default.svc.cluster.local", "www.Ext.com", "ext.org", "a.b.c.d.e", "a.b.mysvc", "a.svc"}
Ports   == {"", "", ":80", ":8080", ":x"}
TabHosts == {"svca.default.svc.cluster.local", "SVCA.default.svc.Cluster.local", "svcb.ns2.svc.cluster.local", "svcb.ns2",
             "www.ext.com", "WWW.ext.com", "svca", "ext.org.svc.cluster.local", "ext.org", "www.ext.com.svc", "a.b.c.d.e", "a.b.c.d.e.default.svc.cluster.local",
             "a.b.mysvc", "a.b.mysvc.cluster.local", "a.svc.svc.cluster.local", "a.svc.cluster.local"}
Ips     == {<<"10.0.0.1">>, <<"10.0.0.1">>, <<"10.0.0.2">>, <<"10.0.0.3", "10.0.0.1">>, <<>>}
WireLDS == {"10.0.0.1_80", "10.0.0.2_80", "10.0.0.3_80", "10.0.0.1_8080", "10.0.0.2_8080", "0.0.0.0_80"}
PlainLDS == {"l1", "l2", "l3", "l3:80"}
Pool(t) == CASE t = "RDS" -> {"r1", "r2", "r3", "r4"}
             [] t = "CDS" -> {"c1", "c2", "c3", "c4"}
             [] t = "EDS" -> {"e1", "e2", "e3"}
             [] OTHER -> {""}
PickName(x, t) ==
    IF t = "LDS" THEN
        IF x.cfg.nds THEN (IF Chance(5) THEN One({Reserved, "a:b:c", "10.0.0.1_80", ""}) ELSE
                           IF Chance(70) THEN One({"svca", "svca.default", "svcb.ns2:8080", "www.Ext.com"}) ELSE One(Hosts) \o One(Ports))
        ELSE IF Chance(6) THEN Reserved ELSE One(PlainLDS)
    ELSE IF t \in Data THEN One(Pool(t)) ELSE "svca.default"

(* ------------------------------- contents ------------------------------ *)

Clusters == {"c1", "c2", "c3", "c4"}
PickOD(x_) == [th |-> One({-1, 0, 1, 7, 20, 50, 99, 100}), vol |-> One({0, 1, 10, 100, 70000}), z |-> One({0, 1})]
PickRP(x_) ==
    IF Chance(25) THEN [n |-> -1, ptt |-> 0, er |-> 0, methods |-> <<>>, base |-> -1, max |-> -1]
    ELSE LET base == One({-1, 10, 25, 100, 66000}) IN
         [ord |-> R(2), n |-> One({0, 1, 2, 3, 5}), ptt |-> One({0, 100, 250, 70000}), er |-> OneOf(<<0, 0, 50, 300>>),
          methods |-> OneOf(<< <<>>, <<>>, <<"m1">>, <<"m1", "m2">>, <<"m2", "m1", "m3">> >>), base |-> base, max |-> IF base < 0 THEN -1 ELSE One({-1, 10, 50, 100, 250, 90000})]
PickRoute(x_) == [cl |-> One({<<"c1">>, <<"c2">>, <<"c3">>, <<"c1", "c2">>, <<"c3", "c4">>, <<"c4">>}), rp |-> PickRP(0), vh |-> OneOf(<<0, 0, 1, 2>>),
                  z |-> OneOf(<<0, 0, 0, 1, 2>>)]     \* a cluster of weight 0
PickRoutes(x_) == LET n == OneOf(<<0, 1, 1, 2, 2, 3>>) IN IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<PickRoute(0)>> ELSE IF n = 2 THEN <<PickRoute(0), PickRoute(0)>> ELSE <<PickRoute(0), PickRoute(0), PickRoute(0)>>
PickChain(p) ==
    LET kd == OneOf(<<"", "", "", "rds", "ts", "dflt", "thrift">>)
    IN [port |-> p, tok |-> IF kd = "thrift" THEN -1 ELSE One({-1, 0, 5, 7, 100, 1000, 5000000}), kd |-> kd, first |-> R(2)]
PickChains(x_) ==
    LET ps == IF Profile = "limit" /\ Chance(85) THEN One({<<0>>, <<8888>>, <<8888, 0>>, <<9999, 8888>>, <<8888, 0, 9999>>}) ELSE
              One({<<>>, <<0>>, <<8888>>, <<8888, 0>>, <<0, 8888>>, <<9999, 0>>, <<9999>>, <<7777, 8888, 0>>, <<0, 9999, 8888>>})
    IN [i \in 1..Len(ps) |-> PickChain(ps[i])]
PickTab(x_) ==
    LET hs == TLCEval(RandomSubset(R(5), TabHosts))
        one == {h \in hs : \A g \in hs : (g # h /\ Lower(g) = Lower(h)) => Len(g) > 100}
        sq == TLCEval(SetToSeq(TLCEval(one)))
    IN [i \in 1..Len(sq) |-> [host |-> sq[i], ips |-> One(Ips)]]

(* A table without virtual hosts has nothing to tell it from another one: its cid is that of its name. *)
NoHosts(n) == 90000 + CASE n = "r1" -> 1 [] n = "r2" -> 2 [] n = "r3" -> 3 [] OTHER -> 4

BadKinds(t) == CASE t = "RDS" -> {"url", "bytes", "nomatch", "noaction"} [] t = "LDS" -> {"url", "bytes", "nomatch"} [] OTHER -> {"url", "bytes"}

Res(t, n, c, bad) ==
    LET base == IF bad # "" THEN [n |-> n, c |-> c, bad |-> bad] ELSE [n |-> n, c |-> c]
    IN CASE t = "CDS" -> base @@ [od |-> PickOD(0)]
         [] t = "RDS" -> LET rs == PickRoutes(0) IN
              IF bad = "" /\ rs = <<>> /\ n \in Pool("RDS") /\ Chance(50) THEN [n |-> n, c |-> NoHosts(n), routes |-> <<>>, novh |-> 1]
              ELSE base @@ [routes |-> rs]
         [] t = "LDS" -> IF n = Reserved THEN base @@ [chains |-> PickChains(0)] ELSE base
         [] t = "NDS" -> base @@ [tab |-> PickTab(0)]
         [] OTHER -> base

(* The names a response carries: mostly those that are subscribed. *)
Wires(x, t) ==
    LET subs == {WireName(x.cfg, x.core.tab, t, n) : n \in x.core.sub[t]} \ {""}
        others == IF t = "LDS" THEN (IF x.cfg.nds THEN WireLDS \cup {Reserved, "svca"} ELSE PlainLDS \cup {Reserved}) ELSE Pool(t)
        k == R(100)
        pick == {w \in subs : Chance(80)} \cup {w \in others : Chance(20)}
    IN IF k <= 6 THEN {} ELSE IF k <= 40 THEN subs ELSE pick

PickType(x) ==
    IF x.ready < 0 THEN IF x.cfg.nds /\ (x.core.tab = Empty \/ "LDS" \notin x.core.known) THEN "NDS" ELSE "LDS"
    ELSE CASE Profile = "bind" -> (IF Chance(40) THEN "NDS" ELSE IF Chance(85) THEN "LDS" ELSE One(Data))
           [] Profile = "policy" -> One({"LDS", "CDS", "RDS"})
           [] Profile = "limit"  -> OneOf(<<"LDS", "LDS", "LDS", "LDS", "CDS", "NDS">>)
           [] Profile = "retry"  -> OneOf(<<"RDS", "RDS", "RDS", "RDS", "RDS", "CDS", "LDS">>)
           [] Profile = "breaker" -> OneOf(<<"CDS", "CDS", "CDS", "CDS", "CDS", "RDS", "EDS">>)
           [] OTHER -> LET asked == x.core.known
                           k == R(100)
                       IN IF k <= 10 THEN "NDS" ELSE IF k <= 75 /\ asked # {} THEN One(asked) ELSE One(Data)

(* A resource as it was in an earlier response that was accepted: mostly as it is now. *)
Earlier(x, t, n, past, c) ==
    LET as == {r \in past : r.n = n}
        cur == IF t \in Data THEN {r \in Range(x.core.cache[t]) : r.n = n} ELSE {}
    IN IF cur # {} /\ Chance(70) THEN One(cur) ELSE IF as # {} THEN One(as) ELSE Res(t, n, c, "")

GenResp(x) ==
    LET t == IF Chance(3) THEN One({"UNK", "SEC"}) ELSE PickType(x)
        warm == x.ready < 0
        bad(n) == IF Chance(IF warm THEN 4 ELSE BadPct \div 2) THEN One(BadKinds(t)) ELSE ""
        sq == TLCEval(SetToSeq(TLCEval(IF t \notin Types THEN One({{}, {"c1"}}) ELSE IF t = "NDS" THEN {""} ELSE Wires(x, t) \cup (IF (warm /\ Chance(80)) \/ (Profile = "limit" /\ t = "LDS" /\ Chance(90)) THEN {Reserved} ELSE {}))))
        \* resources are sent again unchanged, or as they once were
        past == TLCEval(UNION {{x.log[i].res[j] : j \in 1..Len(x.log[i].res)} : i \in {k \in 1..Len(x.log) : x.log[k].k = "resp" /\ x.log[k].t = t}})
        same == OneOf(<<0, 0, 0, 30, 95>>)
        rs == TLCEval([i \in 1..Len(sq) |-> IF past # {} /\ Chance(same) THEN Earlier(x, t, sq[i], past, x.ncid + i) ELSE Res(t, sq[i], x.ncid + i, bad(sq[i]))])
        \* one of two resources of a name is bad
        worst == {i \in 1..Len(sq) : Has(rs[i], "bad")}
        both == IF t \in Data /\ worst # {} /\ Chance(25) THEN TLCEval([j \in {1} |-> Res(t, sq[One(worst)], x.ncid + Len(sq) + 1, "")]) ELSE <<>>
        res == IF t = "NDS" THEN (IF Chance(4) THEN <<>> ELSE rs) ELSE IF both # <<>> THEN (IF Chance(50) THEN both \o rs ELSE rs \o both) ELSE rs
        again == t \in Types /\ (IF t \in Types THEN x.core.ver[t] # "" /\ Chance(8) ELSE FALSE)
    IN [op |-> "resp", t |-> t, ver |-> IF again THEN x.core.ver[t] ELSE IF Chance(3) THEN "" ELSE "v" \o ToString(x.nresp + 1),
        nonce |-> "n" \o ToString(x.nresp + 1), res |-> res]

GenLookup(x) ==
    LET t == IF Chance(3) THEN One({"UNK", "BIG", "NDS"}) ELSE
             CASE Profile = "bind" -> IF Chance(85) THEN "LDS" ELSE One(Data)
               [] Profile = "policy" -> OneOf(<<"CDS", "RDS", "CDS", "RDS", "LDS">>)
               [] Profile = "retry" -> OneOf(<<"RDS", "RDS", "RDS", "CDS">>)
               [] Profile = "breaker" -> OneOf(<<"CDS", "CDS", "CDS", "RDS">>)
               [] OTHER -> One(Data)
        again == {id \in DOMAIN x.out : x.out[id].t \in Data}
        a == IF again # {} THEN x.out[One(again)] ELSE [t |-> "CDS", n |-> "c1"]
        dup == Chance(20)
        \* names that are subscribed but not cached, as after their omission
        open == TLCEval(IF t \in Data /\ Profile \in {"sweep", "lookup", "conc"} /\ Chance(35) THEN x.core.sub[t] \ (DOMAIN x.core.cache[t] \cup {Reserved}) ELSE {})
    IN [op |-> "lookup", id |-> x.nid + 1, t |-> IF dup THEN a.t ELSE t, n |-> IF dup THEN a.n ELSE IF open # {} THEN One(open) ELSE PickName(x, t),
        ctx |-> IF Chance(70) THEN 0 ELSE OneOf(<<-1, 300, 300, 5000>>)]

(* Until shortly before the next sweep. *)
NearSweep(x) == LET m == PeriodMs - ((x.now - x.ready) % PeriodMs) IN IF m > 500 THEN m - 379 ELSE m + 17

(* The monitor's clock counts microseconds: a history is shorter than 2^31 of them. *)
Bounded(x, ms) == IF x.now + ms > 2000000 THEN (IF x.now + 103 > 2080000 THEN 1 ELSE 103) ELSE ms

GenAdv(x) ==
    [op |-> "adv", ms |-> Bounded(x, CASE Profile = "sweep" -> OneOf(<<NearSweep(x), NearSweep(x), 731, 5003, 11017, 14009, 20011, 29017, 31013, 31013, 61007, 95003>>)
                             [] Profile \in {"lookup", "conc"} /\ x.ready >= 0 /\ Chance(10) -> NearSweep(x)
                             [] Profile \in {"lookup", "conc"} -> One({103, 211, 731, x.cfg.timeout + 1, 5003, 31013})
                             [] Profile = "stream" -> OneOf(<<103, 731, x.cfg.timeout + 1, 5003, 5003, 31013, 61007, 97003, IF Chance(5) THEN 960007 ELSE 10007>>)
                             [] OTHER -> One({103, 731, x.cfg.timeout + 1, 5003, 31013, 61007}))]

GenOne(x, op) ==
    CASE op = "resp"   -> GenResp(x)
      [] op = "lookup" -> GenLookup(x)
      [] op = "cancel" -> IF DOMAIN x.out = {} THEN GenLookup(x) ELSE [op |-> "cancel", id |-> One(DOMAIN x.out)]
      [] op = "adv"    -> GenAdv(x)
      [] op = "fail"   -> IF ~x.deaf /\ x.live /\ Chance(15) THEN [op |-> "deaf"] ELSE [op |-> "fail", kind |-> R(11) - 1]
      [] op = "auth"   -> IF Chance(60) THEN [op |-> "fail", kind |-> R(11) - 1] ELSE [op |-> "auth"]
      [] op = "down"   -> IF x.down THEN [op |-> "up"] ELSE [op |-> "down"]
      [] op = "reg"    -> [op |-> "reg", t |-> One(Data)]
      [] op = "suite"  -> [op |-> "suite", kind |-> CASE Profile = "limit" -> "limit" [] Profile = "retry" -> "retry" [] Profile = "breaker" -> OneOf(<<"cb", "cb", "cbi">>) [] OTHER -> OneOf(<<"cb", "cb", "retry", "limit", "cbi">>), port |-> One({-1, 8888, 9999})]
      [] op = "serve"  -> [op |-> "serve"]
      [] OTHER         -> GenLookup(x)

(* Several steps at once: the client is not quiescent in between. *)
RECURSIVE GenBatch(_, _, _)
GenBatch(x, k, known) ==     \* known: the types asked for before the batch

    IF k = 0 THEN <<>>
    ELSE LET op == CASE Profile = "conc" -> OneOf(<<"resp", "resp", "lookup", "lookup", "cancel", "fail", "reg">>)
                     [] Profile = "stream" -> OneOf(<<"resp", "lookup", "lookup", "fail", "fail", "down">>)
                     [] OTHER -> OneOf(<<"resp", "resp", "lookup", "lookup", "cancel", "fail", "reg">>)
             s0 == TLCEval(GenOne(x, op))
             \* whether a response is ignored must not depend on a lookup that is just starting
             st == IF op = "resp" /\ s0.t \in Types \ known THEN TLCEval(GenLookup(x)) ELSE s0
         IN <<st>> \o GenBatch(TLCEval(Do(x, st)), k - 1, known)

Gen(x) ==
    LET k == R(100)
        op == PickW(1, k)
    IN IF Profile = "stream" /\ x.down /\ x.live /\ Chance(40) THEN [op |-> "fail", kind |-> R(11) - 1]
       ELSE IF Profile = "stream" /\ x.down /\ ~x.live /\ Chance(25) THEN [op |-> "adv", ms |-> Bounded(x, 960007)]     \* longer than the back-off goes on
       ELSE IF x.down /\ Chance(35) THEN [op |-> "up"]
       ELSE IF x.deaf /\ Chance(30) THEN [op |-> "fail", kind |-> R(11) - 1]
       ELSE IF x.ready < 0 THEN (IF k <= 85 THEN GenResp(x) ELSE IF k <= 90 THEN [op |-> "fail", kind |-> R(11) - 1] ELSE GenAdv(x))
       ELSE IF op = "batch" THEN [op |-> "batch", steps |-> GenBatch(x, 1 + R(5), x.core.known)]
       ELSE GenOne(x, op)

Cfgs == CASE Profile = "bind" -> {[nds |-> TRUE, lds |-> l, timeout |-> 1000] : l \in BOOLEAN}
          [] Profile = "limit" -> {[nds |-> n, lds |-> TRUE, timeout |-> 1000] : n \in BOOLEAN}
          [] Profile \in {"retry", "breaker"} -> {[nds |-> FALSE, lds |-> l, timeout |-> 1000] : l \in BOOLEAN}
          [] OTHER -> [nds : BOOLEAN, lds : BOOLEAN, timeout : {1000, 3000}]

Init == \E cfg \in Cfgs : s = S0(cfg) /\ hist = <<>>

(* In the end calls are made to the clusters. *)
Trip == [op |-> "trip", names |-> <<"c1", "c2", "c3", "c4">>]
Out(h) == PrintT(<<"GEN", ToJson([cfg |-> s.cfg, steps |-> IF Profile \in {"policy", "retry", "breaker"} THEN Append(h, Trip) ELSE h])>>)

Next == /\ Len(hist) < Depth
        /\ \E st \in {TLCEval(Gen(s))} :
             /\ s' = TLCEval(Apply(s, st))
             /\ hist' = Append(hist, st)
             /\ (Len(hist) + 1 = Depth) => Out(hist')

Invariant == C01(s) /\ C03(s) /\ C05(s) /\ C19(s)
StepOK == [][LET st == hist'[Len(hist')] IN
             st.op # "batch" => C02step(s, s', st) /\ C03step(s, s', st) /\ C04step(s, s', st)]_vars
=============================================================================
