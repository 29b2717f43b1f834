------------------------------ MODULE XdsSmall ------------------------------
(***************************************************************************)
(* XdsModel over small alphabets, explored exhaustively: every step from    *)
(* every state (up to Abs, and to a number of steps).  The histories that   *)
(* lead to the transitions are printed, one for each, and replayed into the *)
(* real client.                                                             *)
(***************************************************************************)
EXTENDS XdsModel, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Alpha == IOEnv.ALPHA
Tail1 == atoi(IOEnv.TAIL)    \* so many of the last steps distinguish states

VARIABLES s, hist
vars == <<s, hist>>

Resp(t, res) == [op |-> "resp", t |-> t, res |-> res]
Look(t, n) == [op |-> "lookup", t |-> t, n |-> n, ctx |-> 0]
Adv(ms) == [op |-> "adv", ms |-> ms]
Op(o) == [op |-> o]

OD(n, th, vol) == [n |-> n, od |-> [th |-> th, vol |-> vol, z |-> 0]]
Cl(n) == OD(n, -1, 0)
Bad(r, b) == r @@ [bad |-> b]
Rp(n, base, max, ms) == [n |-> n, ptt |-> 100, er |-> 50, methods |-> ms, base |-> base, max |-> max]
Rt(n, cls, rp) == [n |-> n, routes |-> <<[cl |-> cls, rp |-> rp]>>]
Tb(n) == [n |-> n, routes |-> <<>>]
Lis(n) == [n |-> n]
Inb(chains) == [n |-> Reserved, chains |-> chains]
Ch(p, k) == [port |-> p, tok |-> k]
Tab(rows) == <<[n |-> "", tab |-> rows]>>
Host(h, ips) == [host |-> h, ips |-> ips]
A == "svca.default.svc.cluster.local"

Cfg == CASE Alpha \in {"bind", "warm", "stream"} -> [nds |-> TRUE, lds |-> TRUE, timeout |-> 1000]
         [] Alpha = "limit" -> [nds |-> FALSE, lds |-> TRUE, timeout |-> 1000]
         [] OTHER -> [nds |-> FALSE, lds |-> FALSE, timeout |-> 1000]

Warm == CASE Alpha \in {"bind", "stream"} -> <<Resp("NDS", Tab(<<>>)), Resp("LDS", <<>>)>>
          [] Alpha = "breaker" -> <<[op |-> "suite", kind |-> "cb", port |-> -1], Look("CDS", "c1"), Look("CDS", "c2")>>
          [] Alpha = "retry" -> <<[op |-> "suite", kind |-> "retry", port |-> -1], Look("RDS", "r1"), Look("RDS", "r2")>>
          [] Alpha = "limit" -> <<Resp("LDS", <<>>), [op |-> "suite", kind |-> "limit", port |-> 8888]>>
          [] Alpha = "drop" -> <<Look("CDS", "c1"), Resp("CDS", <<Cl("c1")>>), Adv(7003)>>
          [] OTHER -> <<>>

Steps0 ==
    CASE Alpha = "cache" -> {
            Look("CDS", "c1"), Look("CDS", "c2"), Look("RDS", "r1"),
            Resp("CDS", <<>>), Resp("CDS", <<Cl("c1")>>), Resp("CDS", <<Cl("c1"), Cl("c2")>>), Resp("CDS", <<Bad(Cl("c1"), "bytes"), Cl("c2")>>),
            Resp("RDS", <<>>), Resp("RDS", <<Tb("r1"), Tb("r2")>>), Resp("EDS", <<[n |-> "e1"]>>),
            Op("fail"), Adv(1003)}
      [] Alpha = "life" -> {
            Look("CDS", "c1"), Look("RDS", "r1"), Resp("CDS", <<Cl("c1")>>), Resp("RDS", <<Tb("r1")>>), Resp("CDS", <<>>),
            Adv(13007), Adv(31013)}
      [] Alpha = "drop" -> {     \* names that are dropped and asked for again around a sweep
            Look("CDS", "c1"), Resp("CDS", <<Cl("c1")>>), Resp("CDS", <<>>), Resp("CDS", <<Cl("c2")>>), Adv(52500), Adv(703), Op("fail")}
      [] Alpha = "warm" -> {
            Resp("NDS", <<>>), Resp("NDS", Tab(<<Host(A, <<"10.0.0.1">>)>>)), Resp("LDS", <<Inb(<<Ch(0, 5)>>)>>), Resp("LDS", <<Bad(Inb(<<>>), "url")>>),
            Op("fail"), Op("down"), Op("up"), Op("auth"), Adv(5003), Look("LDS", "svca"), Look("CDS", "c1")}
      [] Alpha = "stream" -> {
            Op("fail"), Op("deaf"), Op("auth"), Op("down"), Op("up"), Adv(5003), Look("CDS", "c1"), Look("EDS", "e1"),
            Resp("CDS", <<Cl("c1")>>), Resp("CDS", <<Bad(Cl("c1"), "url")>>), Resp("EDS", <<[n |-> "e1"]>>)}
      [] Alpha = "bind" -> {
            Look("LDS", "svca"), Look("LDS", "SvcA.default:8080"),
            Resp("NDS", Tab(<<Host(A, <<"10.0.0.1">>)>>)), Resp("NDS", Tab(<<Host("SVCA.default.svc.cluster.local", <<"10.0.0.2", "10.0.0.1">>)>>)),
            Resp("NDS", Tab(<<Host("svca", <<"10.0.0.1">>), Host(A, <<>>)>>)), Resp("NDS", <<>>),
            Resp("LDS", <<Lis("10.0.0.1_80"), Lis("10.0.0.1_8080"), Lis("svca")>>), Resp("LDS", <<Lis("10.0.0.2_80"), Lis("10.0.0.1_80")>>), Resp("LDS", <<>>),
            Op("fail")}
      [] Alpha = "breaker" -> {
            Resp("CDS", <<OD("c1", 20, 10)>>), Resp("CDS", <<OD("c1", 20, 0), OD("c2", 100, 1)>>), Resp("CDS", <<OD("c1", -1, 0), OD("c2", 0, 10)>>),
            Resp("CDS", <<OD("c2", 50, 100)>>), Resp("CDS", <<>>), Resp("CDS", <<Bad(OD("c1", 50, 5), "bytes")>>),
            Look("CDS", "c3"), Resp("CDS", <<OD("c1", 10, 5), OD("c3", 1, 1)>>), [op |-> "suite", kind |-> "cb", port |-> -1]}
      [] Alpha = "retry" -> {
            Resp("RDS", <<Rt("r1", <<"c1">>, Rp(2, -1, -1, <<>>))>>), Resp("RDS", <<Rt("r1", <<"c1", "c2">>, Rp(1, 25, -1, <<"m1">>)), Rt("r2", <<"c3">>, Rp(3, 10, 50, <<>>))>>),
            Resp("RDS", <<Rt("r2", <<"c1">>, Rp(2, 25, 10, <<"m1", "m2">>))>>), Resp("RDS", <<Tb("r1")>>), Resp("RDS", <<>>), Resp("RDS", <<Bad(Tb("r1"), "nomatch")>>),
            Look("RDS", "r1"), Adv(31013), [op |-> "suite", kind |-> "retry", port |-> -1]}
      [] OTHER -> {     \* limit
            Resp("LDS", <<>>), Resp("LDS", <<Inb(<<Ch(8888, 5), Ch(0, 7)>>)>>), Resp("LDS", <<Inb(<<Ch(0, 100), Ch(9999, 5)>>)>>), Resp("LDS", <<Inb(<<Ch(9999, 5)>>)>>),
            Resp("LDS", <<Inb(<<Ch(8888, 0), Ch(0, 9)>>)>>), Resp("LDS", <<Inb(<<>>)>>), Resp("LDS", <<Bad(Inb(<<Ch(8888, 1)>>), "nomatch")>>),
            [op |-> "serve"], [op |-> "suite", kind |-> "limit", port |-> -1], [op |-> "suite", kind |-> "limit", port |-> 9999], Op("fail")}

(* Fresh ids, versions and nonces. *)
Concrete(x, st) ==
    CASE st.op = "resp" ->
            st @@ [ver |-> "v" \o ToString(x.nresp + 1), nonce |-> "n" \o ToString(x.nresp + 1)]
               @@ [res |-> [i \in 1..Len(st.res) |-> st.res[i] @@ [c |-> x.ncid + i]]]
      [] st.op = "lookup" -> st @@ [id |-> x.nid + 1]
      [] st.op = "fail" -> st @@ [kind |-> (x.fails + x.nresp + x.nid) % 11]
      [] OTHER -> st
Con(x, st) == LET c == Concrete(x, st) IN
    IF st.op = "resp" THEN [c EXCEPT !.res = [i \in 1..Len(st.res) |-> st.res[i] @@ [c |-> x.ncid + i]]] ELSE c

RECURSIVE Run(_, _, _)
Run(x, h, sts) == IF sts = <<>> THEN <<x, h>> ELSE LET st == Con(x, Head(sts)) IN Run(Apply(x, st), Append(h, st), Tail(sts))

(* What matters of a state: not which contents, versions and nonces but that there are some. *)
Tokens(x) == IF Reserved \in DOMAIN x.core.cache["LDS"] THEN x.core.cache["LDS"][Reserved].chains ELSE <<>>
Content(r) == [k \in DOMAIN r \ {"c"} |-> r[k]]
Abs(x) == [sub |-> x.core.sub, known |-> x.core.known, tab |-> x.core.tab, dead |-> x.core.dead, live |-> x.live, deaf |-> x.deaf, down |-> x.down,
           cache |-> [t \in Data |-> [n \in DOMAIN x.core.cache[t] |-> Content(x.core.cache[t][n])]],
           lds |-> [i \in 1..Len(x.core.lds.res) |-> x.core.lds.res[i].n],
           ver |-> [t \in Types |-> x.core.ver[t] = ""], non |-> [t \in Types |-> x.non[t] = ""],
           out |-> {<<x.out[i].t, x.out[i].n, x.out[i].dl - x.now>> : i \in DOMAIN x.out},
           age |-> [t \in Data |-> [n \in DOMAIN x.core.cache[t] |-> Min(2 * PeriodMs, x.now - Max(Get0(x.ins[t], n), Get0(x.used[t], n)))]],
           phase |-> IF x.ready < 0 THEN -1 ELSE (x.now - x.ready) % PeriodMs,
           suites |-> x.suites, nsuites |-> IF Alpha = "limit" THEN Cardinality({i \in DOMAIN hist : hist[i].op \in {"suite", "serve"}}) ELSE 0]
(* Clusters that were configured. *)
Configured == UNION {{hist[i].res[j].n : j \in 1..Len(hist[i].res)} : i \in {k \in DOMAIN hist : hist[k].op = "resp" /\ Alpha = "breaker"}}
Plain(st) == IF st.op = "resp" THEN [t |-> st.t, res |-> [i \in 1..Len(st.res) |-> Content(st.res[i])]]
             ELSE IF st.op = "lookup" THEN [t |-> st.t, n |-> st.n] ELSE st
LastSteps == [i \in 1..Min(Tail1, Len(hist)) |-> Plain(hist[Len(hist) + 1 - i])]
View == <<Abs(s), Configured, LastSteps, Len(hist)>>

Init == \E r \in {Run(S0(Cfg), <<>>, Warm)} : s = r[1] /\ hist = r[2]

Next == /\ Len(hist) < Depth + Len(Warm)
        /\ \E st0 \in Steps0 : \E st \in {TLCEval(Con(s, st0))} :
             /\ s' = TLCEval(Apply(s, st))
             /\ hist' = Append(hist, st)
             /\ PrintT(<<"GEN", ToJson([cfg |-> s.cfg, steps |-> hist'])>>)

Invariant == C01(s) /\ C03(s) /\ C05(s) /\ C19(s)
StepOK == [][LET st == hist'[Len(hist')] IN C02step(s, s', st) /\ C03step(s, s', st) /\ C04step(s, s', st)]_vars
=============================================================================
