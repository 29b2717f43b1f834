----------------------------- MODULE ConfigGen -----------------------------
(***************************************************************************)
(* Random configurations and what to do with them, printed as JSON.  Run    *)
(* with -simulate num=1.  A row of profile                                  *)
(*   decode  : resources of one type and probes for their conditions        *)
(*   route, pick, resolve : a world with phases of a configuration and      *)
(*             calls and resolutions made in them                           *)
(*   boot, bind : an environment, name tables, listeners and lookups        *)
(*   bytes   : resources and mutations of their encoding                    *)
(*   hostile : a world whose first phase has mutated resources              *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils, Randomization

Profile == IOEnv.PROFILE
Num     == atoi(IOEnv.NUM)

R(n) == RandomElement(1..n)
Chance(p) == RandomElement(1..100) <= p
One(S) == RandomElement(S)
Gen(n, F(_)) == TLCEval([i \in 1..n |-> TLCEval(F(i))])
OneOf(sq) == sq[R(Len(sq))]

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

(* ------------------------------- conditions ---------------------------- *)

Pkgs     == <<"", "pkg", "pkg", "pkg", "a.b">>
Svcs     == <<"Echo", "Echo", "Echo", "Order">>
Methods  == <<"Get", "Get", "Get", "Get", "Set", "Set", "get">>
Keys     == {"env", "user", "ver", "X-Env"}
Vals     == {"red", "re", "blue", "v1", "v12", "v", "gray", "grey", "Red", "redd", "", "rev1", " red", "red ", "v1 v12"}
Conds    == {[k |-> "exact", v |-> x] : x \in {"red", "v1", "blue", "re"}} \cup {[k |-> "prefix", v |-> x] : x \in {"re", "v", "gr", "v1"}}
            \cup {[k |-> "regex", v |-> x] : x \in Regexes}
Paths    == <<"/pkg.Echo/Get", "/pkg.Echo/Get", "/pkg.Echo/Get", "/pkg.Echo/Get", "/pkg.Echo/Set", "/pkg.Echo/Set", "/Echo/Get", "/Echo/Set", "/a.b.Order/Get", "/Order/Set",
              "/pkg.Order/get", "/pkg.Echo", "/pkg.Echo/", "pkg.Echo/Get", "/pkg.echo/Get", "/pkg.Echo/Gett", "/pkg.Echo/Ge", "/">>
Prefixes == <<"/", "/", "/", "/", "/", "/pkg.Echo", "/pkg.Echo/Get", "/P">>

PickHdr(i) == LET c == One(Conds) IN [h |-> One(Keys), k |-> c.k, v |-> c.v]
PickHdrs(x_) == Gen(OneOf(<<0, 0, 0, 0, 1, 1, 1, 2, 3>>), PickHdr)
PickPath(x_) == LET r == R(100) IN IF r <= 55 THEN [k |-> "path", v |-> OneOf(Paths)] ELSE IF r <= 97 THEN [k |-> "prefix", v |-> OneOf(Prefixes)]
                               ELSE [k |-> "regex", v |-> "^.*$"]
PickMd(i) == LET ks == TLCEval(RandomSubset(OneOf(<<0, 1, 2, 3, 3, 4, 4, 4>>), Keys)) IN TLCEval([k \in ks |-> One(Vals)])

(* The metadata and paths that tell the conditions of a decoded route apart. *)
Probes(x_) == [paths |-> <<"/Echo/Get", "/pkg.Echo/Get", "/pkg.Echo/Set", "/a.b.Order/Get", "/pkg.Echo", "/pkg.Echo/", "pkg.Echo/Get", "/pkg.Echo/Gett",
                       "/zzz", "/", "", "Get", "Set", "get">>,
           metas |-> Gen(10, PickMd) \o <<[x \in {} |-> ""], [env |-> "red"], [env |-> "v1", user |-> "v1", ver |-> "v1"],
                        [env |-> "re", user |-> "red", ver |-> "blue"] @@ ("X-Env" :> "gray")>>]

(* -------------------------------- tables ------------------------------- *)

Micros == {0, 1, 999, 1000, 1500, 250000, 999999, 1000000, 1000001, 2500000, 30000000, 120000000}
PickRp(i) ==
    LET base == One({-1, 0, 1, 1500, 25000, 100000, 1000000})
    IN [n |-> OneOf(<<-1, -1, 0, 1, 2, 5, 100, 257, 70000>>), ptt |-> One(Micros), pti |-> OneOf(<<0, 0, 1000, 2500000>>), er |-> OneOf(<<0, 0, 1, 50, 125, 300>>),
        ord |-> R(6), methods |-> OneOf(<< <<>>, <<>>, <<"Get">>, <<"Get", "Set">>, <<"a", "b", "c">> >>), base |-> base,
        max |-> IF base < 0 THEN -1 ELSE One({-1, 1000, 25000, 250000, 60000000})]
PlainRp == [n |-> -1, ptt |-> 0, pti |-> 0, er |-> 0, methods |-> <<>>, base |-> -1, max |-> -1]

ClName(tag, j) == "out|" \o tag \o "|" \o ToString(j)
PickClusters(tag) ==
    LET n == OneOf(<<2, 2, 3, 4>>)
    IN Gen(n, LAMBDA j : [n |-> ClName(tag, j), w |-> OneOf(<<0, 0, 1, 1, 2, 10, 50, 100, 1000, 65537, 1000000>>)])
PickAct(x_) == OneOf(<<"single", "single", "single", "weighted", "weighted">>)
PickRoute(tag) ==
    LET act == IF Chance(4) THEN "redirect" ELSE PickAct(0)
    IN [path |-> PickPath(0), hdrs |-> PickHdrs(0), act |-> act, to |-> One(Micros \cup {-1}), rp |-> PickRp(0),
        cl |-> IF act = "weighted" THEN (IF Chance(15) THEN <<>> ELSE PickClusters(tag)) ELSE IF act = "single" THEN <<[n |-> ClName(tag, 1), w |-> 1]>> ELSE <<>>]
PickTroute(tag) ==
    LET act == PickAct(0)
    IN [m |-> OneOf(<<"", "Get", "Get", "Set", "get", "Ge">>), hdrs |-> PickHdrs(0), act |-> act,
        cl |-> IF act = "weighted" THEN (IF Chance(5) THEN <<>> ELSE PickClusters(tag)) ELSE <<[n |-> ClName(tag, 1), w |-> 1]>>]
PickTable(n) ==
    [n |-> n, vhs |-> Gen(OneOf(<<0, 1, 1, 1, 1, 2, 2, 2, 3>>), LAMBDA i :
        [n |-> n \o "-vh" \o ToString(i), routes |-> Gen(OneOf(<<0, 1, 2, 2, 3, 3, 4, 5>>), LAMBDA j : PickRoute(n \o "-" \o ToString(i) \o "." \o ToString(j)))])]

(* ------------------------------- listeners ----------------------------- *)

Tokens == {0, 1, 5, 7, 100, 1000, 1000000}
Noise == {[k |-> "router"], [k |-> "router"], [k |-> "rlnone"], [k |-> "tsother"], [k |-> "tsnone"], [k |-> "discovery"], [k |-> "plain"]}
PickHf(x_) ==
    LET pre == Gen(OneOf(<<0, 0, 1, 2, 3>>), LAMBDA i : One(Noise))
        post == Gen(OneOf(<<0, 0, 1, 2>>), LAMBDA i : One(Noise))
        b == [k |-> OneOf(<<"rl", "rl", "ts">>), max |-> One(Tokens), fill |-> One(Tokens)]
    IN pre \o (IF Chance(60) THEN <<b>> ELSE <<>>) \o post
PickHttp(tag, rds) ==
    \* an inline table may have the name of another one
    IF Chance(50) THEN [k |-> "http", rds |-> "", inline |-> <<IF Chance(40) THEN [PickTable("in-" \o tag) EXCEPT !.n = rds] ELSE PickTable("in-" \o tag)>>, hf |-> PickHf(0)]
    ELSE [k |-> "http", rds |-> rds, inline |-> <<>>, hf |-> PickHf(0)]
PickThrift(tag) == [k |-> "thrift", routes |-> Gen(One({0, 1, 2, 3}), LAMBDA j : PickTroute("th-" \o tag \o "." \o ToString(j)))]
PickFilter(tag, rds) == LET r == R(10) IN IF r <= 5 THEN PickHttp(tag, rds) ELSE IF r <= 8 THEN PickThrift(tag) ELSE [k |-> "other"]
PickChain(tag) ==
    [port |-> One({0, 80, 8080, 8888, 65535}), m |-> One({0, 1}),
     filters |-> Gen(OneOf(<<0, 1, 1, 2, 3>>), LAMBDA i : PickFilter(tag \o "." \o ToString(i), "rc-" \o tag \o "." \o ToString(i)))]
PickListener(n) ==
    [n |-> n, chains |-> Gen(OneOf(<<0, 1, 1, 2, 3, 4>>), LAMBDA i : PickChain(n \o "/" \o ToString(i))),
     dflt |-> IF Chance(25) THEN <<[PickChain(n \o "/d") EXCEPT !.port = 0, !.m = 0]>> ELSE <<>>]

(* ------------------------- clusters and endpoints ---------------------- *)

Addrs == {"10.1.0.1", "10.1.0.2", "10.1.0.3", "::1", "fe80::2", "host.example"}
(* Endpoints without a weight have port 9. *)
PickEp(i) ==
    LET none == Chance(12)
    IN [a |-> One(Addrs), p |-> IF none THEN 9 ELSE One({1, 80, 8080, 65535}), w |-> IF none THEN One({-1, 0}) ELSE OneOf(<<1, 1, 2, 10, 100, 1000000>>),
        h |-> One({0, 1, 2, 3})]
\* many endpoints
ManyEps(x_) == LET n == 15 + R(30) IN Gen(R(3), LAMBDA i : Gen(n, LAMBDA j : [a |-> "10.1." \o ToString(i) \o "." \o ToString(j), p |-> 8000 + j, w |-> 1 + (j % 3), h |-> 0]))
PickLocs(x_) == IF Chance(4) THEN ManyEps(0) ELSE Gen(OneOf(<<1, 1, 2, 3>>), LAMBDA i : Gen(OneOf(<<0, 1, 1, 2, 3>>), PickEp))
PickCluster(n) ==
    [n |-> n, type |-> OneOf(<<"EDS", "EDS", "LOGICAL_DNS", "STATIC">>), lb |-> One({"ROUND_ROBIN", "RING_HASH"}),
     svc |-> OneOf(<<"", "", "svc-" \o n, "shared", "c1", "n1">>),
     od |-> IF Chance(30) THEN [th |-> -1, vol |-> -1] ELSE [th |-> One({-1, 0, 1, 50, 100}), vol |-> One({-1, 0, 1, 10, 100000})],
     odx |-> One({0, 1}),
     inline |-> IF Chance(35) THEN <<PickLocs(0)>> ELSE <<>>]
PickCla(n) == [n |-> n, locs |-> IF Chance(12) THEN <<>> ELSE PickLocs(0)]

(* ------------------------------- name tables --------------------------- *)

IpPool == {<<"10.0.0.1">>, <<"10.0.0.2">>, <<"10.0.0.2", "10.0.0.1">>, <<"10.0.0.3", "10.0.0.1", "10.0.0.2">>, <<>>, <<"fd00::7">>}

(* --------------------------------- decode ------------------------------ *)

ResNames == {"n1", "n2", "n3", "10.0.0.1_80", "virtualInbound", "outbound|80||a.b.svc.cluster.local", ""}
Some(x_) == SetToSeq(TLCEval(RandomSubset(OneOf(<<0, 1, 1, 2, 3>>), ResNames)))
DecodeRow(x_) ==
    LET t == OneOf(<<"LDS", "LDS", "RDS", "RDS", "CDS", "EDS", "NDS">>)
        ns == Some(0)
        hs == SetToSeq(TLCEval(RandomSubset(R(5), {"a", "b.ns", "c.ns.svc.cluster.local", "Www.Ext.com", "d", "e"})))
        cut == One(0..Len(hs))
        Tab(sq) == [tab |-> Gen(Len(sq), LAMBDA i : [host |-> sq[i], ips |-> One(IpPool)])]
    IN [k |-> "decode", t |-> t, probes |-> Probes(0),
        res |-> CASE t = "LDS" -> Gen(Len(ns), LAMBDA i : PickListener(ns[i]))
                  [] t = "RDS" -> Gen(Len(ns), LAMBDA i : PickTable(ns[i]))
                  [] t = "CDS" -> Gen(Len(ns), LAMBDA i : PickCluster(ns[i]))
                  [] t = "EDS" -> Gen(Len(ns), LAMBDA i : PickCla(ns[i]))
                  [] t = "NDS" -> IF Chance(40) THEN <<Tab(SubSeq(hs, 1, cut)), Tab(SubSeq(hs, cut + 1, Len(hs)))>> ELSE <<Tab(hs)>>]

(* --------------------------------- worlds ------------------------------ *)

HostTab == <<[host |-> "svca.default.svc.cluster.local", ips |-> <<"10.0.0.1">>], [host |-> "svcb.ns.svc.cluster.local", ips |-> <<"10.0.0.2", "10.0.0.1">>],
             [host |-> "www.ext.com", ips |-> <<"10.0.0.3">>]>>
Dests(nds) == IF Chance(5) THEN "unknown" ELSE IF nds THEN One({"svca", "svcb.ns", "www.ext.com:8080"}) ELSE One({"svca", "svcb", "svcc"})
LisNames(nds) == IF nds THEN {"10.0.0.1_80", "10.0.0.2_80", "10.0.0.3_8080"} ELSE {"svca", "svcb", "svcc"}
TabNames == {"r1", "r2"}

(* An outbound listener: at most one http and one thrift filter. *)
PickOutbound(n) ==
    LET tag == n \o "#" \o ToString(R(1000))
        http == IF Chance(85) THEN <<PickHttp(tag, One(TabNames))>> ELSE <<>>
        th == IF Chance(45) THEN <<PickThrift(tag)>> ELSE <<>>
        oth == IF Chance(25) THEN <<[k |-> "other"]>> ELSE <<>>
        fs == IF Chance(50) THEN oth \o http \o th ELSE th \o http \o oth
        ch == [port |-> 0, m |-> 0, filters |-> fs]
    IN IF Chance(80) THEN [n |-> n, chains |-> <<ch>>, dflt |-> <<>>]
       ELSE IF Chance(50) THEN [n |-> n, chains |-> <<>>, dflt |-> <<ch>>]
       ELSE [n |-> n, chains |-> <<[ch EXCEPT !.filters = th]>>, dflt |-> <<[ch EXCEPT !.filters = http]>>]

RouteCalls(nds) == [k |-> "call", svc |-> Dests(nds), pkg |-> OneOf(Pkgs), isvc |-> OneOf(Svcs), method |-> OneOf(Methods), grpc |-> Chance(40), tp |-> OneOf(<<"ttheader", "framed", "pure", "ttframed", "http">>),
               md |-> PickMd(0), tag |-> IF Chance(6) THEN "decided" ELSE "", nextfail |-> Chance(15), via |-> OneOf(<<"mw", "mw", "retry">>)]
RoutePhase(nds) ==
    [lis |-> LET ns == SetToSeq(TLCEval(RandomSubset(OneOf(<<2, 3, 3, 3>>), LisNames(nds)))) IN Gen(Len(ns), LAMBDA i : PickOutbound(ns[i])),
     tabs |-> LET ns == SetToSeq(TLCEval(RandomSubset(OneOf(<<1, 2, 2, 2>>), TabNames))) IN Gen(Len(ns), LAMBDA i : PickTable(ns[i] \o "")),
     cls |-> <<>>, clas |-> <<>>,
     mute |-> IF Chance(10) THEN One({<<"LDS">>, <<"RDS">>, <<"LDS", "RDS">>}) ELSE <<>>,
     bad |-> IF Chance(8) THEN One({<<"LDS">>, <<"RDS">>}) ELSE <<>>,
     acts |-> Gen(16, LAMBDA i : RouteCalls(nds))]
RouteRow(x_) ==
    LET nds == Chance(60)
    IN [k |-> "world", cfg |-> [nds |-> nds, lds |-> One({TRUE, FALSE}), timeout |-> 100, ext |-> One({"meta", "custom"}), mm |-> Chance(50)],
        hosts |-> HostTab, phases |-> Gen(OneOf(<<1, 1, 2, 3>>), LAMBDA i : RoutePhase(nds))]

(* Weighted picks: one catch-all route per table. *)
Weights == {<<1, 1>>, <<1, 1, 1>>, <<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 0>>, <<0, 5>>, <<5, 0>>, <<0, 0, 3>>, <<0, 3, 0>>, <<1, 2>>, <<2, 1>>, <<1, 3>>,
            <<10, 90>>, <<90, 10>>, <<1, 99>>, <<99, 1>>, <<25, 25, 50>>, <<1, 2, 3, 4>>, <<4, 3, 2, 1>>, <<0, 0>>, <<0>>, <<>>, <<7>>, <<50, 50>>,
            <<33, 33, 34>>, <<0, 10, 0, 20, 0, 30>>, <<5, 5, 5, 5, 5, 5, 5, 5, 5, 5>>}
PickRow(x_) ==
    LET n == 6
        Rt(i) == LET ws == IF Chance(70) THEN One(Weights \ {<<0>>}) ELSE Gen(R(5) + 1, LAMBDA x : R(20) - 1)
                 IN [path |-> [k |-> "prefix", v |-> "/"], hdrs |-> <<>>, act |-> IF Len(ws) = 1 /\ Chance(50) THEN "single" ELSE "weighted", to |-> 1000, rp |-> PlainRp,
                     cl |-> [j \in 1..Len(ws) |-> [n |-> "k" \o ToString(IF Chance(3) /\ j > 1 THEN j - 1 ELSE j), w |-> ws[j]]],
                     scale |-> OneOf(<<1, 1, 1, 7, 1000, 1000000, 30000000>>)]
        Th(i) == LET r == Rt(i) IN [m |-> "", hdrs |-> <<>>, act |-> r.act, cl |-> r.cl, scale |-> r.scale]
        Lis(i) == LET r == TLCEval(Rt(i)) IN
                  [n |-> "s" \o ToString(i), dflt |-> <<>>, chains |-> <<[port |-> 0, m |-> 0, filters |->
                    CASE i % 3 = 0 -> <<[k |-> "http", rds |-> "t" \o ToString(i), inline |-> <<>>, hf |-> <<>>]>>
                      [] i % 3 = 1 -> <<[k |-> "http", rds |-> "", inline |-> <<[n |-> "x", vhs |-> <<[n |-> "v", routes |-> <<r>>]>>]>>, hf |-> <<>>]>>
                      [] OTHER -> <<[k |-> "thrift", routes |-> <<Th(i)>>]>>]>>]
    IN [k |-> "world", cfg |-> [nds |-> FALSE, lds |-> FALSE, timeout |-> 100, ext |-> "meta", mm |-> FALSE], hosts |-> <<>>,
        phases |-> <<[lis |-> Gen(n, Lis), tabs |-> Gen(n, LAMBDA i : [n |-> "t" \o ToString(i), vhs |-> <<[n |-> "v", routes |-> <<Rt(i)>>]>>]),
                      cls |-> <<>>, clas |-> <<>>, mute |-> <<>>, bad |-> <<>>,
                      acts |-> Gen(n, LAMBDA i : [k |-> "pick", svc |-> "s" \o ToString(i), pkg |-> "", isvc |-> "Echo", method |-> "Get", grpc |-> FALSE,
                                                  md |-> [x \in {} |-> ""], tag |-> "", nextfail |-> FALSE, via |-> "mw", times |-> 20000])]>>]

ClNames == {"c1", "c2", "c3", "outbound|80||svca"}
EpNames == {"shared"} \cup ClNames \cup {"svc-" \o n : n \in ClNames}
ResolvePhase(i) ==
    LET cs == SetToSeq(TLCEval(RandomSubset(OneOf(<<2, 3, 4, 4>>), ClNames)))
        es == SetToSeq(TLCEval(RandomSubset(One({3, 5, 7, 9}), EpNames)))
    IN [lis |-> <<>>, tabs |-> <<>>, cls |-> Gen(Len(cs), LAMBDA j : PickCluster(cs[j])), clas |-> Gen(Len(es), LAMBDA j : PickCla(es[j])),
        mute |-> IF Chance(10) THEN One({<<"CDS">>, <<"EDS">>}) ELSE <<>>, bad |-> IF Chance(8) THEN One({<<"CDS">>, <<"EDS">>}) ELSE <<>>,
        acts |-> Gen(10, LAMBDA j : [k |-> "resolve", c |-> One(ClNames \cup ClNames \cup {"nope"})])]
ResolveRow(x_) ==
    [k |-> "world", cfg |-> [nds |-> Chance(50), lds |-> FALSE, timeout |-> 100, ext |-> "meta", mm |-> FALSE], hosts |-> HostTab,
     phases |-> Gen(One({1, 2, 3}), ResolvePhase)]

(* ---------------------------------- boot ------------------------------- *)

Str_(k, v) == [k |-> k, t |-> "s", v |-> v]
MetaPool == {Str_("LABEL", "x"), Str_("CLUSTER_ID", "Kubernetes"), Str_("ISTIO_VERSION", "1.13.5"), Str_("EMPTY", ""), [k |-> "NUM", t |-> "n", v |-> "7"],
             [k |-> "FLAG", t |-> "b", v |-> "true"], [k |-> "OBJ", t |-> "o", v |-> "{\"a\":\"b\"}"]}
NsMetas == {Str_("NAMESPACE", "other"), Str_("NAMESPACE", "Other"), Str_("NAMESPACE", ""), [k |-> "NAMESPACE", t |-> "n", v |-> "3"]}
IpMetas == {Str_("INSTANCE_IPS", x) : x \in {"", "10.1.2.3", "10.1.2.30", "110.1.2.3", "10.1.2.3,10.9.9.9", "10.9.9.9", "10.9.9.9,10.1.2.3", "10.1.2.34,10.9.9.9",
                                             "9.9.9.9,8.8.8.8,10.1.2.3,7.7.7.7", "10.1.2.3,10.1.2.34"}}
PickMetas(x_) ==
    SetToSeq(TLCEval(RandomSubset(One({0, 1, 2, 3}), MetaPool))) \o (IF Chance(45) THEN <<One(NsMetas)>> ELSE <<>>) \o (IF Chance(60) THEN <<One(IpMetas)>> ELSE <<>>)
PickEnv(full) ==
    [ns |-> IF ~full /\ Chance(12) THEN "" ELSE One({"default", "prod", "Prod"}), pod |-> IF ~full /\ Chance(12) THEN "" ELSE One({"pod-1", "a.b"}),
     ip |-> IF ~full /\ Chance(12) THEN "" ELSE OneOf(<<"10.1.2.3", "10.1.2.3", "fd00::1">>), dom |-> OneOf(<<"", "", "cluster.local", "corp.example", "Corp.Local">>),
     ver |-> One({"1.16", "", "1.9"}),
     raw |-> OneOf(<<"none", "json", "json", "json", "json", "bad", "cut">>), metas |-> PickMetas(0)]

BindHosts == {"svca", "SvcA", "svca.other", "svca.prod", "svca.other.svc", "svca.prod.svc.corp.example", "www.ext.com", "WWW.Ext.com", "a.b.c.d", "svca.default",
              "a.b.mysvc", "a.svc", "a.b.svc.c", "svc", "svca.SVC.prod", "b.svcb.svc", "svca.default.svc.cluster.local"}
BindPorts == {"", "", ":80", ":8080", ":9000"}
\* for each host of a table the ways to write it
BoundNames == << {"svca.default.svc.cluster.local", "SVCA.default.svc.cluster.local"}, {"svca.default.svc.corp.example", "SvcA.Default.svc.Corp.example"},
                 {"svca.default.svc.corp.local"}, {"svca.other.svc.cluster.local", "SVCA.other.svc.Cluster.local"}, {"svca.other.svc.corp.example"},
                 {"svca.other.svc.corp.local", "svca.Other.svc.Corp.Local"}, {"svca.prod.svc.cluster.local"}, {"svca.prod.svc.corp.example"},
                 {"svca.prod.svc.corp.local"}, {"svca.3.svc.cluster.local"}, {"a.b.c.d.other.svc.cluster.local"}, {"a.b.c.d.default.svc.cluster.local"},
                 {"a.b.c.d.prod.svc.corp.example"}, {"svca", "SvcA"}, {"www.ext.com", "WWW.Ext.com"}, {"svca.other"}, {"svca.prod", "Svca.Prod"}, {"a.b.c.d"},
                 {"svca.other.svc"}, {"svca.default"},
                 {"a.b.mysvc"}, {"a.b.mysvc.cluster.local"}, {"a.b.mysvc.corp.example"}, {"a.b.mysvc.default.svc.cluster.local"}, {"a.svc.svc.cluster.local", "A.svc.svc.cluster.local"},
                 {"a.svc.cluster.local"}, {"a.svc"}, {"a.b.svc.c"}, {"a.b.svc.c.default.svc.cluster.local"}, {"svc.default.svc.cluster.local"}, {"svca.SVC.prod", "svca.svc.prod"},
                 {"b.svcb.svc.cluster.local"}, {"svca.default.svc.cluster.local.svc.cluster.local"}, {"svca.default.svc.cluster.local.default.svc.cluster.local"} >>
PickBindTab(env) ==
    LET sq == TLCEval(SetToSeq(TLCEval(RandomSubset(One({9, 14, 20, 27, 34}), 1..Len(BoundNames)))))
        cut == OneOf(<<Len(sq), Len(sq), Len(sq) \div 2>>)
        all == TLCEval([i \in 1..Len(sq) |-> [host |-> One(BoundNames[sq[i]]), ips |-> One({<<"10.0.0.1">>, <<"10.0.0.2">>, <<"10.0.0.2", "10.0.0.1">>, <<"10.0.0.3">>, <<"10.0.0.4">>, <<>>, <<"fd00::7", "10.0.0.2">>})]])
    IN IF cut = Len(sq) THEN <<all>> ELSE <<SubSeq(all, 1, cut), SubSeq(all, cut + 1, Len(sq))>>
BindLis(x_) ==
    LET S == {ip \o "_" \o p : ip \in {"10.0.0.1", "10.0.0.2", "10.0.0.3", "10.0.0.4", "fd00::7"}, p \in {"80", "8080"}}
        T == TLCEval(RandomSubset(One({5, 9, 10}), S))
    IN SetToSeq(T)
BootRow(bind, x_) ==
    LET env == TLCEval(PickEnv(bind))
    IN [k |-> "boot", env |-> env, phases |-> Gen(IF bind THEN One({1, 2, 3}) ELSE 1, LAMBDA i : [tabs |-> PickBindTab(env), lis |-> BindLis(0)]),
        lookups |-> SetToSeq(TLCEval(RandomSubset(IF bind THEN 20 ELSE 4, {h \o p : h \in BindHosts, p \in BindPorts})))]

(* ---------------------------------- bytes ------------------------------ *)

PickMut(i) == [op |-> OneOf(<<"del", "del", "dup", "empty", "trunc", "flip", "ins", "wire", "len", "swap", "zero">>), at |-> R(1000), v |-> R(256) - 1]
MutRow(x_) ==
    LET row == DecodeRow(x_)
        muts == IF Chance(15) THEN <<>> ELSE Gen(OneOf(<<1, 1, 1, 2, 3>>), PickMut)
    IN [k |-> "bytes", t |-> row.t, res |-> row.res, muts |-> muts, which |-> R(3), url |-> IF Chance(6) THEN One({"", "SEC", "UNK", "LDS", "RDS", "CDS", "EDS", "NDS"}) ELSE row.t]

HostileRow(x_) ==
    LET base == TLCEval(IF Chance(70) THEN RouteRow(x_) ELSE ResolveRow(x_))
        p1 == [base.phases[1] EXCEPT !.bad = <<>>, !.mute = <<>>]
        p2 == [base.phases[Len(base.phases)] EXCEPT !.bad = <<>>, !.mute = <<>>]
    IN [base EXCEPT !.phases = <<[x \in DOMAIN p1 \cup {"muts"} |-> IF x = "muts" THEN Gen(One({1, 2, 3, 4}), PickMut) ELSE p1[x]], p2>>]

(* ------------------------------------------------------------------------ *)

Row(x_) == CASE Profile = "decode"  -> DecodeRow(x_)
         [] Profile = "route"   -> RouteRow(x_)
         [] Profile = "pick"    -> PickRow(x_)
         [] Profile = "resolve" -> ResolveRow(x_)
         [] Profile = "boot"    -> BootRow(FALSE, x_)
         [] Profile = "bind"    -> BootRow(TRUE, x_)
         [] Profile = "bytes"   -> MutRow(x_)
         [] Profile = "hostile" -> HostileRow(x_)

VARIABLE i
Init == i = 0
Next == i < Num /\ i' = i + 1 /\ PrintT(<<"GEN", ToJson(Row(i))>>)
=============================================================================
