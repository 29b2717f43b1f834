---------------------------- MODULE ConfigSmall ----------------------------
(***************************************************************************)
(* All small configurations of a kind, as rows like those of ConfigGen.     *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils

Alpha == IOEnv.ALPHA

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Min(a, b) == IF a < b THEN a ELSE b
Chunks(sq, n) == [i \in 1..((Len(sq) + n - 1) \div n) |-> SubSeq(sq, (i - 1) * n + 1, Min(i * n, Len(sq)))]
\* the sequences over S with at most n elements
RECURSIVE UpTo(_, _)
UpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == UpTo(S, n - 1) IN T \cup {Append(t, x) : t \in {u \in T : Len(u) = n - 1}, x \in S}
Map(sq, F(_)) == [i \in 1..Len(sq) |-> F(sq[i])]
MapI(sq, F(_, _)) == [i \in 1..Len(sq) |-> F(i, sq[i])]

PlainRp == [n |-> -1, ptt |-> 0, pti |-> 0, er |-> 0, methods |-> <<>>, base |-> -1, max |-> -1]
H(h, k, v) == [h |-> h, k |-> k, v |-> v]
NoMd == [x \in {} |-> ""]

World(lis, tabs, cls, clas, acts) ==
    [k |-> "world", cfg |-> [nds |-> FALSE, lds |-> FALSE, timeout |-> 100, ext |-> "custom", mm |-> FALSE], hosts |-> <<>>,
     phases |-> <<[lis |-> lis, tabs |-> tabs, cls |-> cls, clas |-> clas, mute |-> <<>>, bad |-> <<>>, acts |-> acts]>>]

(* -------------------------------- routing ------------------------------ *)

PathC == {[k |-> "path", v |-> "/pkg.Echo/Get"], [k |-> "path", v |-> "/pkg.Echo/Set"], [k |-> "prefix", v |-> "/"], [k |-> "prefix", v |-> "/pkg.Echo"]}
HdrC == {<<>>, <<H("env", "exact", "red")>>, <<H("env", "prefix", "re")>>, <<H("user", "regex", "^v[0-9]+$")>>,
         <<H("env", "exact", "red"), H("user", "exact", "v1")>>, <<H("env", "prefix", "re"), H("env", "regex", "^.+$")>>}
Conditions == SetToSeq({[path |-> p, hdrs |-> h] : p \in PathC, h \in HdrC})
Mds == << NoMd, [env |-> "red"], [env |-> "re"], [env |-> "blue", user |-> "v1"], [env |-> "red", user |-> "v1"], [env |-> "", user |-> ""], [user |-> "v12", env |-> "redd"] >>
Call(s, m, g, md) == [k |-> "call", svc |-> s, pkg |-> "pkg", isvc |-> "Echo", method |-> m, grpc |-> g, md |-> md, tp |-> IF m = "Get" THEN "framed" ELSE "pure", tag |-> "", nextfail |-> FALSE, via |-> "mw"]
CallsTo(s) == SetToSeq({Call(s, m, g, Mds[i]) : m \in {"Get", "Set"}, g \in {TRUE, FALSE}, i \in DOMAIN Mds})

Route(c, n) == [path |-> c.path, hdrs |-> c.hdrs, act |-> "single", to |-> 1000 * n, rp |-> PlainRp, cl |-> <<[n |-> "k" \o ToString(n), w |-> 1]>>]
Troute(c, n) == [m |-> IF c.path.k = "path" THEN (IF c.path.v = "/pkg.Echo/Get" THEN "Get" ELSE "Set") ELSE IF c.path.v = "/" THEN "" ELSE "Ge",
                 hdrs |-> c.hdrs, act |-> "single", cl |-> <<[n |-> "k" \o ToString(n), w |-> 1]>>]
Lis(n, fs) == [n |-> n, chains |-> <<[port |-> 0, m |-> 0, filters |-> fs]>>, dflt |-> <<>>]
Http(rds, inline) == [k |-> "http", rds |-> rds, inline |-> inline, hf |-> <<>>]
Vhs(rs, split) == IF split THEN Map(rs, LAMBDA r : [n |-> "v", routes |-> <<r>>]) ELSE <<[n |-> "v", routes |-> rs]>>

(* Lists of at most two routes in a named table, an inline table, a thrift filter. *)
Lists == SetToSeq(UpTo(1..Len(Conditions), 2))
ListListener(i, ix, kind) ==
    LET s == "s" \o ToString(i)
        rs == MapI(ix, LAMBDA j, c : Route(Conditions[c], j))
    IN CASE kind = "thrift" -> Lis(s, <<[k |-> "thrift", routes |-> MapI(ix, LAMBDA j, c : Troute(Conditions[c], j))]>>)
         [] kind = "rds"    -> Lis(s, <<Http("t" \o ToString(i), <<>>)>>)
         [] kind = "inline" -> Lis(s, <<Http("", <<[n |-> "in" \o ToString(i), vhs |-> Vhs(rs, i % 2 = 0)]>>)>>)
ListWorld(ixs, kind) ==
    World(MapI(ixs, LAMBDA i, ix : ListListener(i, ix, kind)),
          IF kind # "rds" THEN <<>>
          ELSE MapI(ixs, LAMBDA i, ix : [n |-> "t" \o ToString(i), vhs |-> Vhs(MapI(ix, LAMBDA j, c : Route(Conditions[c], j)), i % 2 = 1)]),
          <<>>, <<>>, Concat(MapI(ixs, LAMBDA i, ix : CallsTo("s" \o ToString(i)))))
RouteRows == Concat(Map(<<"rds", "inline", "thrift">>, LAMBDA kind : Map(Chunks(Lists, 12), LAMBDA ixs : ListWorld(ixs, kind))))

(* What is consulted first. *)
Opt == {<<>>, <<[path |-> [k |-> "path", v |-> "/pkg.Echo/Get"], hdrs |-> <<>>]>>, <<[path |-> [k |-> "prefix", v |-> "/"], hdrs |-> <<>>]>>,
        <<[path |-> [k |-> "prefix", v |-> "/"], hdrs |-> <<H("env", "exact", "red")>>]>>}
Where == SetToSeq({[th |-> th, http |-> h, inl |-> in_, tab |-> tab, ord |-> o] :
            th \in {<<"no">>} \cup {<<"yes", x>> : x \in Opt}, h \in {"none", "inline", "rds"}, in_ \in Opt, tab \in {<<"no">>} \cup {<<"yes", x>> : x \in Opt}, o \in BOOLEAN})
Sensible == SelectSeq(Where, LAMBDA x : (x.http # "inline" => x.inl = <<>>) /\ (x.http = "none" => x.tab = <<"no">>))
PrecListener(i, x) ==
    LET s == ToString(i)
        th == IF x.th[1] = "no" THEN <<>> ELSE <<[k |-> "thrift", routes |-> Map(x.th[2], LAMBDA c : Troute(c, 1))]>>
        ht == CASE x.http = "none" -> <<>>
                [] x.http = "rds" -> <<Http("t" \o s, <<>>)>>
                [] OTHER -> <<Http("", <<[n |-> "t" \o s, vhs |-> Vhs(Map(x.inl, LAMBDA c : Route(c, 2)), FALSE)]>>)>>
    IN Lis("s" \o s, IF x.ord THEN th \o ht ELSE ht \o th)
PrecWorld(xs) ==
    World(MapI(xs, PrecListener),
          LET withtab == SelectSeq(MapI(xs, LAMBDA i, x : [i |-> i, tab |-> x.tab]), LAMBDA y : y.tab[1] = "yes")
          IN Map(withtab, LAMBDA y : [n |-> "t" \o ToString(y.i), vhs |-> Vhs(Map(y.tab[2], LAMBDA c : Route(c, 3)), FALSE)]),
          <<>>, <<>>, Concat(MapI(xs, LAMBDA i, x : CallsTo("s" \o ToString(i)))))
PrecRows == Map(Chunks(Sensible, 8), PrecWorld)

(* ------------------------------- weights ------------------------------- *)

Weightings == SelectSeq(SetToSeq(UpTo({0, 1, 3}, 4)), LAMBDA ws : ws # <<0>>)
WeightWorld(wss) ==
    World(MapI(wss, LAMBDA i, ws : Lis("s" \o ToString(i), <<Http("", <<[n |-> "x", vhs |-> Vhs(<<
              [Route([path |-> [k |-> "prefix", v |-> "/"], hdrs |-> <<>>], 1) EXCEPT !.act = "weighted", !.cl = MapI(ws, LAMBDA j, w : [n |-> "k" \o ToString(j), w |-> w])]>>, FALSE)]>>)>>)),
          <<>>, <<>>, <<>>,
          MapI(wss, LAMBDA i, ws : [Call("s" \o ToString(i), "Get", FALSE, NoMd) EXCEPT !.k = "pick"] @@ [times |-> 20000]))
WeightRows == Map(Chunks(Weightings, 8), WeightWorld)

(* ------------------------------ resolution ----------------------------- *)

Ep(a, p, w) == [a |-> a, p |-> p, w |-> w, h |-> 0]
Locs(x) == {<<>>, <<<<>>>>, <<<<Ep("10.0.0." \o x, 80, 1)>>>>, <<<<Ep("10.0.0." \o x, 80, 1), Ep("10.0.1." \o x, 81, 2)>>, <<>>, <<Ep("10.0.2." \o x, 82, 3)>>>>}
Maybe(S) == {<<>>} \cup {<<x>> : x \in S}
Clusters == SetToSeq({[svc |-> s, inline |-> i, own |-> o, other |-> t] :
                 s \in {"", "e"}, i \in Maybe(Locs("1") \ {<<>>}), o \in Maybe(Locs("2")), t \in Maybe(Locs("3"))})
ResolveWorld(cs) ==
    LET c(i) == "c" \o ToString(i)
        e(i) == "e" \o ToString(i)
        Given(f(_, _)) == Concat(MapI(cs, f))
    IN World(<<>>, <<>>,
             MapI(cs, LAMBDA i, x : [n |-> c(i), type |-> "EDS", lb |-> "ROUND_ROBIN", svc |-> IF x.svc = "" THEN "" ELSE e(i), od |-> [th |-> -1, vol |-> -1], odx |-> 0, inline |-> x.inline]),
             Given(LAMBDA i, x : IF x.own = <<>> THEN <<>> ELSE <<[n |-> c(i), locs |-> x.own[1]]>>)
             \o Given(LAMBDA i, x : IF x.other = <<>> THEN <<>> ELSE <<[n |-> e(i), locs |-> x.other[1]]>>),
             Concat(MapI(cs, LAMBDA i, x : <<[k |-> "resolve", c |-> c(i)]>>)))
ResolveRows == Map(Chunks(Clusters, 25), ResolveWorld)

(* -------------------------------- decoding ----------------------------- *)

Probes == [paths |-> <<"/pkg.Echo/Get", "/pkg.Echo/Set", "/", "/x", "Get", "Set", "Ge", "">>, metas |-> Mds]
Row(t, res) == [k |-> "decode", t |-> t, probes |-> Probes, res |-> res]

\* where the rate limit is
HfAlpha == {[k |-> "router"], [k |-> "rlnone"], [k |-> "tsother"], [k |-> "rl", max |-> 7, fill |-> 5], [k |-> "ts", max |-> 9, fill |-> 8]}
HfLists == SelectSeq(SetToSeq(UpTo(HfAlpha, 3)), LAMBDA l : Len(Buckets(l)) <= 1)
HfRows == Map(Chunks(HfLists, 20), LAMBDA ls : Row("LDS", MapI(ls, LAMBDA i, l :
              [n |-> "l" \o ToString(i), dflt |-> <<>>, chains |-> <<[port |-> 8080, m |-> 0, filters |-> <<[k |-> "http", rds |-> "r", inline |-> <<>>, hf |-> l]>>]>>])))
\* filters and chains
FAlpha == {[k |-> "other"], [k |-> "http", rds |-> "r1", inline |-> <<>>, hf |-> <<[k |-> "rl", max |-> 7, fill |-> 5]>>],
           [k |-> "thrift", routes |-> <<Troute(Conditions[1], 1), Troute(Conditions[2], 2)>>],
           [k |-> "http", rds |-> "", inline |-> <<[n |-> "in", vhs |-> Vhs(<<Route(Conditions[3], 1)>>, FALSE)]>>, hf |-> <<>>]}
Chain1 == {[port |-> p, m |-> 0, filters |-> f] : p \in {0, 80, 8080}, f \in UpTo(FAlpha, 2)}
Chain2 == {[port |-> p, m |-> 0, filters |-> <<f>>] : p \in {0, 80}, f \in FAlpha}
ChainLists == SetToSeq({<<c>> : c \in Chain1} \cup {<<c, d>> : c \in Chain2, d \in Chain2})
ChainRows == Map(Chunks(ChainLists, 20), LAMBDA ls : Row("LDS", MapI(ls, LAMBDA i, l :
                 [n |-> "l" \o ToString(i), dflt |-> IF i % 2 = 0 THEN <<>> ELSE <<[port |-> 0, m |-> 0, filters |-> <<[k |-> "http", rds |-> "d", inline |-> <<>>, hf |-> <<>>]>>]>>, chains |-> l])))
\* retry policies and timeouts
Rps == SetToSeq({[ord |-> ord, n |-> n, ptt |-> p, pti |-> i, er |-> e, methods |-> m, base |-> b, max |-> IF b < 0 THEN -1 ELSE x] :
                 ord \in {1, 4}, n \in {-1, 0, 3}, p \in {0, 1500000}, i \in {0, 2500}, e \in {0, 125}, m \in {<<>>, <<"a", "b">>}, b \in {-1, 0, 25000}, x \in {-1, 0, 250000}})
Tos == <<-1, 0, 1, 1500000, 1800000000>>
RpRows == Map(Chunks(Rps, 30), LAMBDA rs : Row("RDS", <<[n |-> "t", vhs |-> Vhs(MapI(rs, LAMBDA i, rp :
              [Route(Conditions[1 + (i % Len(Conditions))], i) EXCEPT !.rp = rp, !.to = Tos[1 + (i % Len(Tos))]]), FALSE)]>>))
\* conditions, and virtual hosts with any number of routes
CondRows == <<Row("RDS", MapI(Conditions, LAMBDA i, c : [n |-> "t" \o ToString(i), vhs |-> Vhs(<<Route(c, 1), Route(Conditions[1 + (i % Len(Conditions))], 2)>>, i % 2 = 0)]))>>
VhRows == Map(SetToSeq(UpTo({0, 1, 2}, 3)), LAMBDA ns : Row("RDS", <<[n |-> "t", vhs |-> MapI(ns, LAMBDA i, n : [n |-> "v" \o ToString(i), routes |-> [j \in 1..n |-> Route(Conditions[j + i], 10 * i + j)]])]>>))
\* clusters
Cls == SetToSeq({[type |-> t, lb |-> l, svc |-> s, od |-> [th |-> h, vol |-> v], odx |-> o, inline |-> i] :
                 t \in {"EDS", "LOGICAL_DNS", "STATIC"}, l \in {"ROUND_ROBIN", "RING_HASH"}, s \in {"", "e"}, h \in {-1, 0, 50}, v \in {-1, 0, 10}, o \in {0},
                 i \in {<<>>, <<<<<<Ep("10.0.0.1", 80, 1), Ep("10.0.0.2", 81, 7)>>, <<Ep("10.0.0.1", 80, 1)>>>>>>}})
ClsRows == Map(Chunks(Cls, 40), LAMBDA cs : Row("CDS", MapI(cs, LAMBDA i, c : c @@ [n |-> "c" \o ToString(i)])))
\* load assignments
EpA == {Ep("10.0.0.1", 80, 1), Ep("10.0.0.2", 81, 7), Ep("10.0.0.3", 9, 0)}
Clas == SetToSeq(UpTo(UpTo(EpA, 2), 2) \cup UpTo(UpTo({Ep("10.0.0.1", 80, 1), Ep("10.0.0.2", 81, 7)}, 2), 3))
ClaRows == Map(Chunks(Clas, 50), LAMBDA ls : Row("EDS", MapI(ls, LAMBDA i, l : [n |-> "c" \o ToString(i), locs |-> l])))
\* name tables
Hosts == <<"a", "B.ns", "c.ns.svc.cluster.local">>
NdsRows == Map(SetToSeq([1..3 -> {<<>>, <<"10.0.0.1">>, <<"10.0.0.2", "10.0.0.1">>}] \X {0, 1, 2, 3}), LAMBDA x :
               LET all == [i \in 1..3 |-> [host |-> Hosts[i], ips |-> x[1][i]]]
               IN Row("NDS", <<[tab |-> SubSeq(all, 1, x[2])], [tab |-> SubSeq(all, x[2] + 1, 3)]>>))

(* --------------------------------- bytes ------------------------------- *)

Rich(t) ==
    CASE t = "LDS" -> <<[n |-> "l1", dflt |-> <<[port |-> 0, m |-> 0, filters |-> <<[k |-> "thrift", routes |-> <<Troute(Conditions[1], 1), [Troute(Conditions[5], 2) EXCEPT !.act = "weighted", !.cl = <<[n |-> "a", w |-> 1], [n |-> "b", w |-> 2]>>]>>]>>]>>,
                         chains |-> <<[port |-> 8080, m |-> 0, filters |-> <<[k |-> "http", rds |-> "r", inline |-> <<>>, hf |-> <<[k |-> "rl", max |-> 7, fill |-> 5], [k |-> "router"]>>]>>],
                                      [port |-> 0, m |-> 0, filters |-> <<[k |-> "http", rds |-> "", hf |-> <<[k |-> "ts", max |-> 7, fill |-> 5]>>,
                                        inline |-> <<[n |-> "in", vhs |-> Vhs(<<Route(Conditions[3], 1)>>, FALSE)]>>]>>]>>]>>
      [] t = "RDS" -> <<[n |-> "t", vhs |-> Vhs(<<[Route([path |-> [k |-> "path", v |-> "/a/b"], hdrs |-> <<H("env", "exact", "red"), H("user", "regex", "^v[0-9]+$")>>], 1)
                           EXCEPT !.rp = [n |-> 3, ptt |-> 1500, pti |-> 1, er |-> 100, methods |-> <<"m">>, base |-> 1000, max |-> 2000], !.act = "weighted",
                                  !.cl = <<[n |-> "a", w |-> 1], [n |-> "b", w |-> 2]>>], Route([path |-> [k |-> "prefix", v |-> "/"], hdrs |-> <<>>], 2)>>, TRUE)]>>
      [] t = "CDS" -> <<[n |-> "c", type |-> "EDS", lb |-> "RING_HASH", svc |-> "e", od |-> [th |-> 10, vol |-> 20], odx |-> 1, inline |-> <<<<<<Ep("10.0.0.1", 80, 1), Ep("::1", 81, 2)>>>>>>]>>
      [] t = "EDS" -> <<[n |-> "c", locs |-> <<<<Ep("10.0.0.1", 80, 1), Ep("10.0.0.2", 81, 2)>>, <<Ep("host", 82, 3)>>>>]>>
      [] t = "NDS" -> <<[tab |-> <<[host |-> "a", ips |-> <<"10.0.0.1", "10.0.0.2">>], [host |-> "b", ips |-> <<>>]>>]>>
Muts == {[op |-> o, at |-> a, v |-> 0] : o \in {"del", "dup", "empty", "zero"}, a \in {4 * i : i \in 0..249}}
        \cup {[op |-> "trunc", at |-> a, v |-> 0] : a \in {4 * i : i \in 0..249}}
        \cup {[op |-> "wire", at |-> a, v |-> v] : a \in {7 * i : i \in 0..142}, v \in {0, 1, 2, 4}}
        \cup {[op |-> "flip", at |-> a, v |-> v] : a \in {7 * i : i \in 0..142}, v \in {0, 1, 2, 3, 7}}
        \cup {[op |-> "len", at |-> a, v |-> 128] : a \in {7 * i : i \in 0..142}}
BytesRows == Concat(Map(<<"LDS", "RDS", "CDS", "EDS", "NDS">>, LAMBDA t :
                 Map(SetToSeq(Muts), LAMBDA m : [k |-> "bytes", t |-> t, res |-> Rich(t), muts |-> <<m>>, which |-> 0, url |-> t])))

(* ---------------------------------- boot ------------------------------- *)

S_(k, v) == [k |-> k, t |-> "s", v |-> v]
Env(ns, pod, ip, dom, raw, metas) == [ns |-> ns, pod |-> pod, ip |-> ip, dom |-> dom, ver |-> "1.16", raw |-> raw, metas |-> metas]
IpsMetas == {<<>>} \cup {<<S_("INSTANCE_IPS", v)>> : v \in {"", "10.1.2.3", "10.1.2.30", "110.1.2.3", "10.9.9.9", "10.1.2.3,10.9.9.9", "10.9.9.9,10.1.2.3", "10.1.2.34,10.9.9.9"}}
NsMetas == {<<>>, <<S_("NAMESPACE", "other")>>, <<S_("NAMESPACE", "")>>}
VerMetas == {<<>>, <<S_("ISTIO_VERSION", "1.13.5")>>}
Envs == {Env(n, p, i, "", r, <<>>) : n \in {"", "default"}, p \in {"", "pod"}, i \in {"", "10.1.2.3"}, r \in {"none", "json", "bad"}}
        \cup {Env("default", "pod", "10.1.2.3", d, "json", a \o b \o c) : d \in {"", "corp.example"}, a \in IpsMetas, b \in NsMetas, c \in VerMetas}
BootTab == <<<<[host |-> "svca.default.svc.cluster.local", ips |-> <<"10.0.0.1">>], [host |-> "svca.other.svc.cluster.local", ips |-> <<"10.0.0.2">>],
               [host |-> "svca.default.svc.corp.example", ips |-> <<"10.0.0.3">>], [host |-> "svca.other.svc.corp.example", ips |-> <<"10.0.0.4">>]>>>>
BootRows == Map(SetToSeq(Envs), LAMBDA e : [k |-> "boot", env |-> e, phases |-> <<[tabs |-> BootTab, lis |-> <<"10.0.0.1_80", "10.0.0.2_80", "10.0.0.3_80", "10.0.0.4_80">>]>>, lookups |-> <<"svca">>])

\* all name tables with some of these hosts
BHosts == <<"svca.default.svc.cluster.local", "svca.other.svc.cluster.local", "svca", "www.ext.com">>
BIps == {<<"no">>, <<>>, <<"10.0.0.1">>, <<"10.0.0.2", "10.0.0.1">>}
BindTabs == SetToSeq([1..4 -> BIps])
TabOf(f) == SelectSeq([i \in 1..4 |-> [host |-> BHosts[i], ips |-> f[i]]], LAMBDA x : x.ips # <<"no">>)
BindRows == Map(Chunks(BindTabs, 4), LAMBDA fs : [k |-> "boot", env |-> Env("default", "pod", "10.1.2.3", "", "none", <<>>),
                phases |-> Map(fs, LAMBDA f : [tabs |-> <<TabOf(f)>>, lis |-> <<"10.0.0.1_80", "10.0.0.2_80", "10.0.0.1_8080">>]),
                lookups |-> <<"svca", "SVCA:80", "svca:8080", "svca.default", "svca.default.svc", "svca.default.svc.cluster.local", "svca.other", "svca.other.svc:8080", "a.b.mysvc", "a.svc", "a.b.svc.c", "www.ext.com", "WWW.ext.com:8080">>])

(* ---------------------------------- init ------------------------------- *)

Bad_(i) == CASE i = 1 -> Env("", "pod", "10.1.2.3", "", "none", <<>>) [] i = 2 -> Env("default", "", "10.1.2.3", "", "none", <<>>) [] i = 3 -> Env("default", "pod", "", "", "none", <<>>)
GoodE == Env("default", "pod", "10.1.2.3", "", "none", <<>>)
GoodF == Env("prod", "pod-2", "10.1.2.4", "corp.example", "none", <<>>)
Do_(mode, e) == [mode |-> mode, env |-> e]
I(e) == Do_("init", e)
InitRows == Map(<< <<I(GoodE), I(GoodF)>>, <<I(Bad_(1)), I(GoodE), I(GoodF)>>, <<I(Bad_(2)), I(Bad_(3)), I(GoodF), I(GoodE)>>, <<I(GoodF), I(Bad_(2)), I(GoodE)>>,
                   <<I(Bad_(3))>>, <<I(Bad_(1)), I(Bad_(2)), I(Bad_(3))>>, <<I(GoodE), I(GoodE), I(GoodF)>>, <<I(Bad_(2)), I(GoodF), I(Bad_(1)), I(GoodE)>>,
                   \* a manager set by the user, initialisations at the same time
                   <<I(GoodE), Do_("set", GoodF)>>, <<Do_("set", GoodE), I(GoodF), Do_("set", GoodF)>>, <<Do_("set", Bad_(1)), Do_("set", GoodE), Do_("race", GoodF)>>,
                   <<Do_("race", GoodE), I(GoodF), Do_("set", GoodF)>>, <<Do_("race", Bad_(3)), Do_("race", GoodE)>> >>, LAMBDA es : [k |-> "init", steps |-> es])

(* ------------------------------------------------------------------------ *)

Rows(x_) ==
    CASE Alpha = "route"   -> RouteRows
      [] Alpha = "prec"    -> PrecRows
      [] Alpha = "weight"  -> WeightRows
      [] Alpha = "resolve" -> ResolveRows
      [] Alpha = "decode"  -> HfRows \o ChainRows \o RpRows \o CondRows \o VhRows
      [] Alpha = "decode2" -> ClsRows \o ClaRows \o NdsRows
      [] Alpha = "bytes"   -> BytesRows
      [] Alpha = "boot"    -> BootRows
      [] Alpha = "bind"    -> BindRows
      [] Alpha = "init"    -> InitRows

VARIABLE i
Init == i = 0
Next == /\ i = 0
        /\ i' = 1
        /\ LET rows == TLCEval(Rows(i)) IN \A k \in 1..Len(rows) : PrintT(<<"GEN", ToJson(rows[k])>>)
=============================================================================
