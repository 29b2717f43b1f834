---------------------------- MODULE ConfigJudge ----------------------------
(***************************************************************************)
(* Decides whether what the code did with the rows of ConfigGen is what     *)
(* the configurations of Config mean.  Reads [b, row, obs] of the file      *)
(* ROWS, prints [b, viol, n] of each.                                       *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils
C == INSTANCE XdsCore

Rows == ndJsonDeserialize(IOEnv.ROWS)

Range(f) == {f[x] : x \in DOMAIN f}
If(c, S) == IF c THEN S ELSE {}
Bad(c, ps, why, at) == IF c THEN {} ELSE {[p |-> p, why |-> why, at |-> at] : p \in ps}
Obs(r, e) == SelectSeq(r.obs, LAMBDA o : o.e = e)

(* ------------------------------- decoding ------------------------------ *)

Expected(row) ==
    CASE row.t = "LDS" -> {DecListener(row.res[i], row.probes) : i \in DOMAIN row.res}
      [] row.t = "RDS" -> {[n |-> row.res[i].n, vhs |-> DecTable(row.res[i], row.probes)] : i \in DOMAIN row.res}
      [] row.t = "CDS" -> {DecCluster(row.res[i]) : i \in DOMAIN row.res}
      [] row.t = "EDS" -> {DecCla(row.res[i]) : i \in DOMAIN row.res}
      [] row.t = "NDS" -> UNION {Range(row.res[i].tab) : i \in DOMAIN row.res}

(* An endpoint without a weight, or one of 0, has the weight that is used by default (all of these have port 9). *)
NormalEp(e) == IF HasSuffix(e.addr, ":9") /\ e.w \in {0, 1, 10} THEN [e EXCEPT !.w = 0] ELSE e
NormalLocs(ls) == SeqMap(LAMBDA l : SeqMap(NormalEp, l), ls)
Normal(t, x) == CASE Has(x, "bad") -> x
                  [] t = "EDS" -> [x EXCEPT !.locs = NormalLocs(@)]
                  [] t = "CDS" -> [x EXCEPT !.inline = SeqMap(NormalLocs, @)]
                  [] OTHER -> x

DecodeProps(t) == IF t \in {"LDS", "RDS"} THEN "C11" ELSE "C12"
JudgeDecode(r) ==
    LET row == r.row
        o == Obs(r, "dec")[1]
        none == row.t = "NDS" /\ row.res = <<>>
        want == TLCEval(Expected(row))
        got == TLCEval({Normal(row.t, x) : x \in Range(o.res)})
        miss == {x \in want : x \notin got}
    IN IF o.panic THEN Bad(FALSE, {"C13", DecodeProps(row.t)}, "decoding panics", 0)
       ELSE Bad(o.err = none, {"C13", DecodeProps(row.t)}, "a well-formed response is reported as an error, or an empty one is not", 0)
            \cup (IF none THEN {} ELSE
                  Bad(miss = {} /\ Len(o.res) = Cardinality(want), {DecodeProps(row.t)},
                      "decoding changes the meaning of " \o row.t \o (IF miss = {} THEN ": superfluous" ELSE ": expected " \o ToJson(CHOOSE x \in miss : TRUE)), 0))

JudgeBytes(r) ==
    LET o == Obs(r, "dec")[1]
        f == o.facts
        none == r.row.t = "NDS" /\ f.n = 0
        must == ~f.url \/ ~f.parse \/ ~f.nested \/ f.missing \/ none
        mustnot == ~must /\ f.soft /\ ~f.odd
    IN Bad(~o.panic, {"C13"}, "decoding panics", 0)
       \cup Bad(must /\ ~o.panic => o.err, {"C13"}, "a payload that cannot be decoded is not reported as an error: " \o ToJson(f), 0)
       \cup Bad(mustnot /\ ~o.panic => ~o.err, {"C13"}, "a well-formed payload is reported as an error: " \o ToJson(f), 0)

(* --------------------------------- worlds ------------------------------ *)

(* What the client has: the subscribed names and what was accepted for them. *)
Types == {"LDS", "RDS", "CDS", "EDS"}
Configured(ph, t) == CASE t = "LDS" -> ph.lis [] t = "RDS" -> ph.tabs [] t = "CDS" -> ph.cls [] t = "EDS" -> ph.clas
Sound(ph, t) == t \notin Range(ph.mute) /\ t \notin Range(ph.bad)
Wire(row, tab, t, n) == IF t = "LDS" /\ row.cfg.nds THEN C!BoundTo(tab, n, "default", "cluster.local") ELSE n

Deliver(row, tab, w, ph, t) ==
    IF ~Sound(ph, t) \/ w.sub[t] = {} THEN w
    ELSE LET conf == Configured(ph, t)
             at(n) == {i \in DOMAIN conf : conf[i].n = Wire(row, tab, t, n)}
             hit == {n \in w.sub[t] : at(n) # {}}
             new == TLCEval([n \in hit |-> conf[CHOOSE i \in at(n) : TRUE]])
         IN [w EXCEPT !.cache[t] = IF t \in {"LDS", "CDS"} THEN new ELSE new @@ @]
Lookup(row, tab, w, ph, t, n) ==
    IF n \in DOMAIN w.cache[t] \/ n \in w.sub[t] THEN w
    ELSE Deliver(row, tab, [w EXCEPT !.sub[t] = @ \cup {n}], ph, t)
Got(w, t, n) == IF n \in DOMAIN w.cache[t] THEN <<w.cache[t][n]>> ELSE <<>>

Empty == [t \in Types |-> [n \in {} |-> 0]]
W0 == [sub |-> [t \in Types |-> {}], cache |-> Empty]

(* The metadata of a call: metainfo, the default, has no empty values. *)
MdOf(row, a) == IF row.cfg.ext = "meta" THEN [k \in {x \in DOMAIN a.md : a.md[x] # ""} |-> a.md[k]] ELSE a.md

(* The route of a call, and what the client has after it was looked for. *)
Routed(row, tab, w, ph, a0) ==
    LET a == [a0 EXCEPT !.md = MdOf(row, a0)]
        w1 == Lookup(row, tab, w, ph, "LDS", a.svc)
        l == Got(w1, "LDS", a.svc)
    IN IF l = <<>> THEN [w |-> w1, rt |-> <<>>, of |-> ""]
       ELSE LET own == OwnRoute(l[1], a)
                h == OfKind(l[1], "http")
                rc == NamedOf(l[1])
            IN IF own # <<>> \/ h = <<>> THEN [w |-> w1, rt |-> own, of |-> ""]
               ELSE LET w2 == Lookup(row, tab, w1, ph, "RDS", rc)
                        t == Got(w2, "RDS", rc)
                    IN [w |-> w2, rt |-> IF t = <<>> THEN <<>> ELSE MatchTable(t[1], a), of |-> rc]

(* A call: what the routing step must have done. *)
JudgeCall(a, o, rt, safe) ==
    IF o.panic THEN Bad(FALSE, {"C15"} \cup If(~safe /\ a.tag = "", {"C08"} \cup If(rt # <<>>, {"C09"})), "routing panics", 0)
    ELSE IF a.tag # "" THEN
        Bad(o.next = 1 /\ o.tag = a.tag /\ o.to = -1 /\ ~o.locked /\ o.err = (IF a.nextfail THEN "other" ELSE ""), {"C15"}, "the routing step changes a call that is already routed", 0)
    ELSE IF safe THEN
        Bad((o.next = 0 /\ o.err = "route") \/ (o.next = 1 /\ o.locked /\ o.at = o.tag /\ o.err = (IF a.nextfail THEN "other" ELSE "")),
            {"C15"}, "the call is neither routed nor refused", 0)
    ELSE IF (IF rt = <<>> THEN TRUE ELSE Picks(rt[1]) = {}) THEN
        Bad(o.err = "route" /\ o.next = 0, {"C08", "C15"} \cup If(rt # <<>>, {"C09"}),
            IF rt = <<>> THEN "a call without a matching route does not fail with a routing error, or is passed on" ELSE "a route without clusters does not fail the call", 0)
    ELSE IF o.err = "route" THEN Bad(FALSE, {"C08", "C15"}, "a call that has a route fails with a routing error", 0)
    ELSE LET all == {c.n : c \in Range(DecCl(rt[1]))} IN
         Bad(o.tag \in all, {"C08"}, "not the first matching route: picked " \o o.tag \o " of " \o ToString(all), 0)
         \cup Bad(o.tag \in all => o.tag \in Picks(rt[1]), {"C09"}, "a cluster without weight is picked", 0)
         \cup Bad(o.next = 1, {"C15"}, "the call is not passed on exactly once", 0)
         \cup Bad(o.locked /\ o.at = o.tag /\ o.tag # "", {"C15"}, "the destination is not recorded and locked before the call is passed on", 0)
         \cup Bad(o.tag \in all => o.to = DecTo(rt[1] @@ [act |-> "single"]), {"C15"}, "the call's timeout is not the route's", 0)
         \cup Bad(o.err = (IF a.nextfail THEN "other" ELSE ""), {"C15"}, "the result of the call is not returned", 0)

(* Frequencies: the square root rounded up, and six standard deviations. *)
RECURSIVE RootFrom(_, _)
RootFrom(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE RootFrom(n, y)
Root(n) == IF n <= 1 THEN n ELSE RootFrom(n, n) + 1
Abs(x) == IF x < 0 THEN -x ELSE x

JudgePick(a, o, rt) ==
    IF o.panic THEN Bad(FALSE, {"C09", "C15"}, "routing panics", 0)
    ELSE IF rt = <<>> THEN {}
    ELSE IF Picks(rt[1]) = {} THEN Bad(o.counts = <<>>, {"C09"}, "a route without clusters, or without weight, is used", 0)
    ELSE LET N == a.times
             T == Total(rt[1])
             cnt(n) == Sum(SeqMap(LAMBDA c : IF c.n = n THEN c.k ELSE 0, o.counts))
             off == {n \in Picks(rt[1]) : LET w == WeightOf(rt[1], n) IN
                       IF w = T THEN cnt(n) # N ELSE Abs(cnt(n) * T - N * w) > 6 * Root(N * w * (T - w)) + T}
         IN Bad(o.errs = 0, {"C09"}, "picking a cluster fails", 0)
            \cup Bad({c.n : c \in Range(o.counts)} \subseteq Picks(rt[1]), {"C09"}, "a cluster without weight is picked", 0)
            \cup Bad(o.errs = 0 => off = {}, {"C09"}, "clusters are not picked in proportion to their weights: " \o ToJson([cl |-> DecCl(rt[1]), counts |-> o.counts]), 0)

(* The resolution of a cluster: what the client has, and the endpoints. *)
Resolved(row, tab, w, ph, a) ==
    LET w1 == Lookup(row, tab, w, ph, "CDS", a.c)
        c == Got(w1, "CDS", a.c)
    IN IF c = <<>> THEN [w |-> w1, eps |-> <<>>, of |-> ""]
       ELSE IF c[1].inline # <<>> THEN [w |-> w1, eps |-> Flat(c[1].inline[1]), of |-> ""]
       ELSE LET ep == EpName(c[1])
                w2 == Lookup(row, tab, w1, ph, "EDS", ep)
                e == Got(w2, "EDS", ep)
            IN [w |-> w2, eps |-> IF e = <<>> THEN <<>> ELSE Flat(e[1].locs), of |-> ep]
JudgeResolve(a, o, eps, safe) ==
    IF o.panic THEN Bad(FALSE, {"C15", "C10"}, "resolving panics", 0)
    ELSE IF safe THEN Bad(o.err \/ o.eps # <<>>, {"C10"}, "an empty success", 0)
    ELSE IF eps = <<>> THEN Bad(o.err /\ o.eps = <<>>, {"C10"}, "resolving a cluster without endpoints does not fail", 0)
    ELSE Bad(~o.err, {"C10"}, "resolving a cluster with endpoints fails", 0)
         \cup Bad(o.tgt = a.c, {"C10"}, "the target is not the routed cluster", 0)
         \cup Bad(o.err \/ SeqMap(NormalEp, o.eps) = eps, {"C10"}, "not the endpoints of the cluster: expected " \o ToJson(eps) \o " got " \o ToJson(o.eps), 0)
         \cup Bad(o.err \/ (o.cacheable /\ o.key = a.c), {"C10"}, "the result is not cacheable under the cluster's name", 0)

\* A run through the acts of a row, a few at a time: p and i are the phase and act next, base the number of acts
\* of the phases before, w what the client has.
Start == [p |-> 1, i |-> 1, base |-> 0, w |-> W0, viol |-> {}, n |-> 0]

\* mutated resources mean anything, and what was merged of them stays until it is sent again
Safe(row, ph, p, a, of) ==
    \/ Has(ph, "muts")
    \/ /\ \E q \in 1..(p - 1) : Has(row.phases[q], "muts")
       /\ of # ""
       /\ of \notin {x.n : x \in Range(Configured(ph, IF a.k = "resolve" THEN "EDS" ELSE "RDS"))}

DoAct(row, tab, x, obs) ==
    LET ph == row.phases[x.p]
        a == ph.acts[x.i]
        o == obs[x.base + x.i]
        call == TLCEval(IF a.k = "resolve" THEN Resolved(row, tab, x.w, ph, a) ELSE Routed(row, tab, x.w, ph, a))
        safe == Safe(row, ph, x.p, a, call.of)
        vs == IF x.base + x.i > Len(obs) THEN {}
              ELSE IF Assert(o.p = x.p /\ o.i = x.i, "the acts are not in order") # TRUE THEN {}
              ELSE IF Has(o, "hang") THEN Bad(FALSE, {"C05", "C15"}, "the call hangs", 0)
              ELSE IF a.k = "call" THEN JudgeCall(a, o, call.rt, safe)
              ELSE IF a.k = "pick" THEN JudgePick(a, o, call.rt)
              ELSE JudgeResolve(a, o, call.eps, safe)
        \* a call that is already routed looks nothing up
        w1 == IF a.k = "call" /\ (IF a.k = "call" THEN a.tag # "" ELSE FALSE) THEN x.w ELSE call.w
        hit == IF a.k = "resolve" THEN call.eps # <<>> ELSE call.rt # <<>>
    IN [x EXCEPT !.i = @ + 1, !.w = w1, !.viol = @ \cup {[v EXCEPT !.at = 1000 * x.p + x.i] : v \in vs}, !.n = @ + IF hit THEN 1 ELSE 0]

RECURSIVE DoActs(_, _, _, _, _)
DoActs(row, tab, x, obs, m) ==
    IF m = 0 \/ x.i > Len(row.phases[x.p].acts) THEN x ELSE DoActs(row, tab, TLCEval(DoAct(row, tab, x, obs)), obs, m - 1)

Tab(row) == C!NameTable(<<[tab |-> row.hosts]>>)
NextPhase(row, tab, x) ==
    LET p == x.p + 1
        ph == row.phases[p]
        D(w, t) == Deliver(row, tab, w, ph, t)
    IN [x EXCEPT !.p = p, !.i = 1, !.base = @ + Len(row.phases[x.p].acts), !.w = D(D(D(D(x.w, "LDS"), "RDS"), "CDS"), "EDS")]

Failed(r) == Obs(r, "fail") # <<>>
Finished(r, x) == Failed(r) \/ (x.p = Len(r.row.phases) /\ x.i > Len(r.row.phases[x.p].acts))
Advance(r, x) ==
    IF x.i > Len(r.row.phases[x.p].acts) THEN NextPhase(r.row, Tab(r.row), x)
    ELSE DoActs(r.row, TLCEval(Tab(r.row)), x, TLCEval(Obs(r, "act")), 20)

JudgeWorld(r, x) ==
    IF Failed(r) THEN [viol |-> Bad(FALSE, {"C20", "C05"}, "the client does not start", 0), n |-> 0]
    ELSE [viol |-> x.viol \cup Bad(Obs(r, "hang") = <<>> /\ Obs(r, "crash") = <<>>, {"C07", "C13", "C15"}, "the process hangs or crashes", 0), n |-> x.n]

(* ---------------------------------- boot ------------------------------- *)

Complete(env) == env.ns # "" /\ env.pod # "" /\ env.ip # ""
Dom(env) == IF env.dom = "" THEN "cluster.local" ELSE env.dom
NodeId(env) == "sidecar~" \o env.ip \o "~" \o env.pod \o "." \o env.ns \o "~" \o env.ns \o ".svc." \o Dom(env)
Metas(env) == IF env.raw = "json" THEN env.metas ELSE <<>>
Override(env) == SelectSeq(Metas(env), LAMBDA m : m.k = "NAMESPACE" /\ m.t = "s" /\ m.v # "")
Ns(env) == IF Override(env) = <<>> THEN env.ns ELSE Override(env)[1].v

RECURSIVE Trim(_)
Trim(s) == IF HasPrefix(s, " ") THEN Trim(SubSeq(s, 2, Len(s))) ELSE IF HasSuffix(s, " ") THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Elements(s) == {Trim(Split(s, ",")[i]) : i \in DOMAIN Split(s, ",")} \ {""}

JudgeNode(env, o) ==
    LET md == Range(o.md)
        ips == SelectSeq(Metas(env), LAMBDA m : m.k = "INSTANCE_IPS")
        got == SelectSeq(o.md, LAMBDA m : m.k = "INSTANCE_IPS")
    IN Bad(o.id = NodeId(env), {"C20"}, "node id " \o o.id \o ", expected " \o NodeId(env), 0)
       \cup Bad(\A m \in Range(Metas(env)) : m.k = "INSTANCE_IPS" \/ m \in md, {"C20"}, "the metadata the user supplied is not sent", 0)
       \cup Bad(\A m \in md : m.k \in {"INSTANCE_IPS", "ISTIO_VERSION"} \/ m \in Range(Metas(env)), {"C20"}, "metadata nobody supplied is sent", 0)
       \cup Bad(ips # <<>> => /\ Len(got) = 1
                              /\ (IF Len(got) = 1 THEN got[1].t = "s" /\ Elements(got[1].v) = Elements(ips[1].v) \cup {env.ip} ELSE FALSE),
                {"C20"}, "the pod IP is not an element of INSTANCE_IPS, or others were lost", 0)
       \cup Bad(env.raw # "json" => [k |-> "ISTIO_VERSION", t |-> "s", v |-> env.ver] \in md, {"C20"}, "ISTIO_VERSION is not defaulted", 0)

JudgeBound(row, p, o) ==
    LET env == row.env
        ph == row.phases[p]
        tab == C!NameTable(SeqMap(LAMBDA t : [tab |-> t], ph.tabs))
        want(n) == LET w == C!BoundTo(tab, n, Ns(env), Dom(env)) IN IF w \in Range(ph.lis) THEN w \o "@" \o ToString(p) ELSE ""
        off == {x \in Range(o.l) : x.v # want(x.n)}
    IN Bad(off = {}, {"C14"} \cup If(Override(env) # <<>>, {"C20"}),
           "bound to the wrong listener: " \o (IF off = {} THEN "" ELSE LET x == CHOOSE y \in off : TRUE IN ToJson(x) \o ", expected " \o want(x.n)), p)

JudgeBoot(r) ==
    LET env == r.row.env
        bs == Obs(r, "boot")
        b == bs[1]
        nodes == Obs(r, "nodes")
        bound == Obs(r, "bound")
    IN IF bs = <<>> THEN [viol |-> Bad(FALSE, {"C20"}, "the client does not start", 0), n |-> 0]
       ELSE [n |-> IF b.err THEN 0 ELSE 1, viol |->
            Bad(b.err = ~Complete(env), {"C20"}, IF b.err THEN "initialisation fails although the pod is known" ELSE "initialisation succeeds although the pod is not known", 0)
            \cup Bad(b.err /\ ~Complete(env) => ~b.half /\ b.streams = 0, {"C20"}, "a half-configured client is left behind", 0)
            \cup UNION {JudgeBound(r.row, bound[i].p, bound[i]) : i \in DOMAIN bound}
            \cup (IF nodes = <<>> THEN {} ELSE
                  UNION {JudgeNode(env, nodes[1].l[i]) : i \in DOMAIN nodes[1].l}
                  \cup Bad(Len(nodes[1].l) = 1, {"C20"}, "the requests do not agree on the node", 0))]

JudgeInit(r) ==
    LET st == r.row.steps
        o(i) == LET s == SelectSeq(r.obs, LAMBDA x : x.e = "init" /\ (IF x.e = "init" THEN x.i = i ELSE FALSE)) IN s[1]
        first(i) == {j \in 1..i : Complete(st[j].env)}
        owner(i) == CHOOSE j \in first(i) : \A k \in first(i) : j <= k
    IN IF Len(Obs(r, "init")) # Len(st) THEN Bad(FALSE, {"C20"}, "initialisation does not end", 0)
       ELSE UNION {Bad(IF first(i) = {} THEN o(i).err /\ ~o(i).inited
                       ELSE (~o(i).err \/ i > owner(i)) /\ o(i).inited /\ HasPrefix(o(i).cp, "cp" \o ToString(owner(i)) \o "-")
                            /\ o(i).cp = o(i).cp0 /\ (i > owner(i) => o(i).cp = o(i - 1).cp),
                       {"C20"}, "initialising again does not keep the first manager, or fails to fail: " \o ToJson(o(i)), i) : i \in DOMAIN st}

(* ------------------------------------------------------------------------ *)

Judge(r, x) ==
    LET died == Obs(r, "crash") # <<>> \/ Obs(r, "hang") # <<>>
        Plain(v) == [viol |-> v, n |-> 1]
    IN CASE r.row.k \in {"decode", "bytes"} -> IF Obs(r, "dec") = <<>> THEN Plain(Bad(FALSE, {"C13"}, "decoding crashes or hangs", 0))
                                               ELSE IF r.row.k = "decode" THEN Plain(JudgeDecode(r)) ELSE Plain(JudgeBytes(r))
         [] r.row.k = "world" -> JudgeWorld(r, x)
         [] r.row.k = "boot" -> LET b == JudgeBoot(r) IN [b EXCEPT !.viol = @ \cup Bad(~died, {"C20", "C14"}, "the process hangs or crashes", 0)]
         [] r.row.k = "init" -> Plain(JudgeInit(r))

VARIABLES k, done, st
Init == k \in 1..Len(Rows) /\ done = FALSE /\ st = Start
Next == LET r == Rows[k] IN
        /\ ~done
        /\ k' = k
        /\ IF r.row.k = "world" /\ (IF r.row.k = "world" THEN ~Finished(r, st) ELSE FALSE)
           THEN done' = FALSE /\ st' = Advance(r, st)
           ELSE /\ done' = TRUE
                /\ st' = st
                /\ LET j == TLCEval(Judge(r, st)) IN PrintT(<<"RESULT", ToJson([b |-> r.b, viol |-> j.viol, n |-> j.n])>>)
=============================================================================
