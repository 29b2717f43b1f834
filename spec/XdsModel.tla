------------------------------ MODULE XdsModel ------------------------------
(***************************************************************************)
(* The client of XdsCore together with its environment: a control plane     *)
(* that sends anything, streams that fail, callers that look things up,     *)
(* time that passes.  One step is one action of the environment followed by *)
(* everything the client does in consequence (XdsConc is about what happens *)
(* between two such steps).                                                 *)
(*                                                                          *)
(* TLC checks the invariants below, which state the listed properties       *)
(* independently of the operators of XdsCore, on all histories over a small *)
(* alphabet.  The same state machine generates the histories that are       *)
(* replayed into the real client (XdsGen).                                  *)
(*                                                                          *)
(* The state s is a record:                                                 *)
(*   cfg, core (see XdsCore); live, deaf, down, fails: the stream           *)
(*   now, ready (-1: warming up), nsweep, ins, used: time, in milliseconds  *)
(*   wire  : type -> the last request on the live stream                    *)
(*   non   : type -> nonce of the last response on the live stream          *)
(*   reqs  : the requests sent in the last step                             *)
(*   out   : lookups under way; rets: how the others ended                  *)
(*   log   : what happened that matters for the cache                       *)
(*   nid, ncid, nresp: counters                                             *)
(***************************************************************************)
EXTENDS XdsCore

PeriodMs == Period \div 1000
NoReq == [names |-> {}, ver |-> "-", nonce |-> "-", err |-> FALSE]

S0(cfg) ==
    LET c == IF cfg.nds THEN Subscribe(Core0, "NDS", "")
             ELSE IF cfg.lds THEN Subscribe(Core0, "LDS", Reserved) ELSE Core0
    IN [cfg |-> cfg, core |-> c, live |-> TRUE, deaf |-> FALSE, down |-> FALSE, fails |-> 0,
        now |-> 0, ready |-> IF cfg.nds \/ cfg.lds THEN -1 ELSE 0, nsweep |-> 0,
        ins |-> [t \in Data |-> Empty], used |-> [t \in Data |-> Empty],
        wire |-> [t \in Types |-> IF t \in c.known THEN [names |-> c.sub[t], ver |-> "", nonce |-> "", err |-> FALSE] ELSE NoReq],
        non |-> [t \in Types |-> ""], reqs |-> <<>>, out |-> Empty, rets |-> Empty,
        log |-> IF ~cfg.nds /\ cfg.lds THEN <<[k |-> "sub", t |-> "LDS", n |-> Reserved]>> ELSE <<>>, hs |-> {}, suites |-> {}, nid |-> 0, ncid |-> 0, nresp |-> 0]

(* A request, which is lost if there is no stream, or one that delivers responses but whose sends fail (deaf). *)
Send(s, t, err) ==
    LET r == [names |-> s.core.sub[t], ver |-> s.core.ver[t], nonce |-> s.non[t], err |-> err] IN
    IF s.live /\ ~s.deaf THEN [s EXCEPT !.wire[t] = r, !.reqs = Append(@, [t |-> t, r |-> r])] ELSE s

(* ------------------------------- lookups ------------------------------- *)

Return(s, id, k, c) ==
    [s EXCEPT !.rets = Put(@, id, [k |-> k, c |-> c, at |-> s.now, t |-> s.out[id].t, n |-> s.out[id].n]), !.out = Del(@, {id})]

Touch(s, t, n) == [s EXCEPT !.used[t] = Put(@, n, s.now)]

(* The lookups a response satisfies return its resources. *)
RECURSIVE Wake(_, _)
Wake(s, ids) ==
    IF ids = {} THEN s
    ELSE LET id == CHOOSE i \in ids : TRUE
             o == s.out[id]
         IN IF (IF o.t \in Data THEN o.n \in DOMAIN s.core.cache[o.t] ELSE FALSE)
            THEN Wake(Touch(Return(s, id, "val", s.core.cache[o.t][o.n].c), o.t, o.n), ids \ {id})
            ELSE Wake(s, ids \ {id})

MLookup(s, st) ==
    LET id == st.id
        dl == IF st.ctx < 0 THEN s.now ELSE IF st.ctx > 0 THEN s.now + Min(s.cfg.timeout, st.ctx) ELSE s.now + s.cfg.timeout
        s0 == [s EXCEPT !.nid = Max(@, id), !.out = Put(@, id, [t |-> st.t, n |-> st.n, dl |-> dl])]
    IN IF s.ready < 0 THEN [s EXCEPT !.nid = Max(@, id)]
       ELSE IF st.t \notin Types THEN Return(s0, id, "err", -1)
       ELSE IF (IF st.t \in Data THEN st.n \in DOMAIN s.core.cache[st.t] ELSE FALSE)
       THEN Touch(Return(s0, id, "val", s.core.cache[st.t][st.n].c), st.t, st.n)
       ELSE LET waiting == \E i \in DOMAIN s.out : s.out[i].t = st.t /\ s.out[i].n = st.n
                s1 == IF waiting THEN s0
                      ELSE Send([s0 EXCEPT !.core = Subscribe(@, st.t, st.n), !.log = Append(@, [k |-> "sub", t |-> st.t, n |-> st.n])], st.t, FALSE)
            IN IF st.ctx < 0 THEN Return(s1, id, "err", -1) ELSE s1

MCancel(s, st) == IF st.id \in DOMAIN s.out THEN Return(s, st.id, "err", -1) ELSE s

(* ------------------------------- responses ----------------------------- *)

MResp(s, st) ==
    LET t == st.t
        s0 == [s EXCEPT !.nresp = @ + 1,
                        !.ncid = LET cs == {st.res[i].c : i \in 1..Len(st.res)} \cup {@}
                                           low == {c \in cs : c < 90000}
                                       IN CHOOSE c \in low : \A d \in low : d <= c]
    IN IF ~s.live \/ t \notin Types THEN s0
       ELSE IF ~Processed(s.core, t) THEN s0
       ELSE IF ~Decodes(t, st.res) THEN Send([s0 EXCEPT !.non[t] = st.nonce], t, TRUE)
       ELSE
       LET c1 == Accept(s.cfg, s.core, t, st.ver, st.res)
           s1 == Send([s0 EXCEPT !.non[t] = st.nonce, !.core = c1,
                                 !.log = Append(@, [k |-> "resp", t |-> t, ver |-> st.ver, res |-> st.res, tab |-> s.core.tab])], t, FALSE)
           d == IF t = "NDS" THEN "LDS" ELSE t
           s2 == [s1 EXCEPT !.ins[d] = [n \in DOMAIN c1.cache[d] \ DOMAIN s.core.cache[d] |-> s.now] @@ @]
           s3 == IF s.ready >= 0 THEN s2
                 ELSE IF t = "NDS" /\ s.cfg.lds /\ "LDS" \notin s.core.known
                 THEN Send([s2 EXCEPT !.core = Subscribe(@, "LDS", Reserved), !.log = Append(@, [k |-> "sub", t |-> "LDS", n |-> Reserved])], "LDS", FALSE)
                 ELSE IF (t = "NDS" /\ ~s.cfg.lds) \/ t = "LDS" THEN [s2 EXCEPT !.ready = s.now] ELSE s2
       IN Wake(s3, DOMAIN s3.out)

(* -------------------------------- streams ------------------------------ *)

RECURSIVE Resub(_, _)
Resub(s, ts) == IF ts = {} THEN s ELSE LET t == CHOOSE u \in ts : TRUE IN Resub(Send(s, t, FALSE), ts \ {t})

Reconnect(s) ==
    IF s.live \/ s.down \/ s.core.dead THEN s
    ELSE Resub([s EXCEPT !.live = TRUE, !.non = [t \in Types |-> ""], !.wire = [t \in Types |-> NoReq]], s.core.known)

MFail(s, auth) ==
    IF ~s.live THEN s
    ELSE Reconnect([s EXCEPT !.live = FALSE, !.deaf = FALSE, !.fails = @ + 1, !.core.dead = @ \/ auth])

(* --------------------------------- time -------------------------------- *)

Expired(s, t) ==
    {n \in DOMAIN s.core.cache[t] : ~(t = "LDS" /\ n = Reserved) /\ s.now - Max(Get0(s.ins[t], n), Get0(s.used[t], n)) > PeriodMs}

RECURSIVE EvictAll(_, _, _)
EvictAll(s, t, ns) ==
    IF ns = {} THEN s
    ELSE LET n == CHOOSE x \in ns : TRUE
         IN EvictAll(Send([s EXCEPT !.core = Evict(@, t, n), !.log = Append(@, [k |-> "evict", t |-> t, n |-> n])], t, FALSE), t, ns \ {n})

MSweep(s) ==
    LET f(x, t) == EvictAll(x, t, Expired(x, t))
    IN [f(f(f(f(s, "LDS"), "RDS"), "CDS"), "EDS") EXCEPT !.nsweep = @ + 1]

RECURSIVE Expire(_, _)
Expire(s, ids) == IF ids = {} THEN s ELSE LET id == CHOOSE i \in ids : TRUE IN Expire(Return(s, id, "err", -1), ids \ {id})
Timeouts(s) == Expire(s, {id \in DOMAIN s.out : s.out[id].dl <= s.now})

RECURSIVE AdvTo(_, _)
AdvTo(s, end) ==
    LET nextSweep == IF s.ready < 0 THEN end + 1 ELSE s.ready + (s.nsweep + 1) * PeriodMs
    IN IF nextSweep <= end
       THEN AdvTo(MSweep(Reconnect(Timeouts([s EXCEPT !.now = nextSweep]))), end)
       ELSE Reconnect(Timeouts([s EXCEPT !.now = end]))

(* --------------------------------- steps ------------------------------- *)

RECURSIVE Steps(_, _)
Do(s, st) ==
    CASE st.op = "resp"   -> MResp(s, st)
      [] st.op = "lookup" -> MLookup(s, st)
      [] st.op = "cancel" -> MCancel(s, st)
      [] st.op = "adv"    -> AdvTo(s, s.now + st.ms)
      [] st.op = "fail"   -> MFail(s, FALSE)
      [] st.op = "auth"   -> MFail(s, TRUE)
      [] st.op = "deaf"   -> [s EXCEPT !.deaf = s.live]
      [] st.op = "down"   -> [s EXCEPT !.down = TRUE]
      [] st.op = "up"     -> [s EXCEPT !.down = FALSE]
      [] st.op = "reg"    -> [s EXCEPT !.hs = @ \cup {st.t}]
      [] st.op = "suite"  -> [s EXCEPT !.suites = @ \cup {st.kind}]
      [] st.op = "batch"  -> Steps(s, st.steps)
      [] OTHER            -> s
Steps(s, sts) == IF sts = <<>> THEN s ELSE Steps(Do(s, Head(sts)), Tail(sts))

Apply(s, st) == Do([s EXCEPT !.reqs = <<>>], st)

(* ------------------------------ invariants ----------------------------- *)

Accepted(log, t) == {i \in 1..Len(log) : log[i].k = "resp" /\ log[i].t = t}
Names(log, t) == {log[i].n : i \in {j \in 1..Len(log) : log[j].k \in {"sub", "evict"} /\ log[j].t = t}}

(* The last subscription of n that precedes position i (0 if it was evicted since). *)
SubAt(log, t, n, i) ==
    LET js == {j \in 1..(i - 1) : log[j].k \in {"sub", "evict"} /\ log[j].t = t /\ log[j].n = n}
    IN IF js = {} THEN 0 ELSE LET l == CHOOSE j \in js : \A k \in js : k <= j IN IF log[l].k = "sub" THEN l ELSE 0

Carries(s, i, t, n) == LET w == WireName(s.cfg, s.log[i].tab, t, n) IN w # "" /\ \E k \in 1..Len(s.log[i].res) : s.log[i].res[k].n = w
CarriedCid(s, i, t, n) ==
    LET w == WireName(s.cfg, s.log[i].tab, t, n) IN s.log[i].res[CHOOSE k \in 1..Len(s.log[i].res) : s.log[i].res[k].n = w].c

(* C01: the cache is the fold of the accepted responses, said without reference to the operators of XdsCore. *)
Folded(s, t, n) ==
    LET L == Len(s.log)
        subscribed == SubAt(s.log, t, n, L + 1) # 0
        evs == {j \in 1..L : s.log[j].k = "evict" /\ s.log[j].t = t /\ s.log[j].n = n}
        ev == IF evs = {} THEN 0 ELSE CHOOSE j \in evs : \A k \in evs : k <= j
        subs == {j \in ev + 1..L : s.log[j].k = "sub" /\ s.log[j].t = t /\ s.log[j].n = n}
        from == IF subs = {} THEN L ELSE CHOOSE j \in subs : \A k \in subs : j <= k
        rs == {i \in Accepted(s.log, t) : i > from}
        cs == {i \in rs : Carries(s, i, t, n)}
        last == CHOOSE i \in cs : \A k \in cs : k <= i
    IN IF ~subscribed \/ cs = {} THEN 0
       ELSE IF t \in Full /\ \E i \in rs : i > last THEN 0
       ELSE CarriedCid(s, last, t, n)

(* C14: a listener is served from the last accepted listeners, under the name the current table designates. *)
Bound(s, n) ==
    LET L == Len(s.log)
        sub == SubAt(s.log, "LDS", n, L + 1)
        ls == Accepted(s.log, "LDS")
        last == CHOOSE i \in ls : \A k \in ls : k <= i
        w == WireName(s.cfg, s.core.tab, "LDS", n)
        rs == s.log[last].res
        at == {k \in 1..Len(rs) : rs[k].n = w}
        \* positions at which the bindings were computed since the subscription
        up == {i \in ls \cup {j \in Accepted(s.log, "NDS") : \E i \in ls : i < j} : i > sub}
    IN IF sub = 0 \/ ls = {} \/ up = {} \/ w = "" THEN 0
       ELSE IF at = {} THEN 0 ELSE rs[CHOOSE k \in at : TRUE].c

FoldOf(s, t, n) == IF t = "LDS" /\ s.cfg.nds THEN Bound(s, n) ELSE Folded(s, t, n)

C01(s) == \A t \in Data :
    /\ \A n \in DOMAIN s.core.cache[t] : s.core.cache[t][n].c = FoldOf(s, t, n)
    /\ \A n \in Names(s.log, t) : FoldOf(s, t, n) # 0 => n \in DOMAIN s.core.cache[t]
    /\ DOMAIN s.core.cache[t] \subseteq s.core.sub[t]

(* C03: once quiescent, the last request of each type names the interest set. *)
C03(s) == s.live /\ ~s.deaf => \A t \in s.core.known : s.wire[t].names = s.core.sub[t] /\ s.wire[t].ver = s.core.ver[t]

(* C05, C06: no lookup outlives its deadline, none waits for what is cached. *)
C05(s) == \A id \in DOMAIN s.out :
    /\ s.out[id].dl > s.now
    /\ s.out[id].t \in Types
    /\ s.out[id].t \in Data => s.out[id].n \notin DOMAIN s.core.cache[s.out[id].t]

(* C19: nothing stays cached for more than two periods without being looked up. *)
C19(s) == s.ready >= 0 => \A t \in Data : \A n \in DOMAIN s.core.cache[t] :
    (t = "LDS" /\ n = Reserved) \/ s.now - Max(Get0(s.ins[t], n), Get0(s.used[t], n)) <= 2 * PeriodMs

(* What a step does (C02, C03, C04), from s to z by st. *)
C02step(s, z, st) ==
    st.op = "resp" =>
        LET t == st.t
            answers == {i \in 1..Len(z.reqs) : z.reqs[i].r.nonce = st.nonce /\ z.reqs[i].t = t}
        IN IF ~s.live \/ t \notin s.core.known THEN z.reqs = <<>> /\ z.core = s.core
           ELSE IF s.deaf THEN z.reqs = <<>>
           ELSE /\ Cardinality(answers) = 1
                /\ \A i \in answers :
                     LET r == z.reqs[i].r IN
                     IF Decodes(t, st.res) THEN ~r.err /\ r.ver = st.ver
                     ELSE r.err /\ r.ver = s.core.ver[t] /\ z.core = s.core
C03step(s, z, st) ==
    \A t \in Types :
        /\ (z.core.sub[t] # s.core.sub[t] /\ z.live /\ ~z.deaf) => \E i \in 1..Len(z.reqs) : z.reqs[i].t = t /\ z.reqs[i].r.names = z.core.sub[t]
        /\ (z.core.sub[t] \ s.core.sub[t] # {}) => (st.op \in {"lookup", "batch"} \/ (t = "LDS" /\ s.ready < 0))
        /\ (s.core.sub[t] \ z.core.sub[t] # {}) => st.op \in {"adv"}
C04step(s, z, st) ==
    /\ (z.live /\ (z.fails > s.fails \/ ~s.live)) =>
         \A t \in z.core.known : \E i \in 1..Len(z.reqs) :
            z.reqs[i].t = t /\ z.reqs[i].r.nonce = "" /\ s.core.sub[t] \subseteq z.reqs[i].r.names /\ z.reqs[i].r.ver = s.core.ver[t]
    /\ z.fails > s.fails => z.core.cache = s.core.cache
    /\ (s.core.dead => ~z.live)
=============================================================================
