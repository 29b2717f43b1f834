------------------------------ MODULE XdsTrace -----------------------------
(***************************************************************************)
(* Decides whether recorded runs of the real client are behaviours of the   *)
(* client specified by XdsCore.                                             *)
(*                                                                          *)
(* A run is a sequence of events of the real client and of the control      *)
(* plane it was connected to, stamped with virtual time:                    *)
(*   begin, ready; open, openfail, recv, req, fail, deaf, down, up (stream);*)
(*   resp (a response is handed to the client); call, cancel, ret (lookups);*)
(*   reg, regdone, hdone (update handlers); suite, suitedone (policies);    *)
(*   quiet (nothing is left to do: the cache and the policies in force);    *)
(*   hang, crash, end.                                                      *)
(* Between two quiet events the client may be at any point of processing    *)
(* what it was given, so the monitor keeps bounds; at a quiet event the     *)
(* specification determines everything observable.                          *)
(***************************************************************************)
EXTENDS XdsCore, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, m
vars == <<tr, pos, m>>
view == <<tr, pos>>

None == {"-none-"}
ZeroT(v) == [t \in Types |-> v]

M0(cfg) == [
    cfg    |-> cfg,
    core   |-> Core0,
    str    |-> 0,                \* the live stream, 0 if there is none
    deaf   |-> FALSE,            \* it delivers responses but its sends fail
    down   |-> FALSE, upAt |-> 0, failed |-> FALSE,
    non    |-> ZeroT(""),        \* the latest nonce of a type on the live stream
    verOK  |-> ZeroT({""}), nonOK |-> ZeroT({""}),
    may    |-> ZeroT({}),        \* names that may or may not be subscribed
    sw     |-> ZeroT({}),        \* those of them that a sweep may have unsubscribed
    wdr    |-> ZeroT({}),        \* names that a sweep has certainly evicted since the last quiet event
    base   |-> ZeroT({}),        \* names that have been subscribed since the last quiet event at least
    unk    |-> ZeroT({}),        \* cached names that may have been evicted
    amb    |-> ZeroT(Empty),     \* name -> set of resources that may have been cached (0: none)
    ambRes |-> Empty,            \* content id -> resource, of those
    lastreq |-> ZeroT(None),     \* the names of the last request on the live stream
    resub  |-> {},
    resp   |-> [t |-> "", res |-> <<>>],   \* the response that is being applied
    par    |-> FALSE,            \* the goroutines are stopped by a schedule
    pack   |-> ZeroT(<<>>),      \* responses to be acknowledged
    credit |-> ZeroT(0),
    out    |-> Empty,            \* lookups under way
    vals   |-> [t \in Data |-> Empty], lo |-> [t \in Data |-> Empty],
    hs     |-> Empty,            \* update handlers
    due    |-> {},               \* what the handlers must have been given before the next response
    born   |-> Empty,            \* content id -> position of the response
    reject |-> {},               \* content ids of rejected responses
    acc    |-> {},               \* and of accepted ones
    suites |-> <<>>, gone |-> {}, limOK |-> {},
    ready  |-> -1, sweeps |-> 0,
    ins    |-> [t \in Data |-> Empty], used |-> [t \in Data |-> Empty], called |-> [t \in Data |-> Empty],
    meta   |-> [t \in Data |-> {}],     \* names that have been cached since they were subscribed
    ctx    |-> {}, viol |-> {},
    n      |-> [resp |-> 0, nack |-> 0, req |-> 0, ret |-> 0, val |-> 0, sweep |-> 0, evict |-> 0, reconn |-> 0, hdone |-> 0, pol |-> 0, quiet |-> 0, drop |-> 0, trip |-> 0]]

Count(x, k) == [x EXCEPT !.n[k] = @ + 1]
V(x, ps, why) == [x EXCEPT !.viol = @ \cup {[p |-> p, why |-> why, at |-> pos] : p \in ps}]
Check(x, ok, ps, why) == IF ok THEN x ELSE V(x, ps, why)
If(c, S) == IF c THEN S ELSE {}

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Cids(t, x, name) == Get(x.vals[t], name, <<0>>)
Cur(t, x, name) == LET v == Cids(t, x, name) IN v[Len(v)]
LoOf(t, x, name) == Get(x.lo[t], name, 1)

SetVal(x, t, name, c) ==
    IF Cur(t, x, name) = c THEN x
    ELSE [x EXCEPT !.vals[t] = Put(@, name, Append(Cids(t, x, name), c))]

RECURSIVE SetVals(_, _, _)
SetVals(x, t, pairs) ==    \* pairs: a set of <<name, c>>
    IF pairs = {} THEN x
    ELSE LET p == CHOOSE q \in pairs : TRUE IN SetVals(SetVal(x, t, p[1], p[2]), t, pairs \ {p})

(* Everything given to the client has been applied. *)
Settle(x) == [x EXCEPT !.lo = [t \in Data |-> [n \in DOMAIN x.vals[t] |-> Max(Get(x.lo[t], n, 1), Len(x.vals[t][n]))]]]

(* ------------------------------- sweeps -------------------------------- *)

Idle(x, t, n, T) == T - Max(Get(x.ins[t], n, -1), Get(x.used[t], n, -1))
CalledSince(x, t, n, T) == T - Get(x.called[t], n, -Period - Period) <= Period

SweepType(x, t, T) ==
    LET held  == DOMAIN x.core.cache[t] \cup x.unk[t]
        spare == IF t = "LDS" THEN {Reserved} ELSE {}
        must == If(~(IF Has(x.cfg, "soft") THEN x.cfg.soft ELSE FALSE), {n \in DOMAIN x.core.cache[t] \ (spare \cup x.unk[t] \cup DOMAIN x.amb[t]) : Idle(x, t, n, T) > Period /\ ~CalledSince(x, t, n, T)})
        might == {n \in (held \cup x.meta[t] \cup DOMAIN x.amb[t]) \ (spare \cup must) :
                    ~CalledSince(x, t, n, T) }
        x1 == [x EXCEPT
                 !.core.sub[t]   = @ \ (must \cup might),
                 !.core.cache[t] = Del(@, must),
                 !.meta[t]       = @ \ must,
                 !.may[t]        = @ \cup must \cup (might \cap x.core.sub[t]),
                 !.sw[t]         = @ \cup must \cup (might \cap x.core.sub[t]),
                 !.wdr[t]        = @ \cup must,
                 !.base[t]       = @ \ (must \cup might),
                 !.unk[t]        = @ \cup (might \cap DOMAIN x.core.cache[t]),
                 !.credit[t]     = @ + Cardinality(must \cup might),
                 !.gone          = @ \cup {x.core.cache[t][n] : n \in IF t = "RDS" THEN must \cup (might \cap DOMAIN x.core.cache[t]) ELSE {}},
                 !.n.evict       = @ + Cardinality(must),
                 !.ctx           = @ \cup If(must \cup might # {}, {"sweep" \o t})]
        \* those may also have been evicted before the response that is being applied
        x2 == IF x.resp.t # t THEN x1
              ELSE [x1 EXCEPT
                      !.due = {d \in @ : ~(x.hs[d.h].t = t /\ d.n \in might)},
                      !.suites = [i \in DOMAIN @ |-> IF t = "CDS" /\ @[i].kind \in {"cb", "cbi"}
                                     THEN [@[i] EXCEPT !.opt = [n \in might \cap DOMAIN x.suites[i].last |-> x.suites[i].last[n]] @@ @,
                                                       !.last = Del(@, might)]
                                     ELSE @[i]]]
    IN SetVals(x2, t, {<<n, 0>> : n \in must})

Sweep(x, T) ==
    LET x1 == SweepType(SweepType(SweepType(SweepType(x, "LDS", T), "RDS", T), "CDS", T), "EDS", T)
    IN Count([x1 EXCEPT !.sweeps = @ + 1], "sweep")

RECURSIVE SweepTo(_, _)
SweepTo(x, now) ==
    IF x.ready < 0 THEN x
    ELSE LET T == x.ready + (x.sweeps + 1) * Period
         IN IF T > now THEN x ELSE SweepTo(Sweep(x, T), now)

(* ------------------------------- lookups ------------------------------- *)

IsData(t) == t \in Data

(* A name that is called while a response is applied may still be among those it supplies. *)
CalledLate(x, e) ==
    LET t == e.t  n == e.n
        up == IF x.resp.t = t /\ n \notin x.core.sub[t] THEN Supplied(x.cfg, x.core.tab, t, {n}, x.resp.res) ELSE Empty
    IN IF up = Empty THEN x
       ELSE LET x1 == [x EXCEPT !.amb[t] = Put(@, n, Get(@, n, {Cur(t, x, n)}) \cup {0, up[n].c}),
                                !.ambRes = Put(@, up[n].c, up[n]),
                                !.ins[t] = Put(@, n, e.at), !.meta[t] = @ \cup {n},
                                !.gone = IF t = "RDS" THEN @ \cup {up[n]} ELSE @,
                                !.suites = [i \in DOMAIN @ |-> IF t = "CDS" /\ @[i].kind \in {"cb", "cbi"}
                                              THEN [@[i] EXCEPT !.opt = CBPolicies(up) @@ @] ELSE @[i]]]
            IN SetVal(x1, t, n, up[n].c)

OnCall(x, e) ==
    LET dl == IF e.ctx > 0 THEN e.at + Min(x.cfg.timeout, e.ctx) * 1000
              ELSE IF e.ctx < 0 THEN e.at ELSE e.at + x.cfg.timeout * 1000
        valid == e.t \in Types
        cached == IsData(e.t) /\ e.t \in Data /\ e.n \in DOMAIN x.core.cache[e.t]
                  /\ e.n \notin x.unk[e.t] /\ e.n \notin DOMAIN x.amb[e.t]
                  /\ LoOf(e.t, x, e.n) = Len(Cids(e.t, x, e.n))    \* and that is settled
        o == [t |-> e.t, n |-> e.n, at |-> e.at, dl |-> dl, pend |-> FALSE, sup |-> FALSE, began |-> FALSE,
              lo |-> IF e.t \in Data THEN LoOf(e.t, x, e.n) ELSE 0]
        x1 == [x EXCEPT !.out = Put(@, e.id, o)]
    IN IF ~valid THEN x1
       ELSE LET x2 == [x1 EXCEPT !.core.known = @ \cup {e.t},
                                 !.may[e.t] = IF e.n \in x.core.sub[e.t] THEN @ ELSE @ \cup {e.n},
                                 !.wdr[e.t] = @ \ {e.n},
                                 !.sw[e.t] = IF cached \/ x.par THEN @ ELSE @ \ {e.n},
                                 \* a new stream may ask for a new type as well
                                 !.credit[e.t] = IF cached THEN @ ELSE @ + (IF "open" \in x.ctx /\ e.t \notin x.core.known THEN 2 ELSE 1)]
            IN IF e.t = "NDS" THEN x2
               ELSE CalledLate([x2 EXCEPT !.called[e.t] = Put(@, e.n, e.at)], e)

(* Names the handlers were given before the lookup could see them. *)
HandlersDone(x, t, name, c) ==
    \A h \in DOMAIN x.hs :
        (x.hs[h].t = t /\ x.hs[h].ready >= 0 /\ c \in DOMAIN x.born /\ x.hs[h].ready < x.born[c])
            => <<name, c>> \in x.hs[h].seen

Dls == 5000000   \* scheduling slack beyond a deadline is 0 in virtual time

OnRet(x, e) ==
    IF e.id \notin DOMAIN x.out THEN x
    ELSE
    LET o == x.out[e.id]
        t == o.t
        isD == t \in Data
        v == IF isD THEN Cids(t, x, o.n) ELSE <<0>>
        ok == IF isD THEN {i \in o.lo..Len(v) : v[i] = e.c /\ e.c # 0} ELSE {}
        ambOK == isD /\ (IF o.n \in DOMAIN x.amb[t] THEN e.c \in x.amb[t][o.n] ELSE FALSE)
        cachedAll == isD /\ (\A i \in o.lo..Len(v) : v[i] # 0) /\ o.n \notin x.unk[t] /\ o.n \notin DOMAIN x.amb[t]
        nolive == x.str = 0 \/ x.core.dead
        x0 == Count([x EXCEPT !.out = Del(@, {e.id})], "ret")
        late == e.at > o.dl /\ ~x.par
        x1 == Check(x0, ~late, {"C05"} \cup If(x.core.dead, {"C04"}), "lookup returned after its deadline")
    IN CASE e.k = "val" ->
              LET x2 == Count(x1, "val")
                  x3 == Check(x2, isD /\ (ok # {} \/ ambOK),
                              {"C01"} \cup If(isD, {"C07"}) \cup If(t = "LDS" /\ x.cfg.nds, {"C14"})
                              \cup If(e.c \in x.reject \ x.acc, {"C02"})
                              \cup If(IF isD THEN \E i \in 1..Len(v) : v[i] = e.c ELSE FALSE, {"C19"}),
                              "lookup of " \o t \o " " \o o.n \o " returned cid " \o ToString(e.c) \o ", values " \o ToString(v))
                  x4 == Check(x3, isD => HandlersDone(x, t, o.n, e.c),
                              {"C07"} \cup If(t = "CDS", {"C16"}) \cup If(t = "RDS", {"C17"}) \cup If(t = "LDS", {"C18"}),
                              "lookup exposed a resource before a handler had completed")
              IN IF ~isD THEN x4
                 ELSE [x4 EXCEPT !.used[t] = Put(@, o.n, e.at),
                                 !.lo[t] = IF ok = {} THEN @ ELSE
                                           Put(@, o.n, Max(LoOf(t, x, o.n), CHOOSE i \in ok : \A j \in ok : i <= j))]
         [] e.k = "err" ->
              LET x2 == IF isD THEN [x1 EXCEPT !.used[t] = Put(@, o.n, e.at)] ELSE x1
                  pre == o.dl = o.at    \* cancelled before it began
                  x3 == Check(x2, pre \/ ~cachedAll,
                              {"C01", "C05"} \cup If(nolive \/ x.failed, {"C04"}) \cup If(t = "LDS" /\ x.cfg.nds, {"C14"})
                              \cup If(x.sweeps > 0, {"C19"}),
                              "lookup of cached " \o t \o " " \o o.n \o " failed")
                  x4 == Check(x3, ~(o.sup /\ e.at < o.dl) /\ ~(o.sup /\ e.at >= o.dl), {"C06"}, "lookup failed although the resource was accepted before its deadline")
                  x5 == Check(x4, t \notin Types => e.at = o.at, {"C05"}, "unknown kind not rejected immediately")
              IN Check(x5, e.at >= o.dl \/ x.core.dead \/ t \notin Types, {"C06"}, "lookup failed before its deadline")
         [] OTHER -> V(x1, {"C05"} \cup If(e.k = "panic", {"C15"}), "lookup returned " \o e.k)

(* ------------------------------ responses ------------------------------ *)

CidsOf(e) == {e.res[i].c : i \in 1..Len(e.res)}

(* The names subscribed to as type t are supplied from res; x is the state before, x2 the one with the new core. *)
DataUpdate(x, x2, t, res, at) ==
    LET cert == x.core.sub[t] \ x.unk[t]
        up == Supplied(x.cfg, x2.core.tab, t, cert, res)
        \* names whose subscription is not certain at this moment
        upMay == Supplied(x.cfg, x2.core.tab, t, (x.may[t] \cup x.unk[t] \cup DOMAIN x.amb[t]) \ cert, res)
        dropped == IF t \in Full THEN DOMAIN x.core.cache[t] \ DOMAIN up ELSE {}
        fresh == DOMAIN up \ DOMAIN x.core.cache[t]
        kept == IF t \in Full THEN {} ELSE (DOMAIN x.amb[t] \cap cert) \ DOMAIN up
        uncertain == ((x.unk[t] \cup DOMAIN x.amb[t] \cup DOMAIN upMay) \ cert) \cup kept
        newAmb == [n \in uncertain |->
                     IF n \in kept THEN x.amb[t][n] ELSE
                     Get(x.amb[t], n, {Cur(t, x, n)}) \cup {0}
                     \cup (IF n \in DOMAIN upMay THEN {upMay[n].c} ELSE {})]
        x3 == [x2 EXCEPT
                 !.core.cache[t] = Del(@, uncertain),
                 !.unk[t] = {},
                 !.amb[t] = newAmb,
                 !.ambRes = [c \in {x.core.cache[t][n].c : n \in uncertain \cap DOMAIN x.core.cache[t]} |->
                               x.core.cache[t][CHOOSE n \in uncertain \cap DOMAIN x.core.cache[t] : x.core.cache[t][n].c = c]]
                            @@ [c \in {upMay[n].c : n \in DOMAIN upMay} |-> upMay[CHOOSE n \in DOMAIN upMay : upMay[n].c = c]] @@ @,
                 !.ins[t] = [n \in fresh \cup DOMAIN upMay |-> at] @@ @,
                 !.meta[t] = @ \cup DOMAIN up \cup DOMAIN upMay,
                 !.gone = IF t = "RDS" THEN Range(upMay) \cup {x.core.cache[t][n] : n \in uncertain \cap DOMAIN x.core.cache[t]} ELSE @,
                 !.resp = [t |-> t, res |-> res],
                 \* lookups that began before the response and find that it drops the name
                 !.credit[t] = @ + Cardinality({id \in DOMAIN x.out : x.out[id].t = t /\ x.out[id].n \in dropped \cup uncertain}),
                 !.out = [id \in DOMAIN @ |-> IF @[id].t = t /\ @[id].n \in DOMAIN up /\ at < @[id].dl
                                              THEN [@[id] EXCEPT !.pend = TRUE]
                                              \* one that has just been called may not have begun when the name was dropped
                                              ELSE IF @[id].t = t /\ @[id].n \in dropped /\ ~@[id].began
                                              THEN [@[id] EXCEPT !.sup = FALSE, !.pend = FALSE] ELSE @[id]],
                 !.due = @ \cup {[h |-> h, n |-> n, c |-> up[n].c] :
                                   h \in {g \in DOMAIN x.hs : x.hs[g].t = t /\ x.hs[g].ready >= 0}, n \in DOMAIN up}]
        \* what may have been cached may have been observed
        x3b == SetVals(x3, t, UNION {{<<n, c>> : c \in x.amb[t][n]} : n \in DOMAIN x.amb[t]})
        x4 == SetVals(SetVals(x3b, t, {<<n, up[n].c>> : n \in DOMAIN up}), t, {<<n, 0>> : n \in dropped})
    IN IF t = "CDS"
       THEN [x4 EXCEPT !.suites = [i \in DOMAIN @ |->
               IF @[i].kind \in {"cb", "cbi"} THEN [@[i] EXCEPT !.conf = @ \cup DOMAIN CBPolicies(up), !.last = CBPolicies(up), !.opt = CBPolicies(upMay)] ELSE @[i]]]
       ELSE IF t = "LDS"
       THEN [x4 EXCEPT !.suites = [i \in DOMAIN @ |-> IF @[i].kind = "limit" THEN [@[i] EXCEPT !.ok = @ \cup {LimitOf(x4.core.cache["LDS"], x4.suites[i].port)}] ELSE @[i]]]
       ELSE x4

OnResp(x, e) ==
    LET t == e.t
        x0 == Count([x EXCEPT !.born = [c \in CidsOf(e) |-> pos] @@ @], "resp")
    IN IF t \notin Types \/ t \notin x.core.known
       THEN Count([x0 EXCEPT !.ctx = @ \cup {"ignored"}, !.reject = @ \cup {c \in CidsOf(e) : c < 90000}], "drop")
       ELSE
       LET ok == Decodes(t, e.res)
           x1 == [x0 EXCEPT !.non[t] = e.nonce, !.nonOK[t] = @ \cup {e.nonce},
                            !.pack[t] = Append(@, [nonce |-> e.nonce, ver |-> IF ok THEN e.ver ELSE x.core.ver[t], ok |-> ok])]
       IN IF ~ok THEN Count([x1 EXCEPT !.ctx = @ \cup {"nack"}, !.reject = @ \cup {c \in CidsOf(e) : c < 90000}], "nack")
          ELSE
          LET c1 == Accept(x.cfg, x.core, t, e.ver, e.res)
              x2 == [x1 EXCEPT !.core = c1, !.verOK[t] = @ \cup {e.ver}, !.acc = @ \cup CidsOf(e)]
          IN IF t = "NDS" THEN
                 IF Rebinds(x.cfg, x.core) THEN DataUpdate(x, x2, "LDS", x.core.lds.res, e.at)
                 ELSE IF x.cfg.lds /\ x.ready < 0 /\ Reserved \notin x.core.sub["LDS"]
                 THEN [x2 EXCEPT !.core.known = @ \cup {"LDS"}, !.may["LDS"] = @ \cup {Reserved}, !.credit["LDS"] = @ + 1]
                 ELSE x2
             ELSE
             DataUpdate(x, x2, t, e.res, e.at)

DuePs(x) == {"C07"} \cup UNION {
    LET t == x.hs[d.h].t IN IF t = "CDS" THEN {"C16"} ELSE IF t = "RDS" THEN {"C17"} ELSE IF t = "LDS" THEN {"C18"} ELSE {}
    : d \in x.due}

HandlersGiven(x) ==
    LET missing == {d \in x.due : <<d.n, d.c>> \notin x.hs[d.h].seen}
        x1 == Check(x, missing = {}, DuePs([x EXCEPT !.due = missing]), "an update handler was not given an accepted resource")
    IN [x1 EXCEPT !.due = {}]

(* The response has been applied: the lookups it supplies are to return its resource, unless they have given up before. *)
Supply(x, at) == [x EXCEPT !.resp = [t |-> "", res |-> <<>>], !.out = [id \in DOMAIN @ |-> [@[id] EXCEPT !.sup = @ \/ (x.out[id].pend /\ at < x.out[id].dl), !.pend = FALSE]]]

(* What a handler was given last of each cached resource is what is cached. *)
HandlersCurrent(x) ==
    LET old(h) == {n \in DOMAIN x.core.cache[x.hs[h].t] : Get0(x.hs[h].last, n) # x.core.cache[x.hs[h].t][n].c}
        bad == {h \in DOMAIN x.hs : x.hs[h].ready >= 0 /\ old(h) # {}}
        ts == {x.hs[h].t : h \in bad}
    IN Check(x, bad = {}, {"C07"} \cup If("CDS" \in ts, {"C16"}) \cup If("RDS" \in ts, {"C17"}) \cup If("LDS" \in ts, {"C18"}),
             "a handler was not given the current resources last: " \o ToString({<<h, old(h)>> : h \in bad}))

(* The client asks for the next response: it is done with the previous ones. *)
OnRecv(x, e) == HandlersGiven(Settle(Supply(x, e.at)))

(* ------------------------------- requests ------------------------------ *)

NamesOf(t, s) == LET S == {s[i] : i \in 1..Len(s)} IN IF t = "NDS" THEN S \ {""} ELSE S
SubOf(x, t) == IF t = "NDS" THEN x.core.sub[t] \ {""} ELSE x.core.sub[t]

OnReq(x, e) ==
    LET t == e.t
        x0 == Count(Check(x, e.node, {"C03", "C20"}, "request does not identify the node"), "req")
    IN IF t \notin Types \/ t \notin x.core.known
       THEN V(x0, {"C03"}, "request of a type nobody asked for: " \o t)
       ELSE
       LET names == NamesOf(t, e.names)
           hi == SubOf(x, t) \cup x.may[t] \cup x.unk[t]
           swept == ("sweep" \o t) \in x.ctx
           x1 == Check(x0, Len(e.names) = Cardinality({e.names[i] : i \in 1..Len(e.names)}), {"C03"}, "names repeated in a request")
           \* requests prepared before the ones of a new stream may follow these
           low == IF "open" \in x.ctx THEN SubOf(x, t) \cap x.base[t] ELSE SubOf(x, t)
           x2 == Check(x1, low \subseteq names /\ names \subseteq hi,
                       {"C03"} \cup If(swept, {"C19"}) \cup If(t \in x.resub, {"C04"}),
                       "request of " \o t \o " names " \o ToString(names) \o ", subscribed " \o ToString(SubOf(x, t)) \o " maybe " \o ToString(hi \ SubOf(x, t)))
           \* what a request lists is subscribed
           x3 == [x2 EXCEPT !.lastreq[t] = names,
                            !.core.sub[t] = @ \cup ((names \cap x.may[t]) \ x.sw[t]),
                            !.may[t] = @ \ (names \ x.sw[t])]
           x4 == Check(x3, e.s = x.str, {"C04"}, "request on a stream that is not the live one")
           isAck == x.pack[t] # <<>> /\ (IF x.pack[t] # <<>> THEN e.nonce = x.pack[t][1].nonce ELSE FALSE)
       IN IF t \in x.resub THEN
             LET y1 == Check(x4, e.nonce = "", {"C04"}, "first request of " \o t \o " on a new stream has nonce " \o e.nonce)
                 y2 == Check(y1, e.ver \in x.verOK[t], {"C04", "C02"}, "re-request of " \o t \o " has version " \o e.ver)
                 y3 == Check(y2, ~e.err, {"C02"}, "re-request has an error detail")
             IN [y3 EXCEPT !.resub = @ \ {t}]
          ELSE IF isAck THEN
             LET a == x.pack[t][1]
                 y1 == Check(x4, e.err = ~a.ok, {"C02"}, IF a.ok THEN "error detail in an ACK" ELSE "no error detail in a NACK")
                 y2 == Check(y1, e.ver = a.ver, {"C02"}, "acknowledgement has version " \o e.ver \o " instead of " \o a.ver)
             IN [y2 EXCEPT !.pack[t] = Tail(@)]
          ELSE
             LET y1 == Check(x4, ~e.err, {"C02"}, "error detail in a request that answers nothing")
                 y2 == Check(y1, e.nonce \in x.nonOK[t], {"C04", "C02"}, "request of " \o t \o " has nonce " \o e.nonce)
                 y3 == Check(y2, e.ver \in x.verOK[t], {"C02"}, "request of " \o t \o " has version " \o e.ver)
                 y4 == Check(y3, x.credit[t] > 0, {"C02"}, "request of " \o t \o " that nothing calls for")
             IN [y4 EXCEPT !.credit[t] = Max(0, @ - 1)]

(* ------------------------------- streams ------------------------------- *)

OnOpen(x, e) ==
    LET x1 == Check(x, ~x.core.dead, {"C04"}, "stream opened after an authentication failure")
    IN Count([x1 EXCEPT !.str = e.s, !.deaf = FALSE, !.non = ZeroT(""), !.nonOK = ZeroT({""}), !.pack = ZeroT(<<>>),
                 !.lastreq = ZeroT(None), !.ctx = @ \cup {"open"},
                 !.resub = IF x.failed THEN {t \in x.core.known : TRUE} ELSE {}],
             "reconn")

OnFail(x, e) ==
    [x EXCEPT !.str = 0, !.deaf = FALSE, !.pack = ZeroT(<<>>), !.resub = {}, !.failed = TRUE, !.upAt = e.at,
              !.core.dead = @ \/ e.auth, !.ctx = @ \cup {"fail"}]

(* ------------------------------- handlers ------------------------------ *)

OnHdone(x, e) ==
    LET pairs == {<<e.res[i].n, e.res[i].c>> : i \in 1..Len(e.res)}
        h == x.hs[e.h]
        x1 == Check(x, \A p \in pairs : p[2] \in DOMAIN x.born /\ p[2] \notin x.reject \ x.acc, {"C02", "C01"}, "a handler was given a resource that was not accepted")
        x2 == Check(x1, \A p \in pairs : p[1] \in x.core.sub[e.t] \cup x.may[e.t] \cup x.unk[e.t], {"C01"}, "a handler was given a resource nobody asked for")
    IN Count([x2 EXCEPT !.hs[e.h].seen = @ \cup pairs, !.hs[e.h].last = [n \in {p[1] : p \in pairs} |-> (CHOOSE p \in pairs : p[1] = n)[2]] @@ @], "hdone")

OnReg(x, e) == [x EXCEPT !.hs = Put(@, e.h, [t |-> e.t, ready |-> -1, seen |-> {}, last |-> Empty, lo |-> x.lo[e.t]])]

OnRegdone(x, e) ==
    LET h == x.hs[e.h]
        \* a handler registered late is given the current cache
        given(n) == \E i \in Get(h.lo, n, 1)..Len(Cids(h.t, x, n)) : LET c == Cids(h.t, x, n)[i] IN c = 0 \/ <<n, c>> \in h.seen
        x1 == Check(x, \A n \in DOMAIN x.core.cache[h.t] \ (x.unk[h.t] \cup DOMAIN x.amb[h.t]) : given(n),
                    {"C07"} \cup If(h.t = "CDS", {"C16"}) \cup If(h.t = "LDS", {"C18"}) \cup If(h.t = "RDS", {"C17"}),
                    "a handler registered late was not given the cache")
    IN [x1 EXCEPT !.hs[e.h].ready = pos]

OnSuite(x, e) ==
    LET cds == x.core.cache["CDS"] IN
    [x EXCEPT !.suites = Append(@,
        [kind |-> e.kind, port |-> IF e.port < 0 THEN 0 ELSE e.port, served |-> FALSE,
         conf |-> DOMAIN CBPolicies(cds), last |-> CBPolicies(cds), opt |-> Empty,
         ok |-> {LimitOf(x.core.cache["LDS"], IF e.port < 0 THEN 0 ELSE e.port)}])]

(* ------------------------------ quiescence ----------------------------- *)

(* The cache, as observed. *)
SnapType(x, t, obs) ==
    LET o == {<<obs[i].n, obs[i].c>> : i \in 1..Len(obs)}
        on == {p[1] : p \in o}
        unk == x.unk[t]
        amb == DOMAIN x.amb[t]
        exact == {<<n, x.core.cache[t][n].c>> : n \in DOMAIN x.core.cache[t] \ (unk \cup amb)}
        ps == {"C01"} \cup If("nack" \in x.ctx \/ "ignored" \in x.ctx, {"C02"}) \cup If(("sweep" \o t) \in x.ctx, {"C19"})
              \cup If("fail" \in x.ctx \/ x.str = 0, {"C04"}) \cup If(t = "LDS" /\ x.cfg.nds, {"C14"})
        x1 == Check(x, exact \subseteq o, ps, "cache of " \o t \o " lacks " \o ToString(exact \ o) \o ", has " \o ToString(o))
        rest == {p \in o \ exact : p[1] \notin unk \cup amb}
        x2 == Check(x1, rest = {}, ps, "cache of " \o t \o " has " \o ToString(rest) \o " instead of " \o ToString(exact))
        x3 == Check(x2, \A p \in o : (p[1] \in unk => p[2] = Cur(t, x, p[1])) /\ (p[1] \in amb => p[2] \in x.amb[t][p[1]]),
                    ps, "cache of " \o t \o " has a wrong value")
        \* resolve what was uncertain
        lost == unk \ on
        kept == unk \cap on
        ambOn == amb \cap on
        cidOf(n) == (CHOOSE p \in o : p[1] = n)[2]
        x4 == [x3 EXCEPT
                 !.unk[t] = {},
                 !.core.cache[t] = Del([n \in ambOn |-> Get(x.ambRes, cidOf(n), [n |-> n, c |-> cidOf(n)])] @@ @, lost),
                 !.core.sub[t] = @ \cup kept \cup ambOn,
                 !.meta[t] = @ \ lost,
                 !.may[t] = @ \ (kept \cup ambOn),
                 !.amb[t] = Empty,
                 !.out = [id \in DOMAIN @ |-> IF @[id].t = t /\ @[id].n \in ambOn THEN [@[id] EXCEPT !.sup = TRUE] ELSE @[id]],
                 !.n.evict = @ + Cardinality(lost)]
    IN SetVals(x4, t, {<<n, 0>> : n \in lost \cup (amb \ on)} \cup {<<n, cidOf(n)>> : n \in ambOn})

Snap(x, e) ==
    IF ~Has(e, "cache") THEN x
    ELSE IF Has(e.cache, "none") THEN V(x, {"C01"}, "the cache cannot be dumped")
    ELSE SnapType(SnapType(SnapType(SnapType(x, "LDS", e.cache.LDS), "RDS", e.cache.RDS), "CDS", e.cache.CDS), "EDS", e.cache.EDS)

(* The interest set and what was last requested. *)
ReqType(x, t) ==
    IF x.str = 0 \/ x.core.dead \/ x.deaf THEN x
    ELSE
    LET swept == ("sweep" \o t) \in x.ctx
        x1 == Check(x, x.pack[t] = <<>>, {"C02"}, "response of " \o t \o " not acknowledged")
        x2 == Check(x1, t \notin x.resub \/ SubOf(x, t) = {}, {"C04"}, t \o " not re-requested on the new stream")
        asked == x.lastreq[t]
    IN IF t \notin x.core.known THEN x2
       ELSE IF asked = None
       THEN Check(x2, SubOf(x, t) = {} /\ (t = "NDS" => FALSE), {"C03"}, "nothing requested for " \o t)
       ELSE LET x3 == Check(x2, SubOf(x, t) \subseteq asked /\ asked \subseteq SubOf(x, t) \cup x.may[t],
                            {"C03"} \cup If(swept, {"C19"}) \cup If(x.failed, {"C04"}),
                            "last request of " \o t \o " names " \o ToString(asked) \o " instead of " \o ToString(SubOf(x, t)))
            IN [x3 EXCEPT !.core.sub[t] = @ \cup (asked \cap x.may[t]), !.meta[t] = @ \cap (asked \cup DOMAIN x.core.cache[t])]

(* A name that was called is subscribed by now, unless a sweep removed it. *)
CalledNames(x, t) == x.may[t] \ x.sw[t]

OutCheck(x, now) ==
    LET ids == DOMAIN x.out
        stuck == {id \in ids : now >= x.out[id].dl}
        sup == {id \in ids : x.out[id].sup}
        hit == {id \in ids : LET o == x.out[id] IN
                  IF o.t \in Data THEN o.n \in DOMAIN x.core.cache[o.t] ELSE FALSE}
        bad == {id \in ids : x.out[id].t \notin Types}
        x1 == Check(x, stuck = {}, {"C05"} \cup If(x.core.dead, {"C04"}) \cup If(\E id \in stuck : x.out[id].sup, {"C06"}), "a lookup has not returned at its deadline")
        x2 == Check(x1, sup = {}, {"C06"}, "a waiting lookup was not woken although the resource was accepted")
        x3 == Check(x2, hit \ sup = {}, {"C06", "C01"} \cup If(x.str = 0, {"C04"}) \cup If(\E id \in hit : x.out[id].t = "LDS", {"C14"}), "a lookup waits for a cached resource")
    IN Check(x3, bad = {}, {"C05"}, "unknown kind not rejected immediately")

(* ------------------------------- policies ------------------------------ *)

CBCheck(x, s, p) ==
    LET get(n) == {p[i] : i \in {j \in 1..Len(p) : p[j].n = n}}
        okOf(n) ==
            LET g == get(n)
                is(l) == \E c \in g : c.en = l.en /\ (c.en => c.rate = l.rate /\ c.min = l.min)
            IN
            IF IF n \in DOMAIN s.opt THEN is(s.opt[n]) ELSE FALSE THEN TRUE
            ELSE IF n \in DOMAIN s.last
            THEN is(s.last[n])
            ELSE IF n \in s.conf THEN \E c \in g : ~c.en
            ELSE \A c \in g : ~c.en
        names == (s.conf \cup DOMAIN s.last \cup {p[i].n : i \in 1..Len(p)})
        bad == {n \in names : (n \in x.core.sub["CDS"] \/ n \notin DOMAIN s.last) /\ ~okOf(n)}
    IN Check(x, bad = {}, {"C16"} \cup If("nack" \in x.ctx, {"C02"}), "circuit breaker of " \o ToString(bad) \o ": " \o ToString({get(n) : n \in bad}) \o " expected " \o ToString(s.last) \o " disabled " \o ToString(s.conf))

RetryCheck(x, p) ==
    LET tabs == Range(x.core.cache["RDS"])
        want == RetryPolicies(tabs)
        old == RetryPolicies(x.gone)
        get(k) == {[times |-> p[i].times, dur |-> p[i].dur, rate |-> p[i].rate, bo |-> p[i].bo, lo |-> p[i].lo, hi |-> p[i].hi]
                     : i \in {j \in 1..Len(p) : p[j].n = k /\ p[j].en /\ p[j].kind = "failure"}}
        keys == {w.key : w \in want}
        have == {p[i].n : i \in {j \in 1..Len(p) : p[j].en}}
        cand(k) == {w.pol : w \in {z \in want \cup old : z.key = k}}
        optional(k) == \E w \in want : w.key = k /\ w.none
        missing == {k \in keys : ~optional(k) /\ get(k) = {}}
        wrong == {k \in have : get(k) = {} \/ ~(get(k) \subseteq cand(k))}
        ps == {"C17"} \cup If("nack" \in x.ctx, {"C02"})
    IN Check(Check(x, missing = {}, ps, "no retry policy for " \o ToString(missing)),
             wrong = {}, ps, "retry policy of " \o ToString({<<k, get(k)>> : k \in wrong}) \o " expected " \o ToString({<<k, cand(k)>> : k \in wrong}))

LimitCheck(x, s, p) ==
    LET want == IF s.served THEN {LimitOf(x.core.cache["LDS"], s.port)} ELSE s.ok
    IN Check(Check(x, p[1].qps \in want, {"C18"} \cup If("nack" \in x.ctx, {"C02"}), "limit " \o ToString(p[1].qps) \o " instead of " \o ToString(want)),
             p[1].conn = Unlimited, {"C18"}, "connections limited")

(* What calls meet, all of which fail: a breaker that is enabled opens once *)
(* the volume is reached; by default a breaker opens after 200 calls, and   *)
(* 120 are made.  A call with a retry policy is made again as often as the  *)
(* policy says (or less often, if there are pauses in between).             *)
Trips == 120
Passed(p) == IF p.en /\ p.min < Trips THEN {IF p.min = 0 THEN 1 ELSE p.min} ELSE {Trips}
Trip(x, s, l) ==
    LET opened(n) ==
            (IF n \in DOMAIN s.opt THEN Passed(s.opt[n]) ELSE {})
            \cup IF n \in DOMAIN s.last THEN Passed(s.last[n]) ELSE {Trips}
        pols(n) == {w \in RetryPolicies(Range(x.core.cache["RDS"])) \cup RetryPolicies(x.gone) : w.key = n}
        now(n) == {w \in RetryPolicies(Range(x.core.cache["RDS"])) : w.key = n}
        tries(n) == UNION {IF w.pol.bo = "none" THEN {1 + w.pol.times} ELSE 1..(1 + w.pol.times) : w \in pols(n)}
                    \cup IF now(n) = {} \/ (\E w \in now(n) : w.none) THEN {1} ELSE {}
        bad == {i \in DOMAIN l :
                  IF s.kind = "retry" THEN l[i].c \notin tries(l[i].n)
                  ELSE (l[i].n \in x.core.sub["CDS"] \/ l[i].n \notin DOMAIN s.last) /\ l[i].c \notin opened(l[i].n)}
        exp == {<<l[i].n, l[i].c, IF s.kind = "retry" THEN tries(l[i].n) ELSE opened(l[i].n)>> : i \in bad}
    IN Check(Count(x, "trip"), bad = {}, IF s.kind = "retry" THEN {"C17"} ELSE {"C16"},
             "calls that fail are " \o (IF s.kind = "retry" THEN "made" ELSE "passed on") \o ", and should be (cluster, times, allowed): " \o ToString(exp))

RECURSIVE PolCheck(_, _, _)
PolCheck(x, pol, i) ==
    IF i > Len(pol) \/ i > Len(x.suites) THEN x
    ELSE LET s == x.suites[i]
             x1 == CASE s.kind = "cb" -> CBCheck(x, s, pol[i].p)
                     [] s.kind = "retry" -> RetryCheck(x, pol[i].p)
                     [] s.kind = "cbi" -> x
                     [] OTHER -> LimitCheck(x, s, pol[i].p)
         IN PolCheck(Count(x1, "pol"), pol, i + 1)

OnQuiet(x, e) ==
    LET x0 == HandlersGiven(Supply(x, e.at))
        x1 == HandlersCurrent(Snap(x0, e))
        called == [t \in Types |-> CalledNames(x1, t)]
        x2 == [x1 EXCEPT !.core.sub = [t \in Types |-> @[t] \cup called[t]],
                         !.may = [t \in Types |-> @[t] \ (called[t] \cup x1.wdr[t])], !.wdr = ZeroT({})]
        x3 == ReqType(ReqType(ReqType(ReqType(ReqType(x2, "LDS"), "RDS"), "CDS"), "EDS"), "NDS")
        x4 == OutCheck(Settle(x3), e.at)
        x4b == [x4 EXCEPT !.ambRes = Empty,
                   !.suites = [i \in DOMAIN @ |-> IF @[i].kind = "limit" THEN [@[i] EXCEPT !.ok = @ \cup {LimitOf(x4.core.cache["LDS"], x4.suites[i].port)}] ELSE @[i]]]
        x5 == IF Has(e, "pol") THEN PolCheck(x4b, e.pol, 1) ELSE x4b
        live == x.str # 0 /\ ~x.core.dead /\ ~x.deaf
        x6 == Check(x5, x.str # 0 \/ x.core.dead \/ x.down \/ e.at - x.upAt < 95000000, {"C04"}, "no new stream although one can be opened")
    IN Count([x6 EXCEPT
                !.ctx = {}, !.par = FALSE,
                !.out = [id \in DOMAIN @ |-> [@[id] EXCEPT !.began = TRUE]],
                !.may = IF live THEN ZeroT({}) ELSE @,
                !.sw = IF live THEN ZeroT({}) ELSE @,
                !.base = [t \in Types |-> SubOf(x6, t)],
                !.credit = IF live THEN ZeroT(0) ELSE @,
                !.verOK = [t \in Types |-> {x6.core.ver[t]}],
                !.nonOK = [t \in Types |-> {"", x6.non[t]}]],
             "quiet")

(* -------------------------------- events ------------------------------- *)

LastStep(x) == x.ctx

OnBegin(x, e) ==
    LET first == IF x.cfg.nds THEN "NDS" ELSE "LDS"
    IN IF x.cfg.nds THEN [x EXCEPT !.core = Subscribe(@, "NDS", ""), !.credit["NDS"] = 1]
       ELSE IF x.cfg.lds THEN [x EXCEPT !.core = Subscribe(@, "LDS", Reserved), !.credit["LDS"] = 1]
       ELSE x

Stuck(x) == {"C07"} \cup If(DOMAIN x.out # {}, {"C05"}) \cup If(x.failed, {"C04"})

Apply(x, e) ==
    CASE e.e = "begin"    -> OnBegin(x, e)
      [] e.e = "ready"    -> Check([x EXCEPT !.ready = e.at], e.ok, {"C20"}, "initialisation failed")
      [] e.e = "open"     -> OnOpen(x, e)
      [] e.e = "openfail" -> Check(x, ~x.core.dead, {"C04"}, "stream opened after an authentication failure")
      [] e.e = "recv"     -> OnRecv(x, e)
      [] e.e = "req"      -> OnReq(x, e)
      [] e.e = "resp"     -> OnResp(x, e)
      [] e.e = "call"     -> OnCall(x, e)
      [] e.e = "cancel"   -> IF e.id \in DOMAIN x.out THEN [x EXCEPT !.out[e.id].dl = Min(@, e.at)] ELSE x
      [] e.e = "ret"      -> OnRet(x, e)
      [] e.e = "fail"     -> OnFail(x, e)
      [] e.e = "deaf"     -> [x EXCEPT !.deaf = TRUE, !.failed = TRUE]
      [] e.e = "down"     -> [x EXCEPT !.down = TRUE]
      [] e.e = "up"       -> [x EXCEPT !.down = FALSE, !.upAt = e.at]
      [] e.e = "reg"      -> OnReg(x, e)
      [] e.e = "regdone"  -> OnRegdone(x, e)
      [] e.e = "hdone"    -> OnHdone(x, e)
      [] e.e = "suite"    -> OnSuite(x, e)
      [] e.e = "trip"     -> Trip(x, x.suites[e.i], e.l)
      [] e.e = "sched"    -> [x EXCEPT !.par = TRUE]
      [] e.e = "serve"    -> [x EXCEPT !.suites = [i \in DOMAIN @ |-> [@[i] EXCEPT !.served = TRUE]]]
      [] e.e = "quiet"    -> OnQuiet(x, e)
      [] e.e = "hang"     -> V(x, Stuck(x), "the client hangs")
      [] e.e = "crash"    -> V(x, Stuck(x) \cup {"C13"}, "the process crashed")
      [] OTHER            -> x

Step(x, e) == Apply(IF Has(e, "at") THEN SweepTo(x, e.at) ELSE x, e)

Init == /\ tr \in 1..Len(Traces)
        /\ pos = 1
        /\ m = M0(Traces[tr].cfg)

Next == /\ pos <= Len(Traces[tr].ev)
        /\ pos' = pos + 1
        /\ tr' = tr
        /\ m' = Step(m, Traces[tr].ev[pos])
        /\ (pos = Len(Traces[tr].ev)) =>
              PrintT(<<"RESULT", ToJson([b |-> Traces[tr].b, viol |-> m'.viol, n |-> m'.n])>>)

Spec == Init /\ [][Next]_vars
=============================================================================
