------------------------------- MODULE XdsConc ------------------------------
(***************************************************************************)
(* The client at the granularity of its locks: what happens between the     *)
(* steps of XdsModel.  Lookups, the receiver, the sender, the cleaner and   *)
(* registrations of update handlers are threads; the write lock of the      *)
(* manager is held over the critical sections, the request queue and the    *)
(* streams are explicit.  TLC explores all interleavings of small           *)
(* scenarios, checks the invariants below and prints one schedule for each  *)
(* transition; the schedules are forced on the real client by stopping its  *)
(* goroutines where they stop here.                                         *)
(*                                                                          *)
(* A step is an action of the environment, or the decision to let a stopped *)
(* thread go on; everything that can go on without such a decision does so  *)
(* first, in any order (Internal).                                          *)
(*                                                                          *)
(* One resource type (Full says whether a response lists all resources);    *)
(* names are subscribed to, versions and nonces are the numbers of the      *)
(* responses, values the content ids.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scen   == IOEnv.SCEN
TailN  == atoi(IOEnv.TAIL)
MaxLen == atoi(IOEnv.DEPTH)

VARIABLES s, hist
vars == <<s, hist>>

Empty == <<>>
Put(f, k, v) == (k :> v) @@ f
Del(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Min(a, b) == IF a <= b THEN a ELSE b

(* ------------------------------- scenarios ----------------------------- *)

(* names of the lookups of the schedule (by id), which of them may be       *)
(* cancelled, the responses (names carried; "!" cannot be decoded), how     *)
(* often the stream fails, whether the sweep comes, handlers registered     *)
(* before and during the schedule; the names cached before it.              *)
S(type, names, canc, resps, fails, sweep, h0, hs, warm, gate, stops) ==
    [type |-> type, names |-> names, canc |-> canc, resps |-> resps, fails |-> fails, sweep |-> sweep, h0 |-> h0, hs |-> hs,
     warm |-> warm, gate |-> gate, stops |-> stops]

GetStops == {"get.miss", "get.wait", "get.woken", "get.timeout"}
UpdStops == {"update", "update.selected"}

Table ==
    [wake   |-> S("CDS", <<"a", "a">>, {1}, <<{"a"}>>, 0, FALSE, 0, 0, {}, FALSE, GetStops \cup UpdStops),
     wake2  |-> S("RDS", <<"a", "b">>, {1, 2}, <<{"a"}, {"a", "b"}>>, 0, FALSE, 0, 0, {}, FALSE, GetStops \cup {"update"}),
     wake3  |-> S("EDS", <<"a", "a", "a">>, {1, 2}, <<{"a"}>>, 0, FALSE, 0, 0, {}, FALSE, GetStops),
     remove |-> S("CDS", <<"a", "a">>, {1}, <<{"a"}, {}>>, 0, FALSE, 0, 0, {}, FALSE, {"get.miss", "get.woken", "get.timeout", "update"}),
     nack   |-> S("CDS", <<"a", "a">>, {1}, <<{"!"}, {"a"}>>, 0, FALSE, 0, 0, {}, FALSE, GetStops),
     evict  |-> S("CDS", <<"a">>, {}, <<{"a"}, {"a", "b"}>>, 0, TRUE, 0, 0, {"a"}, FALSE, {"get.miss", "get.wait", "get.woken", "update", "update.selected", "sweep"}),
     evictr |-> S("RDS", <<"a", "b">>, {}, <<{"a", "b"}>>, 0, TRUE, 0, 0, {"a", "b"}, FALSE, {"get.miss", "get.woken", "update", "update.selected", "sweep"}),
     reconn |-> S("CDS", <<"b", "c">>, {}, <<{"a", "b"}>>, 1, FALSE, 0, 0, {"a"}, TRUE, {"get.miss", "reconnect.reset", "resub", "update", "send"}),
     again  |-> S("EDS", <<"b">>, {1}, <<{"a"}, {"a", "b"}>>, 2, FALSE, 0, 0, {"a"}, FALSE, {"get.miss", "reconnect.reset", "resub", "update"}),
     lost   |-> S("CDS", <<"a", "b">>, {}, <<{"a"}>>, 1, TRUE, 0, 0, {"a"}, TRUE, {"get.miss", "reconnect.reset", "resub", "sweep", "send"}),
     reg    |-> S("CDS", <<"a", "b">>, {}, <<{"a", "b"}, {"b"}>>, 0, FALSE, 0, 1, {"a"}, FALSE, {"get.miss", "get.woken", "update", "update.selected", "handler"}),
     policy |-> S("RDS", <<"a", "b">>, {}, <<{"a", "b"}>>, 0, FALSE, 1, 1, {"a"}, FALSE, {"get.miss", "get.wait", "get.woken", "update", "handler"}),
     policy2 |-> S("CDS", <<"a", "b">>, {2}, <<{"a", "b"}>>, 0, FALSE, 2, 0, {"a"}, FALSE, {"get.miss", "get.wait", "get.woken", "get.timeout", "update.selected", "handler"}),
     regev  |-> S("EDS", <<"a">>, {}, <<{"a"}>>, 0, TRUE, 1, 1, {"a"}, FALSE, {"get.miss", "update", "update.selected", "handler", "sweep"}),
     all    |-> S("CDS", <<"a", "b", "a">>, {1}, <<{"a", "b"}, {"b"}>>, 1, TRUE, 0, 1, {"a"}, FALSE,
                  GetStops \cup UpdStops \cup {"reconnect.reset", "resub", "handler", "sweep"})]
P == Table[Scen]
Full == P.type \in {"CDS", "LDS"}

(* --------------------------------- state ------------------------------- *)

(* lookups are identified by the index in P.names *)
NL == Len(P.names)
LK0 == [pc |-> "-", canc |-> FALSE, nf |-> 0, res |-> [k |-> "-", c |-> 0], sup |-> FALSE]

WarmSeq == IF P.warm = {} THEN <<>> ELSE IF P.warm = {"a"} THEN <<"a">> ELSE <<"a", "b">>
NW == Len(WarmSeq)
WarmCid == [n \in P.warm |-> CHOOSE i \in 1..NW : WarmSeq[i] = n]
V0 == IF P.warm = {} THEN 0 ELSE 1

S0 == [
    lock  |-> "",                 \* who holds the lock of the manager
    cache |-> WarmCid, known |-> P.warm # {},
    sub   |-> P.warm, asked |-> P.warm # {},    \* asked: the type has been subscribed to
    stale |-> P.warm, meta |-> P.warm,
    ver   |-> V0, non |-> V0,
    nfs   |-> Empty,              \* notifiers: id -> [n, waiters, done, c]
    cur   |-> Empty,              \* name -> its notifier
    lk    |-> [i \in 1..NL |-> LK0],
    rpc   |-> "recv", rresp |-> 0, up |-> Empty, hi |-> 0,     \* the receiver
    inq   |-> <<>>, nresp |-> 0,
    str   |-> 1, alive |-> TRUE, rstr |-> 1, strch |-> 0, fails |-> 0,
    reqq  |-> <<>>, spc |-> "idle", sreq |-> [none |-> TRUE], sstr |-> 1,
    wire  |-> IF P.warm = {} THEN <<>> ELSE <<[names |-> P.warm, ver |-> V0, nonce |-> V0, s |-> 1]>>,
    wasked |-> IF P.warm = {} THEN {} ELSE {1},                \* streams on which the type has been asked for
    cpc   |-> "-",
    nh    |-> P.h0, gpc |-> [h \in 1..P.h0 + P.hs |-> IF h <= P.h0 THEN "done" ELSE "-"],
    seen  |-> [h \in 1..P.h0 + P.hs |-> {<<n, WarmCid[n]>> : n \in IF h <= P.h0 THEN P.warm ELSE {}}],
    hs    |-> {h \in 1..P.h0 : TRUE}]

Stops(p) == p \in P.stops
(* The content id of a name in the i-th response. *)
Names == {"a", "b", "c"}
Num(n) == CASE n = "a" -> 1 [] n = "b" -> 2 [] OTHER -> 3
CidOf(i, n) == NW + 3 * (i - 1) + Num(n)
NonceOf(i) == V0 + i
Bad(i) == "!" \in P.resps[i]

Queue(x) == [x EXCEPT !.reqq = Append(@, [names |-> x.sub, ver |-> x.ver, nonce |-> x.non])]

(* ------------------------------ internal steps ------------------------- *)

Done(x, i, k, c) == [x EXCEPT !.lk[i].pc = "done", !.lk[i].res = [k |-> k, c |-> c]]
Touch(x, n) == [x EXCEPT !.stale = @ \ {n}]

(* A lookup that wants the lock, or waits. *)
Lookup(x, i) ==
    LET n == P.names[i]  l == x.lk[i] IN
    CASE l.pc = "read" /\ x.lock = "" ->
            {IF n \in DOMAIN x.cache THEN Touch(Done(x, i, "val", x.cache[n]), n)
             ELSE [x EXCEPT !.lk[i].pc = IF Stops("get.miss") THEN "miss" ELSE "reg", !.stale = @ \ {n}]}
      [] l.pc = "reg" /\ x.lock = "" ->
            {IF n \in DOMAIN x.cache THEN Done(x, i, "val", x.cache[n])
             ELSE LET new == n \notin DOMAIN x.cur
                      id == IF new THEN Cardinality(DOMAIN x.nfs) + 1 ELSE x.cur[n]
                      y == IF new THEN Queue([x EXCEPT !.cur = Put(@, n, id), !.nfs = Put(@, id, [n |-> n, w |-> 0, done |-> FALSE, c |-> 0]),
                                                       !.sub = @ \cup {n}, !.asked = TRUE])
                           ELSE x
                  IN [y EXCEPT !.nfs[id].w = @ + 1, !.lk[i].nf = id, !.lk[i].pc = IF Stops("get.wait") THEN "wait" ELSE "select"]}
      [] l.pc = "select" ->
            {[x EXCEPT !.lk[i].pc = IF Stops("get.woken") THEN "woken" ELSE "reread"] : d \in IF x.nfs[l.nf].done THEN {1} ELSE {}}
            \cup {[x EXCEPT !.lk[i].pc = IF Stops("get.timeout") THEN "timeout" ELSE "givenup"] : d \in IF l.canc THEN {1} ELSE {}}
      [] l.pc = "givenup" /\ x.lock = "" ->
            {IF x.nfs[l.nf].done THEN [x EXCEPT !.lk[i].pc = "reread"]
             ELSE Done([x EXCEPT !.nfs[l.nf].w = @ - 1, !.cur = IF x.nfs[l.nf].w = 1 THEN Del(@, {n}) ELSE @], i, "err", 0)}
      [] l.pc = "reread" /\ x.lock = "" ->
            {IF n \in DOMAIN x.cache THEN Touch(Done(x, i, "val", x.cache[n]), n) ELSE Done(x, i, "val", x.nfs[l.nf].c)}
      [] OTHER -> {}

(* The receiver holds the lock: the handlers are done, the cache is written and the lookups are woken. *)
Publish(x) ==
    LET hit == {n \in DOMAIN x.cur : n \in DOMAIN x.up}
        ids == {x.cur[n] : n \in hit}
    IN [x EXCEPT !.lock = "", !.rpc = "recv", !.known = TRUE,
                 !.cache = IF Full THEN x.up ELSE x.up @@ @,
                 !.meta = @ \cup DOMAIN x.up,
                 !.cur = Del(@, hit),
                 !.nfs = [id \in DOMAIN @ |-> IF id \in ids THEN [@[id] EXCEPT !.done = TRUE, !.c = x.up[x.nfs[id].n]] ELSE @[id]],
                 !.lk = [i \in DOMAIN @ |-> IF @[i].nf \in ids /\ @[i].pc \in {"wait", "select"} /\ ~@[i].canc THEN [@[i] EXCEPT !.sup = TRUE] ELSE @[i]]]

(* The next handler, in the order of registration. *)
Handlers(x) == IF x.hi >= x.nh THEN Publish(x)
               ELSE IF Stops("handler") THEN [x EXCEPT !.rpc = "handler", !.hi = @ + 1]
               ELSE [x EXCEPT !.rpc = "handled", !.hi = @ + 1]
Current(x) == IF Full THEN x.up ELSE x.up @@ x.cache
Handled(x) == Handlers([x EXCEPT !.seen[x.hi] = @ \cup {<<n, Current(x)[n]>> : n \in DOMAIN Current(x)}])

Receiver(x) ==
    CASE x.rpc = "recv" /\ ~x.alive /\ x.rstr = x.str ->      \* Recv fails: a new stream
            {LET y == [x EXCEPT !.str = @ + 1, !.alive = TRUE, !.rstr = x.str + 1, !.inq = <<>>, !.non = 0, !.reqq = <<>>]
             IN IF Stops("reconnect.reset") THEN [y EXCEPT !.rpc = "reset"] ELSE [y EXCEPT !.strch = y.str]}
      [] x.rpc = "recv" /\ x.alive /\ x.inq # <<>> /\ (x.asked => x.str \in x.wasked) ->
            {LET r == Head(x.inq)
                 y == [x EXCEPT !.inq = Tail(@), !.rresp = r]
             IN IF ~x.asked THEN y
                ELSE IF Bad(r) THEN Queue([y EXCEPT !.non = NonceOf(r)])
                ELSE [Queue([y EXCEPT !.non = NonceOf(r), !.ver = NonceOf(r)]) EXCEPT !.rpc = IF Stops("update") THEN "update" ELSE "enter"]}
      [] x.rpc = "enter" /\ x.lock = "" ->
            {LET y == [x EXCEPT !.lock = "R", !.hi = 0,
                                !.up = [n \in {m \in P.resps[x.rresp] : m \in x.sub} |-> CidOf(x.rresp, n)]]
             IN IF Stops("update.selected") THEN [y EXCEPT !.rpc = "selected"] ELSE Handlers(y)}
      [] x.rpc = "handled" -> {Handled(x)}
      [] OTHER -> {}

ToWire(x, st, r) == [x EXCEPT !.wire = Append(@, r @@ [s |-> st]), !.wasked = @ \cup {st}]

Sender(x) ==
    (IF x.spc = "idle" /\ x.strch # 0
     THEN {IF Stops("resub") THEN [x EXCEPT !.spc = "resub", !.sstr = x.strch, !.strch = 0] ELSE [x EXCEPT !.spc = "asking", !.sstr = x.strch, !.strch = 0]}
     ELSE {})
    \cup
    (IF x.spc = "idle" /\ x.reqq # <<>>
     THEN {LET r == Head(x.reqq)  y == [x EXCEPT !.reqq = Tail(@)]
           IN IF x.sstr = 0 THEN y
              ELSE IF P.gate /\ x.sstr = 1 THEN [y EXCEPT !.spc = "send", !.sreq = r]
              ELSE IF x.alive /\ x.sstr = x.str THEN ToWire(y, x.sstr, r) ELSE [y EXCEPT !.sstr = 0]}
     ELSE {})
    \cup
    (IF x.spc = "sending"
     THEN {IF x.alive /\ x.sstr = x.str THEN ToWire([x EXCEPT !.spc = "idle"], x.sstr, x.sreq) ELSE [x EXCEPT !.spc = "idle", !.sstr = 0]}
     ELSE {})
    \cup
    (IF x.spc = "asking"
     THEN {IF ~x.asked THEN [x EXCEPT !.spc = "idle"]
           ELSE IF x.alive /\ x.sstr = x.str THEN ToWire([x EXCEPT !.spc = "idle"], x.sstr, [names |-> x.sub, ver |-> x.ver, nonce |-> x.non])
           ELSE [x EXCEPT !.spc = "idle", !.sstr = 0]}
     ELSE {})

RECURSIVE EvictAll(_, _)
EvictAll(x, ns) ==
    IF ns = {} THEN x
    ELSE LET n == CHOOSE m \in ns : TRUE
         IN EvictAll(Queue([x EXCEPT !.cache = Del(@, {n}), !.meta = @ \ {n}, !.sub = @ \ {n}]), ns \ {n})

Cleaner(x) == IF x.cpc = "clean" /\ x.lock = "" THEN {[EvictAll(x, x.stale \cap x.meta) EXCEPT !.cpc = "done"]} ELSE {}

Registration(x, h) ==
    IF x.gpc[h] = "want" /\ x.lock = ""
    THEN {LET y == [x EXCEPT !.nh = @ + 1, !.hs = @ \cup {h}]
          IN IF ~x.known THEN [y EXCEPT !.gpc[h] = "done"]
             ELSE IF Stops("handler") THEN [y EXCEPT !.lock = "G", !.gpc[h] = "in"]
             ELSE [y EXCEPT !.gpc[h] = "done", !.seen[h] = {<<n, x.cache[n]>> : n \in DOMAIN x.cache}]}
    ELSE {}

Internal(x) == UNION {Lookup(x, i) : i \in 1..NL} \cup Receiver(x) \cup Sender(x) \cup Cleaner(x)
               \cup UNION {Registration(x, h) : h \in P.h0 + 1..P.h0 + P.hs}

(* -------------------------------- schedules ---------------------------- *)

Go(who) == [op |-> "go", who |-> who]
Id(i) == 100 + i
Who(i) == "L" \o ToString(Id(i))

(* Lookups of the same name are started in order. *)
MayStart(x, i) == x.lk[i].pc = "-" /\ \A j \in 1..i - 1 : P.names[j] = P.names[i] => x.lk[j].pc # "-"

(* Whether a response is ignored, as its type has not been asked for, does not depend on a lookup that is just starting. *)
RespOp(i) ==
    [op |-> "resp", t |-> P.type, ver |-> "v" \o ToString(NonceOf(i)), nonce |-> "n" \o ToString(NonceOf(i)), i |-> i]

Moves(x) ==
    UNION {
        {<<[op |-> "lookup", id |-> Id(i), t |-> P.type, n |-> P.names[i], ctx |-> 0], [x EXCEPT !.lk[i].pc = "read"]>> : d \in IF MayStart(x, i) THEN {1} ELSE {}}
        \cup {<<Go(Who(i)), [x EXCEPT !.lk[i].pc = CASE x.lk[i].pc = "miss" -> "reg" [] x.lk[i].pc = "wait" -> "select"
                                                     [] x.lk[i].pc = "woken" -> "reread" [] OTHER -> "givenup"]>>
              : d \in IF x.lk[i].pc \in {"miss", "wait", "woken", "timeout"} THEN {1} ELSE {}}
        \cup {<<[op |-> "cancel", id |-> Id(i)], [x EXCEPT !.lk[i].canc = TRUE]>>
              : d \in IF i \in P.canc /\ ~x.lk[i].canc /\ x.lk[i].pc \in {"miss", "reg", "wait", "select"} THEN {1} ELSE {}}
        : i \in 1..NL}
    \cup {<<RespOp(x.nresp + 1), [x EXCEPT !.nresp = @ + 1, !.inq = IF x.alive THEN Append(@, x.nresp + 1) ELSE @]>>
          : d \in IF x.nresp < Len(P.resps) /\ (x.asked \/ \A i \in 1..NL : x.lk[i].pc = "-") THEN {1} ELSE {}}
    \cup {<<[op |-> "fail"], [x EXCEPT !.alive = FALSE, !.fails = @ + 1]>> : d \in IF x.fails < P.fails /\ x.alive THEN {1} ELSE {}}
    \cup {<<[op |-> "tick", ms |-> 1000], [x EXCEPT !.cpc = IF Stops("sweep") THEN "sweep" ELSE "clean"]>>
          : d \in IF P.sweep /\ x.cpc = "-" /\ x.lock = "" THEN {1} ELSE {}}
    \cup {<<[op |-> "reg", t |-> P.type], [x EXCEPT !.gpc[h] = "want"]>>
          : h \in {g \in P.h0 + 1..P.h0 + P.hs : x.gpc[g] = "-" /\ \A f \in P.h0 + 1..g - 1 : x.gpc[f] # "-"}}
    \cup (CASE x.rpc = "update"   -> {<<Go("R"), [x EXCEPT !.rpc = "enter"]>>}
            [] x.rpc = "selected" -> {<<Go("R"), Handlers(x)>>}
            [] x.rpc = "reset"    -> {<<Go("R"), [x EXCEPT !.rpc = "recv", !.strch = x.str]>>}
            [] x.rpc = "handler"  -> {<<Go("H" \o ToString(x.hi)), Handled(x)>>}
            [] OTHER -> {})
    \cup (CASE x.spc = "resub" -> {<<Go("S"), [x EXCEPT !.spc = "asking"]>>}
            [] x.spc = "send"  -> {<<Go("S"), [x EXCEPT !.spc = "sending"]>>}
            [] OTHER -> {})
    \cup (IF x.cpc = "sweep" THEN {<<Go("C"), [x EXCEPT !.cpc = "clean"]>>} ELSE {})
    \cup {<<Go("H" \o ToString(h)), [x EXCEPT !.gpc[h] = "done", !.lock = "", !.seen[h] = {<<n, x.cache[n]>> : n \in DOMAIN x.cache}]>>
          : h \in {g \in DOMAIN x.gpc : x.gpc[g] = "in"}}

(* ------------------------------- histories ----------------------------- *)

Res(t, n, c) ==
    LET base == [n |-> n, c |-> c] IN
    CASE t = "CDS" -> base @@ [od |-> [th |-> 20, vol |-> c, z |-> 0]]
      [] t = "RDS" -> base @@ [routes |-> <<[cl |-> <<"k" \o n>>, rp |-> [n |-> 2, ptt |-> 100 + c, er |-> 50, methods |-> <<>>, base |-> 25, max |-> -1]]>>]
      [] OTHER -> base
Carried(i) == LET ns == P.resps[i] IN
    IF Bad(i) THEN <<Res(P.type, "a", CidOf(i, "a")) @@ [bad |-> "bytes"]>>
    ELSE (IF "a" \in ns THEN <<Res(P.type, "a", CidOf(i, "a"))>> ELSE <<>>) \o (IF "b" \in ns THEN <<Res(P.type, "b", CidOf(i, "b"))>> ELSE <<>>)
         \o (IF "c" \in ns THEN <<Res(P.type, "c", CidOf(i, "c"))>> ELSE <<>>)
Op(st) == IF st.op = "resp" THEN [k \in (DOMAIN st \ {"i"}) \cup {"res"} |-> IF k = "res" THEN Carried(st.i) ELSE st[k]] ELSE st

Adv(ms) == [op |-> "adv", ms |-> ms]
Suite == IF P.type = "CDS" THEN <<[op |-> "suite", kind |-> "cb", port |-> -1]>>
         ELSE IF P.type = "RDS" THEN <<[op |-> "suite", kind |-> "retry", port |-> -1]>> ELSE <<>>
Prefix ==
    (IF P.sweep THEN <<Adv(20011)>> ELSE <<>>) \o Suite
    \o [i \in 1..NW |-> [op |-> "lookup", id |-> i, t |-> P.type, n |-> WarmSeq[i], ctx |-> 0]]
    \o (IF NW = 0 THEN <<>> ELSE <<[op |-> "resp", t |-> P.type, ver |-> "v1", nonce |-> "n1", res |-> [i \in 1..NW |-> Res(P.type, WarmSeq[i], i)]]>>)
    \o (IF P.sweep THEN <<Adv(39000)>> ELSE <<>>)
Last == NonceOf(Len(P.resps)) + 1
Suffix ==
    [i \in 1..3 |-> [op |-> "lookup", id |-> 200 + i, t |-> P.type, n |-> <<"a", "b", "c">>[i], ctx |-> 0]]
    \o <<[op |-> "resp", t |-> P.type, ver |-> "v" \o ToString(Last), nonce |-> "n" \o ToString(Last),
          res |-> <<Res(P.type, "a", 50), Res(P.type, "b", 51), Res(P.type, "c", 52)>>], Adv(3001)>>

Regs == [h \in 1..P.h0 |-> [op |-> "slowreg", t |-> P.type]]
History(h) == [cfg |-> [nds |-> FALSE, lds |-> FALSE, timeout |-> 3000, soft |-> P.sweep],
               steps |-> Prefix \o Regs \o <<[op |-> "sched", stops |-> P.stops, gate |-> P.gate, steps |-> [i \in 1..Len(h) |-> Op(h[i])]]>> \o Suffix]

(* -------------------------------- the model ---------------------------- *)

LastMoves == [i \in 1..Min(TailN, Len(hist)) |-> hist[Len(hist) + 1 - i]]
View == <<s, LastMoves>>

Init == s = S0 /\ hist = <<>>
Next == LET I == TLCEval(Internal(s)) IN
        IF I # {} THEN s' \in I /\ hist' = hist
        ELSE \E mv \in Moves(s) :
               /\ Len(hist) < MaxLen
               /\ s' = mv[2]
               /\ hist' = Append(hist, mv[1])
               /\ PrintT(<<"GEN", ToJson(History(hist'))>>)
Spec == Init /\ [][Next]_vars

(* ------------------------------- invariants ---------------------------- *)

Free(x) == x.lock = ""
Settled(x) == Internal(x) = {}
Idle(x) == Settled(x) /\ x.rpc = "recv" /\ x.spc = "idle" /\ x.alive /\ x.cpc \in {"-", "done"}
           /\ \A i \in 1..NL : x.lk[i].pc \in {"-", "select", "done"}

(* Nothing is cached that is not subscribed, whatever the sweep and the updates do at the same time. *)
C01 == Free(s) => DOMAIN s.cache \subseteq s.sub

(* The last request names the interest set once nothing is under way; a request never names anything else than it was then. *)
LastOf(x) == {x.wire[i] : i \in {j \in 1..Len(x.wire) : x.wire[j].s = x.str /\ \A k \in j + 1..Len(x.wire) : x.wire[k].s # x.str}}
C03 == (Idle(s) /\ s.asked /\ s.inq = <<>>) => \E r \in LastOf(s) : r.names = s.sub /\ r.ver = s.ver /\ r.nonce = s.non

(* On a new stream the first request has no nonce, and no request has one of another stream. *)
C04 == \A i \in 1..Len(s.wire) :
    (s.wire[i].s > 1 /\ \A j \in 1..i - 1 : s.wire[j].s # s.wire[i].s) => s.wire[i].nonce = 0

(* A lookup that waits has a notifier that is registered or has been notified. *)
C06 == \A i \in 1..NL :
    LET l == s.lk[i]  n == P.names[i] IN
    /\ l.pc \in {"wait", "select"} =>
         (s.nfs[l.nf].done \/ (n \in DOMAIN s.cur /\ s.cur[n] = l.nf /\ n \in s.sub /\ (Free(s) => n \notin DOMAIN s.cache)))
    /\ (l.pc = "done" /\ l.sup) => l.res.k = "val"
    /\ (l.pc = "done" /\ l.res.k = "err") => l.canc
    /\ (l.pc = "done" /\ l.res.k = "val") => l.res.c > 0

(* What can be looked up has been given to all handlers. *)
C07 == Free(s) => \A h \in s.hs : s.gpc[h] = "done" => \A n \in DOMAIN s.cache : <<n, s.cache[n]>> \in s.seen[h]

(* A lookup is never left without an outcome when nothing can go on. *)
C05 == (Settled(s) /\ Moves(s) = {}) => \A i \in 1..NL : s.lk[i].pc \in {"done", "select"} /\ (s.lk[i].canc => s.lk[i].pc = "done")
=============================================================================
