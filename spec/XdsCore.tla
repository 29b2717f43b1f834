------------------------------ MODULE XdsCore ------------------------------
(***************************************************************************)
(* The xDS client of kitex-contrib/xds as a state machine: what it is       *)
(* subscribed to, which version it has accepted, what it serves, and how    *)
(* policies follow.  The operators are pure; they are used by the model     *)
(* (XdsModel), which TLC explores, and by the monitor of the real code's    *)
(* traces (XdsTrace).                                                       *)
(*                                                                          *)
(* A core is a record                                                       *)
(*   ver   : type -> last accepted version ("" if none)                     *)
(*   known : set of types that have been subscribed to                      *)
(*   sub   : type -> set of subscribed names (the interest set)             *)
(*   tab   : lower-case host -> sequence of addresses (the name table)      *)
(*   cache : type -> (name -> resource)                                     *)
(*   lds   : the listeners of the last accepted response, [got, res]        *)
(*   dead  : the control plane rejected our credentials                     *)
(* A resource is a record with at least n (name) and c (content id); one    *)
(* with a field bad cannot be decoded.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Str

Types    == {"LDS", "RDS", "CDS", "EDS", "NDS"}
Data     == {"LDS", "RDS", "CDS", "EDS"}
Full     == {"LDS", "CDS"}
Reserved == "virtualInbound"
Period   == 30000000     \* the expiry period, in microseconds

Empty == <<>>
Put(f, k, v) == (k :> v) @@ f
Del(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Range(f) == {f[x] : x \in DOMAIN f}
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Has(r, k) == k \in DOMAIN r
Get0(f, k) == IF k \in DOMAIN f THEN f[k] ELSE -1

(* ---------------------------- names and hosts -------------------------- *)

Expand(host, ns, dom) ==
    IF Contains(host, ".svc.") THEN host
    ELSE LET p == Split(host, ".") IN
         CASE Len(p) = 1 -> host \o "." \o ns \o ".svc." \o dom
           [] Len(p) = 2 -> host \o ".svc." \o dom
           [] Len(p) = 3 -> IF p[3] = "svc" THEN host \o "." \o dom ELSE host
           [] OTHER      -> host \o "." \o ns \o ".svc." \o dom

(* The address of a host, "" if the table does not know the host. *)
Address(tab, host, ns, dom) ==
    LET h  == Lower(host)
        fq == Lower(Expand(h, ns, dom))
        Known(x) == IF x \in DOMAIN tab THEN tab[x] # <<>> ELSE FALSE
    IN IF Known(fq) THEN tab[fq][1]
       ELSE IF Known(h) THEN tab[h][1] ELSE ""

(* The listener that serves host[:port], "" if there is none. *)
BoundTo(tab, name, ns, dom) ==
    LET p == Split(name, ":") IN
    IF Len(p) > 2 THEN ""
    ELSE LET a == Address(tab, p[1], ns, dom) IN
         IF a = "" THEN "" ELSE a \o "_" \o (IF Len(p) = 2 THEN p[2] ELSE "80")

Namespace == "default"
Domain    == "cluster.local"

(* The name under which the control plane sends the resource subscribed to as name. *)
WireName(cfg, tab, t, name) ==
    IF t = "LDS" /\ cfg.nds /\ name # Reserved THEN BoundTo(tab, name, Namespace, Domain) ELSE name

(* A name table as sent (a sequence of resources with a field tab of [host, ips]). *)
NameTable(res) ==
    LET rows == UNION {{res[i].tab[j] : j \in 1..Len(res[i].tab)} : i \in 1..Len(res)}
        hosts == {Lower(r.host) : r \in rows}
        exact(h) == {r \in rows : r.host = h}
        any(h) == {r \in rows : Lower(r.host) = h}
    IN TLCEval([h \in hosts |-> (CHOOSE r \in (IF exact(h) # {} THEN exact(h) ELSE any(h)) : TRUE).ips])

(* ------------------------------ the client ----------------------------- *)

Core0 == [ver |-> [t \in Types |-> ""], known |-> {}, sub |-> [t \in Types |-> {}],
          tab |-> Empty, cache |-> [t \in Data |-> Empty], lds |-> [got |-> FALSE, res |-> <<>>], dead |-> FALSE]

Subscribe(c, t, n) == [c EXCEPT !.known = @ \cup {t}, !.sub[t] = @ \cup {n}]

(* Can the response be decoded? *)
Decodes(t, res) ==
    /\ \A i \in 1..Len(res) : ~Has(res[i], "bad")
    /\ t = "NDS" => Len(res) > 0

(* Is the response processed at all? *)
Processed(c, t) == t \in c.known

(* The resources of a response that names, subscribed to as such, are served from. *)
Supplied(cfg, tab, t, names, res) ==
    LET byName(w) == {i \in 1..Len(res) : res[i].n = w}
        wire == TLCEval([n \in names |-> WireName(cfg, tab, t, n)])
        hit == {n \in names : wire[n] # "" /\ byName(wire[n]) # {}}
    IN TLCEval([n \in hit |-> res[CHOOSE i \in byName(wire[n]) : TRUE]])

(* A new name table binds the hosts to the listeners of the last accepted response. *)
Rebinds(cfg, c) == cfg.nds /\ c.lds.got

(* An accepted response. *)
Accept(cfg, c, t, ver, res) ==
    LET c1 == [c EXCEPT !.ver[t] = ver] IN
    IF t = "NDS" THEN
        LET tab == NameTable(res) IN
        [c1 EXCEPT !.tab = tab,
                   !.cache["LDS"] = IF Rebinds(cfg, c) THEN Supplied(cfg, tab, "LDS", c.sub["LDS"], c.lds.res) ELSE @]
    ELSE LET up == Supplied(cfg, c.tab, t, c.sub[t], res) IN
         [c1 EXCEPT !.cache[t] = IF t \in Full THEN up ELSE up @@ @,
                    !.lds = IF t = "LDS" THEN [got |-> TRUE, res |-> res] ELSE @]

(* A response, accepted or not. *)
Respond(cfg, c, t, ver, res) ==
    IF ~Processed(c, t) \/ ~Decodes(t, res) THEN c ELSE Accept(cfg, c, t, ver, res)

Evict(c, t, n) == [c EXCEPT !.sub[t] = @ \ {n}, !.cache[t] = Del(@, {n})]

(* ------------------------------- policies ------------------------------ *)

(* The circuit breaker configuration of the clusters an update carries: those with outlier detection. *)
HasOD(r) == IF Has(r, "od") THEN r.od.th >= 0 ELSE FALSE
CBOf(r) == IF r.od.th > 0 /\ r.od.vol > 0
           THEN [en |-> TRUE, rate |-> r.od.th * 10, min |-> r.od.vol]
           ELSE [en |-> FALSE, rate |-> 0, min |-> 0]
CBPolicies(up) == [n \in {x \in DOMAIN up : HasOD(up[x])} |-> CBOf(up[n])]

(* The retry policy of a route: rp = [n, ptt, er, methods, base, max], n < 0: none. *)
RetryOf(rp) ==
    LET p == IF rp.n < 0 THEN [n |-> 0, ptt |-> 0, er |-> 0, base |-> -1, max |-> -1] ELSE rp
        bo == IF p.base < 0 THEN "none" ELSE IF p.max > p.base THEN "random" ELSE "fixed"
    IN [times |-> p.n, dur |-> p.n * p.ptt,
        rate |-> IF p.er > 0 THEN p.er ELSE 100,     \* kitex's default ceiling is 10%
        bo |-> bo, lo |-> IF bo = "none" THEN -1 ELSE p.base, hi |-> IF bo = "random" THEN p.max ELSE -1]

(* The set of [key, pol] derived from route tables (a set of resources). *)
RetryPolicies(tables) ==
    UNION {UNION {LET rt == r.routes[i]
                      cls == {rt.cl[k] : k \in 1..Len(rt.cl)}
                      ms == IF rt.rp.n < 0 THEN {} ELSE {rt.rp.methods[k] : k \in 1..Len(rt.rp.methods)}
                      pol == RetryOf(rt.rp)
                  IN {[key |-> cl, pol |-> pol, none |-> rt.rp.n < 0] : cl \in cls}
                     \cup {[key |-> cl \o "|" \o m, pol |-> pol, none |-> FALSE] : cl \in cls, m \in ms}
                  : i \in 1..Len(r.routes)}
           : r \in {x \in tables : Has(x, "routes")}}

Unlimited == -1
LimitOf(cache, port) ==
    IF Reserved \notin DOMAIN cache THEN Unlimited
    ELSE LET r  == cache[Reserved]
             cs == IF Has(r, "chains") THEN {r.chains[i] : i \in 1..Len(r.chains)} ELSE {}
             of(p) == {x \in cs : x.port = p}
             tok == IF of(port) # {} THEN (CHOOSE x \in of(port) : TRUE).tok
                    ELSE IF of(0) # {} THEN (CHOOSE x \in of(0) : TRUE).tok ELSE 0
         IN IF tok <= 0 THEN Unlimited ELSE tok
=============================================================================
