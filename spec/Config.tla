------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What the control plane says: abstract listeners, route tables, clusters, *)
(* load assignments and name tables, what they mean, and what follows from  *)
(* them for a call.                                                         *)
(*                                                                          *)
(*  listener : [n, chains: <<chain>>, dflt: <<>> or <<chain>>]              *)
(*  chain    : [port, filters: <<filter>>]          (port 0: no match)      *)
(*  filter   : [k: "http", rds, inline: <<>> or <<table>>, hf: <<hfilter>>] *)
(*             [k: "thrift", routes: <<troute>>], [k: "other"]              *)
(*  hfilter  : [k: "rl", max, fill], [k: "ts", max, fill],                  *)
(*             [k: "rlnone"], [k: "tsother"], [k: "router"]                 *)
(*  table    : [n, vhs: << [n, routes: <<route>>] >>]                       *)
(*  route    : [path: [k, v], hdrs: <<[h, k, v]>>, act, cl: <<[n, w]>>,     *)
(*              to (-1: none), rp]                                          *)
(*             act: "single" (one cluster), "weighted", "redirect"          *)
(*  troute   : [m, hdrs, act, cl]                                           *)
(*  rp       : [n (-1: none), ptt, pti, er, methods, base, max]             *)
(*             times in microseconds, er in per mille                       *)
(*  cluster  : [n, type, lb, svc, od: [th, vol] (-1: absent), inline: <<>>  *)
(*              or <<localities>>]                                          *)
(*  load assignment : [n, locs: << << [a, p, w] >> >>]                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Str

Has(r, k) == k \in DOMAIN r
SeqMap(f(_), sq) == TLCEval([i \in 1..Len(sq) |-> f(sq[i])])

RECURSIVE Concat(_)
Concat(sqs) == IF sqs = <<>> THEN <<>> ELSE Head(sqs) \o Concat(Tail(sqs))

Filter(sq, P(_)) == SelectSeq(sq, P)
SelectFirst(sq, P(_)) == LET f == SelectSeq(sq, P) IN IF f = <<>> THEN <<>> ELSE <<f[1]>>

(* ------------------------------ conditions ----------------------------- *)

DigitS == "0123456789"
Digits == {At(DigitS, i) : i \in 1..10}

(* The regular expressions in use, all anchored. *)
Regexes == {"^v[0-9]+$", "^(red|blue)$", "^gr[ae]y$", "^re.*$", "^$", "^.+$", "^Re.*$"}
RegexHolds(re, s) ==
    CASE re = "^v[0-9]+$"    -> HasPrefix(s, "v") /\ Len(s) > 1 /\ \A i \in 2..Len(s) : At(s, i) \in Digits
      [] re = "^(red|blue)$" -> s \in {"red", "blue"}
      [] re = "^gr[ae]y$"    -> s \in {"gray", "grey"}
      [] re = "^re.*$"       -> HasPrefix(s, "re")
      [] re = "^Re.*$"       -> HasPrefix(s, "Re")
      [] re = "^$"           -> s = ""
      [] re = "^.+$"         -> Len(s) > 0

HeaderHolds(c, md) ==
    IF c.h \notin DOMAIN md THEN FALSE
    ELSE CASE c.k = "exact"  -> md[c.h] = c.v
           [] c.k = "prefix" -> HasPrefix(md[c.h], c.v)
           [] c.k = "regex"  -> RegexHolds(c.v, md[c.h])

Supported == {"exact", "prefix", "regex"}
HeadersHold(hdrs, md) == \A i \in 1..Len(hdrs) : hdrs[i].k \in Supported => HeaderHolds(hdrs[i], md)

(* The path condition of an http route. *)
PathHolds(p, path) ==
    CASE p.k = "path"   -> p.v = path
      [] p.k = "prefix" -> p.v = "/"
      [] OTHER          -> FALSE
MethodHolds(m, method) == m = "" \/ m = method

(* ------------------------------- decoding ------------------------------ *)

(* The local rate limit bucket of a list of http filters: the first there is. *)
Buckets(hf) == Filter(hf, LAMBDA f : f.k \in {"rl", "ts"})
Bucket(hf) == IF Buckets(hf) = <<>> THEN [max |-> 0, fill |-> 0] ELSE [max |-> Buckets(hf)[1].max, fill |-> Buckets(hf)[1].fill]

DecCl(rt) == IF rt.act = "redirect" THEN <<>>
             ELSE IF rt.act = "single" THEN <<[n |-> rt.cl[1].n, w |-> 1]>>
             ELSE SeqMap(LAMBDA c : [n |-> c.n, w |-> c.w], rt.cl)
NoRp == [n |-> 0, ptt |-> 0, pti |-> 0, er |-> 0, methods |-> <<>>, base |-> -1, max |-> -1]
DecRp(rt) == IF rt.act = "redirect" \/ rt.rp.n < 0 THEN NoRp
             ELSE [[k \in DOMAIN NoRp |-> rt.rp[k]] EXCEPT !.max = IF rt.rp.base < 0 THEN -1 ELSE IF rt.rp.max < 0 THEN 0 ELSE rt.rp.max]
DecTo(rt) == IF rt.act = "redirect" \/ rt.to < 0 THEN 0 ELSE rt.to

(* Conditions are observed by what they hold for: the probes. *)
DecRoute(rt, probes) ==
    [paths |-> SeqMap(LAMBDA p : PathHolds(rt.path, p), probes.paths),
     metas |-> SeqMap(LAMBDA md : HeadersHold(rt.hdrs, md), probes.metas),
     cl |-> DecCl(rt), to |-> DecTo(rt), rp |-> DecRp(rt)]
DecThrift(rt, probes) ==
    [paths |-> SeqMap(LAMBDA p : MethodHolds(rt.m, p), probes.paths),
     metas |-> SeqMap(LAMBDA md : HeadersHold(rt.hdrs, md), probes.metas),
     cl |-> DecCl(rt), to |-> 0, rp |-> NoRp]
DecTable(t, probes) == SeqMap(LAMBDA v : [n |-> v.n, routes |-> SeqMap(LAMBDA r : DecRoute(r, probes), v.routes)], t.vhs)

DecFilter(f, port, probes) ==
    IF f.k = "thrift"
    THEN [k |-> "thrift", rc |-> "", port |-> port, max |-> 0, fill |-> 0, http |-> <<>>,
          thrift |-> <<SeqMap(LAMBDA r : DecThrift(r, probes), f.routes)>>]
    ELSE LET b == Bucket(f.hf) IN
         [k |-> "http", rc |-> IF f.inline # <<>> THEN f.inline[1].n ELSE f.rds, port |-> port, max |-> b.max, fill |-> b.fill,
          http |-> IF f.inline # <<>> THEN <<DecTable(f.inline[1], probes)>> ELSE <<>>, thrift |-> <<>>]
DecChain(c, port, probes) ==
    SeqMap(LAMBDA f : DecFilter(f, port, probes), Filter(c.filters, LAMBDA f : f.k # "other"))
DecListener(l, probes) ==
    [n |-> l.n, filters |-> Concat(SeqMap(LAMBDA c : DecChain(c, c.port, probes), l.chains) \o SeqMap(LAMBDA c : DecChain(c, 0, probes), l.dflt))]

AddrOf(e) == (IF Contains(e.a, ":") THEN "[" \o e.a \o "]" ELSE e.a) \o ":" \o ToString(e.p)
DecLocs(locs) == SeqMap(LAMBDA l : SeqMap(LAMBDA e : [addr |-> AddrOf(e), w |-> IF e.w < 0 THEN 0 ELSE e.w], l), locs)
DecCluster(c) ==
    [n |-> c.n, type |-> c.type, lb |-> c.lb, ep |-> IF c.svc = "" THEN c.n ELSE c.svc,
     od |-> IF c.od.th < 0 /\ c.od.vol < 0 THEN [th |-> -1, vol |-> -1]
            ELSE [th |-> IF c.od.th < 0 THEN 0 ELSE c.od.th, vol |-> IF c.od.vol < 0 THEN 0 ELSE c.od.vol],
     inline |-> IF c.inline = <<>> THEN <<>> ELSE <<DecLocs(c.inline[1])>>]
DecCla(c) == [n |-> c.n, locs |-> DecLocs(c.locs)]

(* ------------------------------ a call's route ------------------------- *)

(* call : [pkg, isvc, method, grpc, md]; the path it names. *)
Path(call) == "/" \o (IF call.pkg = "" THEN "" ELSE call.pkg \o ".") \o call.isvc \o "/" \o call.method

RoutesOf(table) == Concat(SeqMap(LAMBDA v : v.routes, table.vhs))
MatchTable(table, call) ==
    SelectFirst(RoutesOf(table), LAMBDA r : PathHolds(r.path, Path(call)) /\ HeadersHold(r.hdrs, call.md))
MatchThrift(routes, call) ==
    SelectFirst(routes, LAMBDA r : MethodHolds(r.m, call.method) /\ HeadersHold(r.hdrs, call.md))

FiltersOf(l) == Concat(SeqMap(LAMBDA c : c.filters, l.chains) \o SeqMap(LAMBDA c : c.filters, l.dflt))
OfKind(l, k) == LET fs == Filter(FiltersOf(l), LAMBDA f : f.k = k) IN IF fs = <<>> THEN <<>> ELSE <<fs[Len(fs)]>>

(* The http filter's inline table, and the name of the table to look up. *)
InlineOf(l) == LET h == OfKind(l, "http") IN IF h = <<>> THEN <<>> ELSE h[1].inline
NamedOf(l) == LET h == OfKind(l, "http") IN
              IF h = <<>> THEN "" ELSE IF h[1].inline # <<>> THEN h[1].inline[1].n ELSE h[1].rds

(* The route that the listener itself has for a call: <<route>> or <<>>. *)
OwnRoute(l, call) ==
    LET th == OfKind(l, "thrift")
        t1 == IF th = <<>> \/ call.grpc THEN <<>> ELSE MatchThrift(th[1].routes, call)
        t2 == IF InlineOf(l) = <<>> THEN <<>> ELSE MatchTable(InlineOf(l)[1], call)
    IN IF t1 # <<>> THEN <<t1[1] @@ [to |-> -1]>> ELSE t2

(* The clusters a route may pick, and with what weight. *)
RECURSIVE Sum(_)
Sum(ws) == IF ws = <<>> THEN 0 ELSE Head(ws) + Sum(Tail(ws))
Picks(rt) ==
    LET cl == DecCl(rt) IN
    IF Len(cl) = 1 THEN {cl[1].n}
    ELSE {cl[i].n : i \in {j \in 1..Len(cl) : cl[j].w > 0}}
WeightOf(rt, n) == LET cl == DecCl(rt) IN IF Len(cl) = 1 THEN 1 ELSE Sum(SeqMap(LAMBDA c : IF c.n = n THEN c.w ELSE 0, cl))
Total(rt) == LET cl == DecCl(rt) IN IF Len(cl) = 1 THEN 1 ELSE Sum(SeqMap(LAMBDA c : c.w, cl))

(* ------------------------------ resolution ----------------------------- *)

EpName(c) == IF c.svc = "" THEN c.n ELSE c.svc
Flat(locs) == Concat(DecLocs(locs))
=============================================================================
