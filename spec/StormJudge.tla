---------------------------- MODULE StormJudge -----------------------------
(***************************************************************************)
(* Decides whether what the goroutines of a storm observed can be explained *)
(* by some sequential order of their operations.  Contents have increasing  *)
(* numbers, so for each name the values must not go back, neither within a  *)
(* goroutine nor from an operation to one that starts later (at a later     *)
(* virtual time); they must have been configured by then; and when all is   *)
(* over everybody has the final contents.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Rows == ndJsonDeserialize(IOEnv.ROWS)

Has(r, f) == f \in DOMAIN r
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

(* Violations: <<index of the event, what is wrong>>. *)
Judge(row, ev) ==
    LET D == DOMAIN ev
        flawed == {i \in D : ev[i].e \in {"hang", "crash", "fail", "leak"}}
        Ops == {i \in D : ev[i].e = "op"}
        Gets == {i \in Ops : ev[i].k = "get"}
        Pushes == {i \in D : ev[i].e = "push"}
        Finals == {i \in D : ev[i].e = "final"}
        calm == row.style \in {"calm", "sweeps"}
        \* no value may be lost in these: nothing fails, is rejected or omitted
        final == [t \in {"LDS", "RDS", "CDS", "EDS"} |-> [n \in 0..row.names |-> Max({ev[p].c : p \in {q \in Pushes : ev[q].t = t /\ ev[q].n = n}} \cup {0})]]
        known(t, n, c, at) == \E p \in Pushes : ev[p].t = t /\ ev[p].n = n /\ ev[p].c = c /\ ev[p].at <= at
        newest(t, n, at) == Max({0} \cup {ev[p].c : p \in {q \in Pushes : ev[q].t = t /\ ev[q].n = n /\ ev[q].at < at}})
        before(i, j) == (ev[i].r < ev[j].r) \/ (ev[i].r = ev[j].r /\ (ev[i].t1 < ev[j].t0 \/ (ev[i].th = ev[j].th /\ i < j)))
        vals == {i \in Gets : ev[i].res = "val"}
        bad(S, P(_), why) == {<<j, why>> : j \in {q \in S : P(q)}}
    IN IF flawed # {}
       THEN {<<i, IF ev[i].e = "crash" /\ Has(ev[i], "race") /\ ev[i].race THEN "data race" ELSE ev[i].e>> : i \in {j \in flawed : ev[j].e # "leak"}}
       ELSE bad(Ops \cup Finals, LAMBDA i : ev[i].res \in {"panic", "both", "neither", "wrong", "placeholder"}, "a panic or no proper result")
       \cup bad(vals, LAMBDA i : ~known(ev[i].t, ev[i].n, ev[i].c, ev[i].t1), "a value that was never current")
       \cup bad(vals, LAMBDA i : \E j \in vals : ev[j].t = ev[i].t /\ ev[j].n = ev[i].n /\ ev[j].c > ev[i].c /\ before(j, i), "a stale value after a newer one")
       \cup bad(vals, LAMBDA i : calm /\ ev[i].c < newest(ev[i].t, ev[i].n, ev[i].t0), "a value that was replaced before the lookup")
       \cup bad({i \in Gets : ev[i].res = "err"}, LAMBDA i : calm, "a lookup fails though the resource is supplied")
       \cup bad({i \in Ops : ev[i].k = "find" /\ ev[i].res = "err"}, LAMBDA i : calm, "a resolution fails though the resources are supplied")
       \cup bad({i \in Ops : ev[i].k = "call"}, LAMBDA i : ev[i].res # "p" \o ToString(ev[i].n) /\ (calm \/ ev[i].res # "err"), "a call is routed wrongly")
       \cup bad({i \in vals : ev[i].seen >= 0}, LAMBDA i : ev[i].seen < ev[i].c /\ (ev[i].seen > 0 \/ row.style = "calm"), "a value is exposed before the handlers have it")
       \cup bad({i \in Finals : ev[i].k = "get"}, LAMBDA i : ev[i].res # "val" \/ ev[i].c # final[ev[i].t][ev[i].n], "a lookup after the storm")
       \cup bad({i \in Finals : ev[i].k = "find"}, LAMBDA i : ev[i].res # "val" \/ ev[i].c # final["CDS"][ev[i].n], "a resolution after the storm")
       \cup bad({i \in Finals : ev[i].k = "call"}, LAMBDA i : ev[i].res # "p" \o ToString(ev[i].n), "a call after the storm")
       \cup bad({i \in D : ev[i].e = "handler"}, LAMBDA i : \E k \in DOMAIN ev[i].l : ev[i].l[k].c # final[ev[i].t][ev[i].l[k].n], "a handler after the storm")
       \cup bad({i \in D : ev[i].e = "policy"}, LAMBDA i :
                  LET p == ev[i].p
                      at(n) == {k \in DOMAIN p : p[k].n = n}
                  IN CASE ev[i].kind = "cb" -> \E n \in 1..row.names : LET w == (final["CDS"][n] % 2) = 1 IN
                               (w /\ at("p" \o ToString(n)) = {}) \/ \E k \in at("p" \o ToString(n)) : p[k].en # w \/ (w /\ (p[k].rate # 500 \/ p[k].min # 10))
                       [] ev[i].kind = "retry" -> \E n \in 1..row.names : LET w == 1 + (final["RDS"][n] % 3) IN
                               at("q" \o ToString(n)) = {} \/ \E k \in at("q" \o ToString(n)) : p[k].times # w \/ ~p[k].en
                       [] OTHER -> p[1].qps # final["LDS"][0],
                "a policy after the storm")

Summary(ev) == [get |-> Cardinality({i \in DOMAIN ev : ev[i].e \in {"op", "final"} /\ ev[i].k = "get"}),
                op |-> Cardinality({i \in DOMAIN ev : ev[i].e = "op"}),
                push |-> Cardinality({i \in DOMAIN ev : ev[i].e = "push"})]

VARIABLES row_, done
Init == row_ \in 1..Len(Rows) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ row_' = row_
        /\ LET r == Rows[row_]
               vs == TLCEval(Judge(r.row, r.ev))
           IN PrintT(<<"RESULT", ToJson([b |-> r.b, n |-> Summary(r.ev), viol |-> {[at |-> v[1], p |-> "C07", why |-> v[2]] : v \in vs}])>>)
=============================================================================
