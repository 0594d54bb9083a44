------------------------------- MODULE DnsReq -------------------------------
(***************************************************************************)
(* The background resolver (lib/dnsthread) as its user sees it.  Slots name *)
(* resolver threads; requests have unique identifiers, and the request id  *)
(* asks for the address of a name which only this request uses.            *)
(* Thread 0 is the event loop's.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES sl,           \* slot -> "live" or "dead"
          rq,           \* request -> [slot, st, ans]
          op            \* what thread 0 is doing: "", "req", "kill", "spawn"
dvars == <<sl, rq, op>>

DInit == sl = [x \in {} |-> ""] /\ rq = [x \in {} |-> 0] /\ op = ""
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Pend(s) == {i \in DOMAIN rq : rq[i].slot = s /\ rq[i].st = "pend"}

\* i: the new request (0 for none)
Begin(o, s, i) ==
  /\ op = "" /\ op' = o
  /\ o = "req" => i \notin DOMAIN rq
  /\ rq' = IF o = "req" THEN Put(rq, i, [slot |-> s, st |-> "asked", ans |-> "none"]) ELSE rq
  /\ UNCHANGED sl

\* a failure is only possible when the system refused something (flt = 1)
Spawn(s, ok, flt) ==
  /\ op = "spawn" /\ op' = ""
  /\ ok = 1 \/ flt = 1
  /\ sl' = IF ok = 1 THEN Put(sl, s, "live") ELSE sl
  /\ UNCHANGED rq
Req(s, i, res, flt) ==
  /\ op = "req" /\ op' = "" /\ s \in DOMAIN sl /\ sl[s] = "live" /\ i \in DOMAIN rq
  /\ \/ res = "ok" /\ Pend(s) = {}
     \/ res = "already" /\ Pend(s) # {}
     \/ res = "fail" /\ flt = 1 /\ Pend(s) = {}
  /\ rq' = [rq EXCEPT ![i].st = IF res = "ok" THEN "pend" ELSE "refused"]
  /\ UNCHANGED sl
\* dnsthread_resolve: a resolver of its own (slots from 100)
Resolve(s, i, ok, flt) ==
  /\ op = "req" /\ op' = "" /\ s \notin DOMAIN sl /\ i \in DOMAIN rq
  /\ ok = 1 \/ flt = 1
  /\ sl' = IF ok = 1 THEN Put(sl, s, "live") ELSE sl
  /\ rq' = [rq EXCEPT ![i].st = IF ok = 1 THEN "pend" ELSE "refused"]
\* the system's resolver answers the question of request i
Lookup(thr, i, ok) ==
  /\ thr # 0                    \* the event loop never waits for a resolver
  /\ rq' = IF i \in DOMAIN rq THEN [rq EXCEPT ![i].ans = IF ok = 1 THEN "yes" ELSE "no"] ELSE rq
  /\ UNCHANGED <<sl, op>>
\* got: the request whose address was delivered, 0 for none
Callback(thr, i, got) ==
  /\ thr = 0 /\ op = ""         \* from the event loop
  /\ i \in DOMAIN rq /\ rq[i].st = "pend" /\ sl[rq[i].slot] = "live"
  /\ IF rq[i].ans = "yes" THEN got = i ELSE rq[i].ans = "no" /\ got = 0
  /\ rq' = [rq EXCEPT ![i].st = "done"]
  /\ UNCHANGED <<sl, op>>
\* gone: its thread has ended; an idle one is waited for
Kill(s, rc, gone) ==
  /\ op = "kill" /\ op' = "" /\ s \in DOMAIN sl /\ sl[s] = "live"
  /\ rc = 0
  /\ Pend(s) = {} => gone = 1
  /\ sl' = [sl EXCEPT ![s] = "dead"]
  /\ rq' = [i \in DOMAIN rq |-> IF i \in Pend(s) THEN [rq[i] EXCEPT !.st = "dropped"] ELSE rq[i]]
\* everything has come to rest; nothing was killed which is not gone, nothing
\* lives which should not: threads, descriptors, memory
End(threads, fds, mem) ==
  /\ op = ""
  /\ \A s \in DOMAIN sl : sl[s] = "dead" \/ s >= 100
  /\ \A i \in DOMAIN rq : rq[i].st # "pend"
  /\ threads = 0 /\ fds = 0 /\ mem = 0
  /\ UNCHANGED dvars
=============================================================================
