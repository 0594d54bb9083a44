------------------------------- MODULE DnsThread -------------------------------
(***************************************************************************)
(* The design of the background resolver: a worker thread per resolver,    *)
(* sharing with the event loop's thread a mutex, a condition variable, a   *)
(* wake-up socket and a control structure which the worker frees.          *)
(*                                                                         *)
(* Every interleaving of the two threads at the synchronization points,    *)
(* with spurious wake-ups and failing system calls, performs events of     *)
(* DnsReq.tla; invariant Refines says that each of them is allowed, Sound  *)
(* that nothing freed is touched, no lock is misused and the event loop's  *)
(* thread never waits for a resolution.  Everything always comes to an end *)
(* (no deadlock; Ends), and then nothing is left over (event End).         *)
(*                                                                         *)
(* Bug selects a deliberate mistake.  h records what the user asked for.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NS,           \* resolvers the user spawns: 0 .. NS - 1
          Ops,          \* operations of the user
          Own,          \* dnsthread_resolve: how many times at most
          Faults, Spurious,     \* BOOLEAN
          Hist, Bug

VARIABLES sl, rq, op,   \* as in DnsReq
          t,            \* resolvers
          m,            \* the event loop's thread
          n,            \* operations done
          nid,          \* requests made
          bad, h
dvars == <<sl, rq, op>>
vars == <<dvars, t, m, n, nid, bad, h>>
R == INSTANCE DnsReq
B(x) == Bug = x

Slots == 0..(NS - 1) \cup 100..(99 + Own)
T0 == [mem |-> "none",          \* none, live, freed
       lk |-> "-",              \* mutex: "-", "m" (event loop's thread), "w" (worker)
       st |-> "S",              \* S sleeping, H has work, D to die
       pend |-> FALSE, reg |-> FALSE,   \* callback owed; registered with the event loop
       addr |-> 0, sas |-> <<"none", 0>>, cb |-> 0,
       wake |-> 0, fd |-> FALSE,        \* bytes in the wake-up socket; open
       w |-> "none",            \* the worker is: none, lock, top, wait, woken, grab, look, got, sent, die, unl, free, done
       wa |-> 0, ws |-> <<"none", 0>>,
       thr |-> "none"]          \* none, run, det, join (has been joined)

Init ==
  /\ R!DInit
  /\ t = [s \in Slots |-> T0]
  /\ m = [pc |-> "idle", s |-> -1, i |-> 0, kill |-> <<>>, was |-> "S", got |-> <<"none", 0>>, own |-> FALSE]
  /\ n = 0 /\ nid = 0 /\ bad = "" /\ h = <<>>

Oops(x) == bad' = IF bad = "" THEN x ELSE bad
Fine == bad' = bad
Same == UNCHANGED dvars
Rec(w) == h' = IF Hist THEN Append(h, w) ELSE h
NoRec == h' = h

\* Use of the control structure of s by the thread who.
Touch(s) == IF t[s].mem = "live" THEN Fine ELSE Oops("freed")

(***************************************************************************)
(* The worker                                                              *)
(***************************************************************************)
W(s, f) == t' = [t EXCEPT ![s] = f]
WLock(s) ==     \* at the start, when woken, and with the answer
  LET x == t[s] IN
  /\ x.w \in {"lock", "woken", "got"} /\ x.lk = "-"
  /\ IF x.w = "got"
     THEN IF B("wakefirst")
          THEN W(s, [x EXCEPT !.lk = "w", !.sas = x.ws, !.w = "sent"])
          ELSE W(s, [x EXCEPT !.lk = "w", !.sas = x.ws, !.wake = @ + 1, !.w = "sent"])
     ELSE W(s, [x EXCEPT !.lk = "w", !.w = IF x.w = "woken" /\ B("ifwait") THEN "grab" ELSE "top"])
  /\ Touch(s) /\ Same
WTop(s) ==      \* the mutex is held
  LET x == t[s] IN
  /\ x.w = "top"
  /\ W(s, IF x.st = "S" THEN [x EXCEPT !.lk = "-", !.w = "wait"]
          ELSE [x EXCEPT !.w = IF x.st = "D" THEN "die" ELSE "grab"])
  /\ Touch(s) /\ Same
WSpurious(s) ==
  /\ Spurious /\ t[s].w = "wait" /\ W(s, [t[s] EXCEPT !.w = "woken"]) /\ Fine /\ Same
WGrab(s) ==
  LET x == t[s] IN
  /\ x.w = "grab"
  /\ W(s, [x EXCEPT !.wa = x.addr, !.lk = "-", !.w = "look"])
  /\ IF x.addr = 0 THEN Oops("no request") ELSE Touch(s)
  /\ Same
WLook(s) ==     \* holding nothing
  LET x == t[s] IN
  /\ x.w = "look"
  /\ \E ok \in {0, 1} :
       /\ R!Lookup(1, x.wa, ok)
       /\ W(s, [x EXCEPT !.ws = <<IF ok = 1 THEN "yes" ELSE "no", x.wa>>, !.w = "got",
                         !.wake = @ + IF B("wakefirst") THEN 1 ELSE 0])
  /\ Touch(s)
WSent(s) ==
  LET x == t[s] IN
  /\ x.w = "sent"
  /\ W(s, [x EXCEPT !.st = IF @ = "D" /\ ~B("reset") THEN "D" ELSE "S", !.w = "top"])
  /\ Touch(s) /\ Same
WDie(s) ==      \* discard what is left
  LET x == t[s] IN
  /\ x.w = "die"
  /\ W(s, [x EXCEPT !.addr = IF B("nofree") THEN @ ELSE 0, !.sas = IF B("nofree") THEN @ ELSE <<"none", 0>>,
                    !.fd = B("nofd"), !.lk = IF B("freelock") THEN @ ELSE "-", !.w = "free"])
  /\ IF x.reg THEN Oops("registered")
     ELSE IF x.sas[1] = "yes" /\ rq[x.sas[2]].st = "done" THEN Oops("answer given away and freed") ELSE Touch(s)
  /\ Same
WFree(s) ==
  LET x == t[s] IN
  /\ x.w = "free"
  /\ W(s, [x EXCEPT !.mem = "freed", !.w = "done"])
  /\ IF x.lk # "-" THEN Oops("mutex destroyed while held") ELSE Touch(s)
  /\ Same
Worker(s) == (WLock(s) \/ WTop(s) \/ WSpurious(s) \/ WGrab(s) \/ WLook(s) \/ WSent(s) \/ WDie(s) \/ WFree(s))
             /\ UNCHANGED <<m, n, nid, h>>

(***************************************************************************)
(* The event loop's thread                                                 *)
(***************************************************************************)
M(f) == m' = f
Goto(p) == m' = [m EXCEPT !.pc = p]
\* perform an event, if it is allowed
Emit(A) == IF ENABLED A THEN A /\ Fine ELSE Oops("event") /\ Same

\* Operations of the user.
Choose ==
  /\ m.pc = "idle" /\ n < Len(Ops) /\ n' = n + 1
  /\ \E s \in 0..(NS - 1) :
     \/ /\ Ops[n + 1] \in {"any", "s"} /\ t[s].mem = "none"
        /\ R!Begin("spawn", s, 0) /\ M([m EXCEPT !.pc = "spawn", !.s = s, !.own = FALSE]) /\ Rec(<<"s", s>>) /\ nid' = nid
     \/ /\ Ops[n + 1] \in {"any", "q"} /\ s \in DOMAIN sl /\ sl[s] = "live"
        /\ R!Begin("req", s, nid + 1) /\ nid' = nid + 1
        /\ M([m EXCEPT !.pc = "rlock", !.s = s, !.i = nid + 1, !.own = FALSE]) /\ Rec(<<"q", s>>)
     \/ /\ Ops[n + 1] \in {"any", "k"} /\ s \in DOMAIN sl /\ sl[s] = "live"
        /\ R!Begin("kill", s, 0) /\ M([m EXCEPT !.pc = "klock", !.s = s, !.own = FALSE]) /\ Rec(<<"k", s>>) /\ nid' = nid
     \/ \E u \in 100..(99 + Own) :
        /\ Ops[n + 1] \in {"any", "r"} /\ t[u].mem = "none" /\ \A v \in 100..(u - 1) : t[v].mem # "none"
        /\ R!Begin("req", u, nid + 1) /\ nid' = nid + 1
        /\ M([m EXCEPT !.pc = "spawn", !.s = u, !.i = nid + 1, !.own = TRUE]) /\ Rec(<<"r", u>>)
  /\ Fine /\ UNCHANGED t
\* nothing more to do for now: pass
Pass == /\ m.pc = "idle" /\ n < Len(Ops) /\ Ops[n + 1] = "any" /\ n' = n + 1
        /\ Same /\ Fine /\ Rec(<<"e", 0>>) /\ UNCHANGED <<t, m, nid>>

Spawn == LET s == m.s IN
  /\ m.pc = "spawn"
  /\ \/ /\ t' = [t EXCEPT ![s] = [T0 EXCEPT !.mem = "live", !.fd = TRUE, !.w = "lock", !.thr = "run", !.lk = IF B("unlocked") THEN "-" ELSE "m"]]
        /\ Goto("spawned") /\ Same
     \/ /\ Faults /\ t' = [t EXCEPT ![s].mem = "freed"]
        /\ Goto("idle")
        /\ IF m.own THEN R!Resolve(s, m.i, 0, 1) ELSE R!Spawn(s, 0, 1)
  /\ Fine /\ UNCHANGED <<n, nid, h>>
Spawned == LET s == m.s IN
  /\ m.pc = "spawned"
  /\ t' = [t EXCEPT ![s].lk = "-"]
  /\ IF m.own THEN Goto("rlock") /\ Same /\ Fine
     ELSE Goto("idle") /\ Emit(R!Spawn(s, 1, 0))
  /\ UNCHANGED <<n, nid, h>>

Busy(s) == IF B("busy") THEN t[s].st # "S" ELSE t[s].pend
RLock == LET s == m.s IN
  /\ m.pc = "rlock" /\ t[s].lk = "-"
  /\ t' = [t EXCEPT ![s].lk = "m"] /\ Goto("rbody") /\ Touch(s) /\ Same /\ UNCHANGED <<n, nid, h>>
RBody == LET s == m.s x == t[s] IN
  /\ m.pc = "rbody"
  /\ \/ /\ Busy(s)
        /\ t' = [t EXCEPT ![s].lk = "-"] /\ Emit(R!Req(s, m.i, "already", 0)) /\ Goto("idle")
     \/ /\ Faults /\ ~Busy(s)
        /\ t' = [t EXCEPT ![s].lk = "-"]
        /\ IF m.own THEN Emit(R!Resolve(s, m.i, 0, 1)) /\ M([m EXCEPT !.pc = "klock"])
           ELSE Emit(R!Req(s, m.i, "fail", 1)) /\ Goto("idle")
     \/ /\ ~Busy(s)
        /\ IF x.reg THEN Oops("registered twice") ELSE IF x.addr # 0 THEN Oops("address lost") ELSE Fine
        /\ t' = [t EXCEPT ![s].addr = m.i, ![s].cb = m.i, ![s].reg = TRUE, ![s].pend = TRUE, ![s].st = "H"]
        /\ Goto("rsig") /\ Same
  /\ UNCHANGED <<n, nid, h>>
Signal(s) == IF t[s].w = "wait" THEN "woken" ELSE t[s].w
RSig == LET s == m.s IN
  /\ m.pc = "rsig"
  /\ t' = [t EXCEPT ![s].w = IF B("norsig") THEN @ ELSE Signal(s), ![s].lk = "-"]
  /\ IF m.own THEN Emit(R!Resolve(s, m.i, 1, 0)) ELSE Emit(R!Req(s, m.i, "ok", 0))
  /\ Goto("idle") /\ UNCHANGED <<n, nid, h>>

KLock == LET s == m.s IN
  /\ m.pc = "klock" /\ t[s].lk = "-"
  /\ t' = [t EXCEPT ![s].lk = "m"] /\ Goto("kbody") /\ Touch(s) /\ Same /\ UNCHANGED <<n, nid, h>>
KBody == LET s == m.s x == t[s] IN
  /\ m.pc = "kbody"
  /\ M([m EXCEPT !.pc = "ksig", !.was = x.st])
  /\ t' = [t EXCEPT ![s].reg = IF x.pend /\ ~B("nocancel") /\ ~(B("sleepcancel") /\ x.st = "S") THEN FALSE ELSE @,
                    ![s].pend = FALSE, ![s].st = "D", ![s].lk = IF B("latesignal") THEN "-" ELSE @]
  /\ Fine /\ Same /\ UNCHANGED <<n, nid, h>>
KSig == LET s == m.s IN
  /\ m.pc = "ksig"
  /\ t' = [t EXCEPT ![s].w = IF B("noksig") THEN @ ELSE Signal(s), ![s].lk = IF B("latesignal") THEN @ ELSE "-"]
  /\ Goto("kjoin") /\ Touch(s) /\ Same /\ UNCHANGED <<n, nid, h>>
\* Wait for it only if it was asleep (it can hold the mutex, but not be looking up).
KJoin == LET s == m.s x == t[s] j == (m.was = "S" \/ B("join")) /\ ~B("detach") IN
  /\ m.pc = "kjoin"
  /\ IF j THEN x.w = "done" /\ t' = [t EXCEPT ![s].thr = "join"]
     ELSE t' = [t EXCEPT ![s].thr = IF B("nodetach") THEN "run" ELSE "det"]
  /\ IF m.own THEN Same /\ Fine ELSE Emit(R!Kill(s, 0, IF x.w = "done" THEN 1 ELSE 0))
  /\ Goto("idle") /\ UNCHANGED <<n, nid, h>>
\* the event loop's thread is stuck until somebody's name has been resolved
Blocks == m.pc = "kjoin" /\ (m.was = "S" \/ B("join")) /\ ~B("detach") /\ t[m.s].w \in {"look", "grab"}

\* The event loop: a wake-up byte can be read.
Callback(s) == LET x == t[s] IN
  /\ m.pc = "idle" /\ m.kill = <<>> /\ x.reg /\ x.wake > 0
  /\ t' = [t EXCEPT ![s].wake = @ - 1, ![s].reg = FALSE]
  /\ M([m EXCEPT !.pc = "clock", !.s = s])
  /\ IF ~x.fd THEN Oops("closed descriptor") ELSE Touch(s)
  /\ Same /\ UNCHANGED <<n, nid, h>>
CLock == LET s == m.s x == t[s] IN
  /\ m.pc = "clock" /\ x.lk = "-"
  /\ M([m EXCEPT !.pc = "call", !.got = x.sas, !.i = x.cb])
  /\ t' = [t EXCEPT ![s].addr = 0, ![s].sas = IF B("keepsas") THEN @ ELSE <<"none", 0>>, ![s].pend = B("latepend")]
  /\ IF x.sas[1] = "none" THEN Oops("no answer") ELSE Touch(s)
  /\ Same /\ UNCHANGED <<n, nid, h>>
\* the user's function runs: what it does comes next, and then (from
\* dnsthread_resolve) the resolver is killed
Call == LET s == m.s IN
  /\ m.pc = "call"
  /\ Emit(R!Callback(0, m.i, IF m.got[1] = "yes" THEN m.got[2] ELSE 0))
  /\ M([m EXCEPT !.pc = "idle", !.kill = IF (s >= 100 /\ ~B("nokill")) \/ B("latepend") THEN <<s, n>> ELSE <<>>])
  /\ Rec(<<"cb", s>>) /\ UNCHANGED <<t, n, nid>>
Return == LET s == m.kill[1] IN
  /\ m.pc = "idle" /\ m.kill # <<>>
  /\ IF s >= 100 THEN M([m EXCEPT !.kill = <<>>, !.pc = "klock", !.s = s, !.own = TRUE]) /\ t' = t
     ELSE M([m EXCEPT !.kill = <<>>]) /\ t' = [t EXCEPT ![s].pend = FALSE]
  /\ Rec(<<"ret", s>>) /\ Fine /\ Same /\ UNCHANGED <<n, nid>>

\* The user, at the end, waits for the answers and ends the resolvers.
Owed == \E i \in DOMAIN rq : rq[i].st = "pend"
Close ==
  /\ m.pc = "idle" /\ n = Len(Ops) /\ m.kill = <<>> /\ ~Owed
  /\ \E s \in DOMAIN sl : s < 100 /\ sl[s] = "live"
       /\ R!Begin("kill", s, 0) /\ M([m EXCEPT !.pc = "klock", !.s = s, !.own = FALSE])
  /\ Fine /\ UNCHANGED <<t, n, nid, h>>
Left == [th |-> Cardinality({s \in Slots : t[s].thr = "run"}), fd |-> Cardinality({s \in Slots : t[s].fd}),
         mem |-> Cardinality({s \in Slots : t[s].mem = "live" \/ (t[s].mem = "freed" /\ (t[s].addr # 0 \/ t[s].sas[1] = "yes"))})]
End ==
  /\ m.pc = "idle" /\ n = Len(Ops) /\ m.kill = <<>> /\ ~Owed
  /\ \A s \in DOMAIN sl : s >= 100 \/ sl[s] = "dead"
  /\ \A s \in Slots : t[s].w \in {"none", "done"} \/ (t[s].w = "wait" /\ t[s].st = "S")
  /\ Emit(R!End(Left.th, Left.fd, Left.mem))
  /\ Goto("end") /\ UNCHANGED <<t, n, nid, h>>

Main == (\/ Spawn \/ Spawned \/ RLock \/ RBody \/ RSig \/ KLock \/ KBody \/ KSig \/ KJoin \/ Return \/ Close \/ End)
        \/ Choose \/ Pass \/ (\E s \in Slots : Callback(s)) \/ CLock \/ Call
Over == m.pc = "end" /\ UNCHANGED vars
Next == \/ (bad = "" /\ (Main \/ \E s \in Slots : Worker(s)))
        \/ Over
        \/ (bad # "" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(bad = "" /\ Main)
        /\ \A s \in Slots : WF_vars(bad = "" /\ (WLock(s) \/ WTop(s) \/ WGrab(s) \/ WLook(s) \/ WSent(s) \/ WDie(s) \/ WFree(s)) /\ UNCHANGED <<m, n, nid, h>>)

Refines == bad # "event"
Sound == bad \in {"", "event"} /\ ~Blocks
\* Everything ends: callbacks have been made, threads are gone.
Ends == <>(m.pc = "end")
Anys(k) == [i \in 1..k |-> "any"]
A3 == Anys(3)
A4 == Anys(4)
A5 == Anys(5)
A6 == Anys(6)
A8 == Anys(8)
View == <<dvars, t, m, n, nid, bad>>
Show == m.pc # "end" \/ PrintT(<<"OPS", h>>)
=============================================================================
