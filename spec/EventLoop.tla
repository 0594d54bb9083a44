----------------------------- MODULE EventLoop -----------------------------
(***************************************************************************)
(* The event loop (libcperciva/events) at its public interface, the clock  *)
(* and the poll call.  A behaviour interleaves calls made by the user of   *)
(* the loop (from the top level or from inside handlers), the steps of the *)
(* loop (starting a handler, polling, returning) and the environment (time *)
(* passing, descriptors becoming ready, signals).                          *)
(*                                                                         *)
(* Time is a pair <<seconds, microseconds>>.  Immediate events and timers  *)
(* are named by slots; network events by <<descriptor, operation>>.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Props,        \* enforced: C12, C13
          BYPASS        \* polls by which a ready event may be passed over

VARIABLES now, imm, net, rdy, hup, skip, tm, run
evars == <<now, imm, net, rdy, hup, skip, tm, run>>

R(p, x) == p \in Props => x

TLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
TLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
TAdd(a, b) == LET u == a[2] + b[2]
              IN IF u >= 1000000 THEN <<a[1] + b[1] + 1, u - 1000000>> ELSE <<a[1] + b[1], u>>
TSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>>
              ELSE <<a[1] - b[1] - 1, a[2] + 1000000 - b[2]>>
MAXMS == 2147483647
\* time left, in whole milliseconds rounded up (and capped)
MsUp(d) == IF d[1] < 0 THEN 0
           ELSE IF d[1] >= 2147483 THEN MAXMS
           ELSE d[1] * 1000 + (d[2] + 999) \div 1000

NoRun == [k |-> "no", stop |-> FALSE, rc |-> 0, n |-> 0, h |-> FALSE, done |-> FALSE,
          tmo |-> -2, eintr |-> FALSE, poll |-> FALSE]

EInit ==
  /\ imm = <<>> /\ net = {} /\ rdy = {} /\ hup = {} /\ skip = [x \in {} |-> 0]
  /\ tm = [x \in {} |-> <<>>] /\ run = NoRun

Imms == {imm[i][2] : i \in DOMAIN imm}
Drop(s, x) == SelectSeq(s, LAMBDA e : e[2] # x)
DropF(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Expired == {s \in DOMAIN tm : TLe(tm[s].hi, now)}
MinHi == CHOOSE d \in {tm[s].hi : s \in DOMAIN tm} : \A s \in DOMAIN tm : TLe(d, tm[s].hi)

(*** Calls ***)
\* calls are made by the top level between runs, or by a running handler
MayCall == run.k = "no" \/ run.h
RegImm(s, p, ok) ==
  /\ MayCall /\ s \notin Imms
  /\ R("C12", ok = 1)
  /\ imm' = Append(imm, <<p, s>>)
  /\ UNCHANGED <<net, rdy, hup, skip, tm, run>>
CanImm(s) ==
  /\ MayCall /\ s \in Imms
  /\ imm' = Drop(imm, s)
  /\ UNCHANGED <<net, rdy, hup, skip, tm, run>>
RegNet(f, o, ok, err) ==
  /\ MayCall
  /\ R("C12", ok = (IF <<f, o>> \in net THEN 0 ELSE 1))
  /\ R("C12", ok = 0 => err = "EEXIST")
  /\ net' = net \cup {<<f, o>>}
  /\ UNCHANGED <<imm, rdy, hup, skip, tm, run>>
CanNet(f, o, ok, err) ==
  /\ MayCall
  /\ R("C12", ok = (IF <<f, o>> \in net THEN 1 ELSE 0))
  /\ R("C12", ok = 0 => err = "ENOENT")
  /\ net' = net \ {<<f, o>>}
  /\ rdy' = rdy \ {<<f, o>>}
  /\ hup' = IF \E q \in net' : q[1] = f THEN hup ELSE hup \ {f}
  /\ skip' = DropF(skip, <<f, o>>)
  /\ UNCHANGED <<imm, tm, run>>
\* t0: clock when the call was made; now': when it returned.  ivl, ivh: the
\* interval, rounded down and up
RegTimer(s, ivl, ivh, t0, ok) ==
  /\ MayCall /\ s \notin DOMAIN tm
  /\ R("C13", ok = 1)
  /\ tm' = [x \in DOMAIN tm \cup {s} |-> IF x = s THEN [ivl |-> ivl, ivh |-> ivh, lo |-> TAdd(t0, ivl), hi |-> TAdd(now', ivh)] ELSE tm[x]]
  /\ UNCHANGED <<imm, net, rdy, hup, skip, run>>
ResetTimer(s, t0, ok) ==
  /\ MayCall /\ s \in DOMAIN tm
  /\ R("C13", ok = 1)
  /\ tm' = [tm EXCEPT ![s].lo = TAdd(t0, tm[s].ivl), ![s].hi = TAdd(now', tm[s].ivh)]
  /\ UNCHANGED <<imm, net, rdy, hup, skip, run>>
CanTimer(s) ==
  /\ MayCall /\ s \in DOMAIN tm
  /\ tm' = DropF(tm, s)
  /\ UNCHANGED <<imm, net, rdy, hup, skip, run>>
\* the current event is the last one of this run
Interrupt ==
  /\ run' = IF run.k = "no" THEN run ELSE [run EXCEPT !.stop = TRUE]
  /\ UNCHANGED <<imm, net, rdy, hup, skip, tm>>
SetDone ==
  /\ run.h
  /\ run' = [run EXCEPT !.done = TRUE]
  /\ UNCHANGED <<imm, net, rdy, hup, skip, tm>>
Advance == UNCHANGED <<imm, net, rdy, hup, skip, tm, run>>

(*** The loop ***)
Begin(k) ==
  /\ run.k = "no"
  /\ run' = [NoRun EXCEPT !.k = k]
  /\ rdy' = {} /\ hup' = {}         \* what an earlier run saw is stale
  /\ UNCHANGED <<imm, net, skip, tm>>
InLoop == run.k # "no" /\ ~run.h /\ ~run.poll

\* whatever is asked for is what is registered, nothing is ready that the
\* loop knows of, and the wait does not extend past the first deadline
PollCall(tmo, asked) ==
  /\ InLoop
  /\ (tmo # 0) =>
     /\ R("C12", ~run.stop /\ imm = <<>> /\ net \subseteq asked)
     /\ R("C12", rdy = {})
     /\ R("C13", tm # <<>> /\ DOMAIN tm # {} =>
                   \/ tmo # -1 /\ tmo <= MsUp(TSub(MinHi, now))
                   \* an interrupted wait is restarted
                   \/ run.eintr /\ tmo = run.tmo)
  /\ R("C12", run.k = "spin" /\ run.done => tmo = 0)
  /\ run' = [run EXCEPT !.poll = TRUE, !.tmo = tmo]
  /\ UNCHANGED <<imm, net, rdy, hup, skip, tm>>
\* res: pairs reported ready; hs: descriptors with hang-up or error
PollRet(res, hs) ==
  /\ run.poll
  /\ rdy' = (res \cup {q \in net : q[1] \in hs}) \cap net
  /\ hup' = hs \cap {q[1] : q \in net}
  /\ skip' = [q \in rdy' |-> IF q \in DOMAIN skip THEN skip[q] + 1 ELSE 0]
  /\ R("C12", \A q \in DOMAIN skip' : skip'[q] <= BYPASS)
  /\ run' = [run EXCEPT !.poll = FALSE, !.eintr = FALSE]
  /\ UNCHANGED <<imm, net, tm>>
PollEintr(intr) ==
  /\ run.poll
  /\ run' = [run EXCEPT !.poll = FALSE, !.eintr = TRUE, !.stop = @ \/ intr = 1]
  /\ UNCHANGED <<imm, net, rdy, hup, skip, tm>>

Start == run' = [run EXCEPT !.h = TRUE, !.n = @ + 1, !.eintr = FALSE]
MayFire == InLoop /\ R("C12", ~run.stop)
FireImm(s) ==
  /\ MayFire
  /\ R("C12", s \in Imms)
  /\ R("C12", \E i \in DOMAIN imm : /\ imm[i][2] = s
                                    /\ \A j \in DOMAIN imm : imm[j][1] > imm[i][1]
                                                             \/ (imm[j][1] = imm[i][1] /\ j >= i))
  /\ imm' = Drop(imm, s)
  /\ Start
  /\ UNCHANGED <<net, rdy, hup, skip, tm>>
FireNet(f, o) ==
  /\ MayFire
  /\ R("C12", imm = <<>>)
  /\ R("C12", <<f, o>> \in net)
  /\ R("C12", <<f, o>> \in rdy \/ f \in hup)
  /\ net' = net \ {<<f, o>>}
  /\ rdy' = rdy \ {<<f, o>>}
  /\ hup' = IF \E q \in net' : q[1] = f THEN hup ELSE hup \ {f}
  /\ skip' = DropF(skip, <<f, o>>)
  /\ Start
  /\ UNCHANGED <<imm, tm>>
FireTimer(s) ==
  /\ MayFire
  /\ R("C12", imm = <<>> /\ rdy = {})
  /\ R("C12", s \in DOMAIN tm)
  /\ R("C13", s \in DOMAIN tm)
  /\ R("C13", s \in DOMAIN tm =>
       /\ TLe(tm[s].lo, now')
       /\ ~\E x \in DOMAIN tm : TLt(tm[x].hi, tm[s].lo))
  /\ tm' = DropF(tm, s)
  /\ Start
  /\ UNCHANGED <<imm, net, rdy, hup, skip>>
HandlerRet(rc) ==
  /\ run.h
  /\ run' = [run EXCEPT !.h = FALSE, !.stop = @ \/ rc # 0, !.rc = rc]
  /\ UNCHANGED <<imm, net, rdy, hup, skip, tm>>

\* the loop returns the status of the last handler; it may not return before
\* having run something that was runnable
End(rc) ==
  /\ InLoop
  /\ R("C12", rc = run.rc)
  /\ R("C12", (~run.stop /\ run.n = 0 /\ ~run.eintr) => imm = <<>> /\ rdy = {})
  /\ R("C13", (~run.stop /\ run.n = 0 /\ ~run.eintr) => Expired = {})
  /\ R("C12", run.k = "spin" => run.stop \/ run.done)
  /\ run' = NoRun
  /\ UNCHANGED <<imm, net, rdy, hup, skip, tm>>
=============================================================================
