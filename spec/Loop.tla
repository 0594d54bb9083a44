--------------------------------- MODULE Loop ---------------------------------
(***************************************************************************)
(* The design of the event loop: queues of immediate events by priority    *)
(* with a lower bound on the first one in use; an array of descriptors to  *)
(* poll, from which entries disappear by moving the last one into their    *)
(* place, while a scan for what the last poll found is under way; a timer  *)
(* queue (its heap is Heap.tla); and the order in which one run of the     *)
(* loop looks at them.                                                     *)
(*                                                                         *)
(* Handlers and the user above them do anything they may, at any time, up  *)
(* to a number of operations.  Every step performs events of EventLoop.tla *)
(* and Refines says that each of them is allowed there.  Bug selects a     *)
(* deliberate mistake.  h records what the user did, for the driver.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Fds, Is, Ts,  \* descriptors, slots for immediate events and timers
          N,            \* operations of the user
          Kinds,        \* which ones
          Ivs,          \* intervals
          Runs,         \* runs of the loop
          Hist, Bug

VARIABLES now, imm, net, rdy, hup, skip, tm, run,      \* as in EventLoop
          iq, mq, pf, pos, rec, sc, tq, rd, lp, intr, done, n, ru, bad, h
evars == <<now, imm, net, rdy, hup, skip, tm, run>>
vars == <<evars, iq, mq, pf, pos, rec, sc, tq, rd, lp, intr, done, n, ru, bad, h>>
E == INSTANCE EventLoop WITH Props <- {"C12", "C13"}, BYPASS <- 3
B(x) == Bug = x

Prios == {0, 1}
NOPRIO == 2
T(t) == <<0, 500 * t>>          \* half milliseconds
Now == now[2] \div 500

\* The event a must be allowed.
Do(a(_)) == IF ENABLED a(now) THEN a(now) /\ bad' = bad ELSE UNCHANGED evars /\ bad' = "refused"
Same == UNCHANGED evars /\ bad' = bad

Init ==
  /\ now = <<0, 0>> /\ E!EInit
  /\ iq = [p \in Prios |-> <<>>] /\ mq = NOPRIO
  /\ pf = <<>> /\ pos = [f \in Fds |-> 0] /\ rec = {} /\ sc = 0
  /\ tq = [x \in {} |-> 0]
  /\ rd = [f \in Fds |-> {}]
  /\ lp = [pc |-> "top", k |-> "no", rc |-> 0, tmo |-> 0, hd |-> "", id |-> 0]
  /\ intr = FALSE /\ done = FALSE /\ n = 0 /\ ru = 0 /\ bad = ""
  /\ h = [prog |-> [x \in {0} |-> <<>>], who |-> [x \in {} |-> 0], rcs |-> [x \in {} |-> 0], blk |-> <<>>, cnt |-> 0]

(***************************************************************************)
(* What was asked for                                                      *)
(***************************************************************************)
S(x) == ToString(x)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rec(tok) == h' = IF ~Hist THEN h ELSE [h EXCEPT !.prog = Put(@, lp.id, Append(IF lp.id \in DOMAIN @ THEN @[lp.id] ELSE <<>>, tok))]
\* a registration of w, with a handler of its own
RecH(w, a, b) ==
  h' = IF ~Hist THEN h
       ELSE [h EXCEPT !.cnt = @ + 1, !.who = Put(@, w, h.cnt + 1),
                      !.prog = Put(@, lp.id, Append(IF lp.id \in DOMAIN @ THEN @[lp.id] ELSE <<>>, a \o S(h.cnt + 1) \o b))]
NoRec == h' = h
Who(w) == IF Hist THEN h.who[w] ELSE 1

(***************************************************************************)
(* The parts                                                               *)
(***************************************************************************)
First == LET q == IF \E p \in Prios : p >= mq /\ iq[p] # <<>>
                  THEN CHOOSE p \in Prios : p >= mq /\ iq[p] # <<>> /\ \A x \in Prios : (x >= mq /\ iq[x] # <<>>) => x >= p
                  ELSE NOPRIO
         IN q
Asked == {<<pf[i].f, o>> : i \in 1..Len(pf), o \in {0, 1}} \cap UNION {{<<pf[i].f, o>> : o \in pf[i].ev} : i \in 1..Len(pf)}
\* poll entries, positions after one bit is cleared
Clear(i, o, P, Q) ==
  LET x == [P[i] EXCEPT !.ev = @ \ {o}, !.re = @ \ {o}]
      L == Len(P)
  IN IF x.ev # {} THEN <<[P EXCEPT ![i] = x], Q>>
     ELSE IF i = L THEN <<SubSeq(P, 1, L - 1), [Q EXCEPT ![P[i].f] = 0]>>
     ELSE <<[j \in 1..(L - 1) |-> IF j = i THEN P[L] ELSE P[j]],
            IF B("nopos") THEN [Q EXCEPT ![P[i].f] = 0] ELSE [Q EXCEPT ![P[i].f] = 0, ![P[L].f] = i]>>

\* The scan: the position at which it stops, 0 if it finds nothing.
Hot(x) == (IF x.re \cap {2} # {} /\ ~B("nohup") THEN x.re \cup x.ev ELSE x.re) \cap {0, 1}
Found == IF sc > Len(pf) \/ sc = 0 THEN 0
         ELSE IF \E i \in 1..sc : Hot(pf[i]) # {} THEN CHOOSE i \in 1..sc : Hot(pf[i]) # {} /\ \A j \in (i + 1)..sc : Hot(pf[j]) = {}
         ELSE 0

PollDone(t, P) ==       \* the array after a poll at time t
  [i \in 1..Len(P) |-> [P[i] EXCEPT !.re = rd[P[i].f] \cap (P[i].ev \cup {2})]]
Res(P) == {<<P[i].f, o>> : i \in 1..Len(P), o \in {0, 1}} \cap UNION {{<<P[i].f, o>> : o \in P[i].re \cap {0, 1}} : i \in 1..Len(P)}
Hups(P) == {P[i].f : i \in {j \in 1..Len(P) : 2 \in P[j].re}}
Due == {s \in DOMAIN tq : tq[s] <= Now}
MinD == CHOOSE d \in {tq[s] : s \in DOMAIN tq} : \A s \in DOMAIN tq : d <= tq[s]

(***************************************************************************)
(* The user: at the top level between runs, or in a handler                *)
(***************************************************************************)
May(k) == /\ k \in Kinds /\ n < N /\ n' = n + 1
          /\ lp.hd # "" \/ (lp.pc = "top" /\ ru < Runs)
          /\ UNCHANGED <<ru, lp, sc>>
In == lp.hd # ""
Imms == UNION {{iq[p][i] : i \in DOMAIN iq[p]} : p \in Prios}
URegImm(s, p) ==
  /\ May("I") /\ s \notin Imms
  /\ Do(LAMBDA t : now' = t /\ E!RegImm(s, p, 1))
  /\ iq' = IF B("lifo") THEN [iq EXCEPT ![p] = <<s>> \o @] ELSE [iq EXCEPT ![p] = Append(@, s)]
  /\ mq' = IF p < mq /\ ~(B("minq") /\ mq # NOPRIO) THEN p ELSE mq
  /\ RecH(<<"I", s>>, "I:" \o S(s) \o ":", ":" \o S(7 * p))
  /\ UNCHANGED <<pf, pos, rec, tq, rd, intr, done>>
UCanImm(s) ==
  /\ May("I") /\ s \in Imms
  /\ Do(LAMBDA t : now' = t /\ E!CanImm(s))
  /\ iq' = [p \in Prios |-> SelectSeq(iq[p], LAMBDA x : x # s)]
  /\ Rec("i:" \o S(s))
  /\ UNCHANGED <<mq, pf, pos, rec, tq, rd, intr, done>>
URegNet(f, o) ==
  /\ May("N")
  /\ IF <<f, o>> \in rec
     THEN /\ Do(LAMBDA t : now' = t /\ E!RegNet(f, o, 0, "EEXIST"))
          /\ Rec("N:" \o S(f + 3) \o ":" \o S(o) \o ":1")
          /\ UNCHANGED <<rec, pf, pos>>
     ELSE /\ Do(LAMBDA t : now' = t /\ E!RegNet(f, o, 1, "other"))
          /\ RecH(<<"N", f, o>>, "N:" \o S(f + 3) \o ":" \o S(o) \o ":", "")
          /\ rec' = rec \cup {<<f, o>>}
          /\ IF pos[f] = 0
             THEN pf' = Append(pf, [f |-> f, ev |-> {o}, re |-> {}]) /\ pos' = [pos EXCEPT ![f] = Len(pf) + 1]
             ELSE IF pos[f] > Len(pf) THEN UNCHANGED <<pf, pos>>        \* only with a mistake
             ELSE pf' = [pf EXCEPT ![pos[f]].ev = @ \cup {o}] /\ pos' = pos
  /\ UNCHANGED <<iq, mq, tq, rd, intr, done>>
UCanNet(f, o) ==
  /\ May("N")
  /\ IF <<f, o>> \notin rec
     THEN /\ Do(LAMBDA t : now' = t /\ E!CanNet(f, o, 0, "ENOENT"))
          /\ UNCHANGED <<rec, pf, pos>>
     ELSE /\ Do(LAMBDA t : now' = t /\ E!CanNet(f, o, 1, "other"))
          /\ rec' = rec \ {<<f, o>>}
          /\ IF pos[f] = 0 \/ pos[f] > Len(pf) THEN UNCHANGED <<pf, pos>>       \* only with a mistake
             ELSE LET c == Clear(pos[f], o, pf, pos) IN pf' = c[1] /\ pos' = c[2]
  /\ Rec("n:" \o S(f + 3) \o ":" \o S(o))
  /\ UNCHANGED <<iq, mq, tq, rd, intr, done>>
URegTimer(s, d) ==
  /\ May("T") /\ s \notin DOMAIN tq
  /\ Do(LAMBDA t : now' = t /\ E!RegTimer(s, T(d), T(d), t, 1))
  /\ tq' = Put(tq, s, Now + d)
  /\ RecH(<<"T", s>>, "T:" \o S(s) \o ":", ":0:" \o S(500 * d))
  /\ UNCHANGED <<iq, mq, pf, pos, rec, rd, intr, done>>
UReset(s) ==
  /\ May("T") /\ s \in DOMAIN tq
  /\ Do(LAMBDA t : now' = t /\ E!ResetTimer(s, t, 1))
  /\ tq' = IF B("noreset") \/ s \notin DOMAIN tm THEN tq ELSE [tq EXCEPT ![s] = Now + tm[s].ivl[2] \div 500]
  /\ Rec("r:" \o S(s))
  /\ UNCHANGED <<iq, mq, pf, pos, rec, rd, intr, done>>
UCanTimer(s) ==
  /\ May("T") /\ s \in DOMAIN tq
  /\ Do(LAMBDA t : now' = t /\ E!CanTimer(s))
  /\ tq' = E!DropF(tq, s)
  /\ Rec("t:" \o S(s))
  /\ UNCHANGED <<iq, mq, pf, pos, rec, rd, intr, done>>
UAdvance(d) ==
  /\ May("A")
  /\ Do(LAMBDA t : now' = <<0, t[2] + 500 * d>> /\ E!Advance)
  /\ Rec("A:" \o S(500 * d))
  /\ UNCHANGED <<iq, mq, pf, pos, rec, tq, rd, intr, done>>
UReady(f, x) ==
  /\ May("F") /\ rd[f] # x
  /\ rd' = [rd EXCEPT ![f] = x]
  /\ Rec("F:" \o S(f + 3) \o ":" \o S((IF 0 \in x THEN 1 ELSE 0) + (IF 1 \in x THEN 2 ELSE 0) + (IF 2 \in x THEN 4 ELSE 0)))
  /\ Same
  /\ UNCHANGED <<iq, mq, pf, pos, rec, tq, intr, done>>
UInterrupt ==
  /\ May("X") /\ In /\ ~intr
  /\ Do(LAMBDA t : now' = t /\ E!Interrupt)
  /\ intr' = TRUE
  /\ Rec("X")
  /\ UNCHANGED <<iq, mq, pf, pos, rec, tq, rd, done>>
UDone ==
  /\ May("O") /\ In /\ lp.k = "spin" /\ ~done
  /\ Do(LAMBDA t : now' = t /\ E!SetDone)
  /\ done' = TRUE
  /\ Rec("O")
  /\ UNCHANGED <<iq, mq, pf, pos, rec, tq, rd, intr>>

(***************************************************************************)
(* The loop                                                                *)
(***************************************************************************)
Loop(p) == lp.pc = p /\ lp.hd = "" /\ UNCHANGED <<n, rd>>
Go(p) == lp' = [lp EXCEPT !.pc = p]
NoLoop == Same /\ NoRec
Queues == UNCHANGED <<iq, mq, pf, pos, rec, sc, tq>>
Flags == UNCHANGED <<intr, done, ru>>

Begin ==
  /\ Loop("top") /\ ru < Runs /\ ru' = ru + 1
  /\ \E k \in {"run", "spin"} :
       /\ k = "spin" => "O" \in Kinds
       /\ Do(LAMBDA t : now' = t /\ E!Begin(k))
       /\ lp' = [lp EXCEPT !.k = k, !.pc = IF k = "run" THEN "first" ELSE "spin", !.rc = 0]
       /\ Rec(IF k = "run" THEN "R" ELSE "S")
  /\ done' = FALSE
  /\ Queues /\ UNCHANGED intr
EndRun ==
  /\ \/ Loop("done") /\ lp.k = "run"
     \/ Loop("spin") /\ (done \/ lp.rc # 0 \/ intr)
  /\ Do(LAMBDA t : now' = t /\ E!End(lp.rc))
  /\ lp' = [lp EXCEPT !.pc = "top", !.k = "no", !.id = 0]
  /\ intr' = IF B("intrkeep") THEN intr ELSE FALSE
  /\ Queues /\ NoRec /\ UNCHANGED <<done, ru>>
Spin ==
  /\ \/ Loop("spin") /\ ~(done \/ lp.rc # 0 \/ intr) /\ lp' = [lp EXCEPT !.pc = "first", !.rc = 0]
     \/ Loop("done") /\ lp.k = "spin" /\ Go("spin")
  /\ NoLoop /\ Queues /\ Flags

\* Start a handler; when it returns, the loop goes on at p.
Handle(w, p) == lp' = [lp EXCEPT !.hd = p, !.id = Who(w)]
FireImm(p) ==
  LET q == First s == Head(iq[q]) IN
  /\ q # NOPRIO
  /\ Do(LAMBDA t : now' = t /\ E!FireImm(s))
  /\ iq' = [iq EXCEPT ![q] = Tail(@)] /\ mq' = q
  /\ Handle(<<"I", s>>, p)
  /\ NoRec /\ UNCHANGED <<pf, pos, rec, sc, tq>> /\ Flags
NoImm == First = NOPRIO
\* the queues' bound moves even if nothing is found
Bound == mq' = First /\ UNCHANGED <<iq, pf, pos, rec, sc, tq>>

FirstImm == Loop("first") /\ IF NoImm THEN Go("min") /\ Bound /\ NoLoop /\ Flags ELSE FireImm("first2")
Stops == (lp.rc # 0 /\ ~B("rcignored")) \/ (intr /\ ~B("intrignored"))
NextImm ==
  /\ Loop("first2")
  /\ IF Stops THEN Go("done") /\ Queues /\ NoLoop /\ Flags
     ELSE IF NoImm THEN Go("done") /\ Bound /\ NoLoop /\ Flags ELSE FireImm("first2")

\* time left in milliseconds, rounded up
Left == IF DOMAIN tq = {} THEN -1 ELSE IF MinD <= Now THEN 0 ELSE (MinD - Now + (IF B("rounddown") THEN 0 ELSE 1)) \div 2 + (IF B("oversleep") THEN 1 ELSE 0)
Poll1 ==
  /\ Loop("min")
  /\ LET t0 == IF lp.tmo = -9 THEN Left ELSE lp.tmo
     IN Do(LAMBDA t : now' = t /\ E!PollCall(t0, Asked)) /\ lp' = [lp EXCEPT !.pc = "poll1", !.tmo = t0]
  /\ Queues /\ NoRec /\ Flags
Ret(d, next) ==         \* poll returns after d
  LET P == PollDone(Now + d, pf) IN
  /\ Do(LAMBDA t : now' = <<0, t[2] + 500 * d>> /\ E!PollRet(Res(P), Hups(P)))
  /\ pf' = P /\ sc' = Len(P)
  /\ lp' = [lp EXCEPT !.pc = next, !.tmo = -9]
  /\ UNCHANGED <<iq, mq, pos, rec, tq>> /\ Flags
Ready1 == \E i \in 1..Len(pf) : rd[pf[i].f] \cap (pf[i].ev \cup {2}) # {}
Woken == Loop("poll1") /\ NoRec /\ IF Ready1 \/ lp.tmo = 0 THEN Ret(0, "loop") ELSE lp.tmo > 0 /\ Ret(2 * lp.tmo, "loop")
\* while asleep: a descriptor becomes ready, or a signal arrives
Happens(f, x, d) ==
  /\ lp.pc = "poll1" /\ lp.hd = "" /\ "F" \in Kinds /\ n < N /\ n' = n + 1
  /\ ~Ready1 /\ lp.tmo # 0 /\ (lp.tmo > 0 => d < 2 * lp.tmo)
  /\ pos[f] # 0 /\ rd[f] # x
  /\ rd' = [rd EXCEPT ![f] = x]
  /\ h' = IF Hist THEN [h EXCEPT !.blk = Append(@, "B:" \o S(500 * d) \o ":" \o S(f + 3) \o ":" \o S((IF 0 \in x THEN 1 ELSE 0) + (IF 1 \in x THEN 2 ELSE 0) + (IF 2 \in x THEN 4 ELSE 0)))] ELSE h
  /\ LET r2 == [rd EXCEPT ![f] = x]
         P == [i \in 1..Len(pf) |-> [pf[i] EXCEPT !.re = r2[pf[i].f] \cap (pf[i].ev \cup {2})]]
     IN /\ \E i \in 1..Len(P) : P[i].re # {}
        /\ Do(LAMBDA t : now' = <<0, t[2] + 500 * d>> /\ E!PollRet(Res(P), Hups(P)))
        /\ pf' = P /\ sc' = Len(P)
        /\ lp' = [lp EXCEPT !.pc = "loop", !.tmo = -9]
  /\ UNCHANGED <<iq, mq, pos, rec, tq, intr, done, ru>>
Signal(x, d) ==
  /\ lp.pc = "poll1" /\ lp.hd = "" /\ "X" \in Kinds /\ n < N /\ n' = n + 1
  /\ ~Ready1 /\ lp.tmo # 0 /\ (lp.tmo > 0 => d < 2 * lp.tmo)
  /\ Do(LAMBDA t : now' = <<0, t[2] + 500 * d>> /\ E!PollEintr(IF x THEN 1 ELSE 0))
  /\ intr' = (intr \/ x)
  /\ IF x THEN lp' = [lp EXCEPT !.pc = "loop", !.tmo = -9] /\ sc' = Len(pf)
     ELSE IF B("eintrend") THEN lp' = [lp EXCEPT !.pc = "done", !.tmo = -9] /\ sc' = sc
     ELSE lp' = [lp EXCEPT !.pc = "min", !.tmo = IF B("eintrdrop") THEN -1 ELSE @] /\ sc' = sc
  /\ h' = IF Hist THEN [h EXCEPT !.blk = Append(@, "B:" \o S(500 * d) \o ":" \o (IF x THEN "-2" ELSE "-1") \o ":0")] ELSE h
  /\ UNCHANGED <<iq, mq, pf, pos, rec, tq, rd, done, ru>>

FireNet(p, nothing) ==
  LET i == Found IN
  IF i = 0
  THEN /\ lp' = [lp EXCEPT !.pc = nothing]
       /\ pf' = [j \in 1..Len(pf) |-> IF j <= sc /\ sc <= Len(pf) THEN [pf[j] EXCEPT !.re = {}] ELSE pf[j]]
       /\ sc' = IF sc > Len(pf) THEN sc ELSE 0
       /\ NoLoop /\ UNCHANGED <<iq, mq, pos, rec, tq>> /\ Flags
  ELSE LET x == pf[i]
           hot == Hot(x)
           o == IF 0 \in hot THEN 0 ELSE 1
           P == [pf EXCEPT ![i].re = hot]
           c == Clear(i, o, P, pos)
       IN /\ Do(LAMBDA t : now' = t /\ E!FireNet(x.f, o))
          /\ rec' = rec \ {<<x.f, o>>}
          /\ IF B("stays") THEN pf' = [P EXCEPT ![i].re = @ \ {o}] /\ pos' = pos ELSE pf' = c[1] /\ pos' = c[2]
          /\ sc' = i
          /\ lp' = [lp EXCEPT !.hd = p, !.id = Who(<<"N", x.f, o>>)]
          /\ NoRec /\ UNCHANGED <<iq, mq, tq>> /\ Flags
LoopTop ==
  /\ Loop("loop")
  /\ IF Stops THEN Go("done") /\ Queues /\ NoLoop /\ Flags
     ELSE IF NoImm \/ (B("netfirst") /\ Found # 0) THEN Go("net") /\ Bound /\ NoLoop /\ Flags
     ELSE FireImm("after")
Net1 == Loop("net") /\ FireNet("after", IF B("nopoll0") THEN "tim" ELSE "p0")
Poll0 ==
  /\ Loop("p0")
  /\ Do(LAMBDA t : now' = t /\ E!PollCall(0, Asked))
  /\ Go("poll0") /\ Queues /\ NoRec /\ Flags
Poll0Ret == Loop("poll0") /\ NoRec /\ Ret(0, "net2")
Net2 == Loop("net2") /\ FireNet("after", "tim")
Tim ==
  /\ Loop("tim")
  /\ IF IF B("early") THEN DOMAIN tq = {} \/ MinD > Now + 1 ELSE Due = {}
     THEN Go("done") /\ NoLoop /\ Queues /\ Flags
     ELSE \E s \in DOMAIN tq :
            /\ IF B("anydue") THEN s \in Due ELSE tq[s] = MinD
            /\ Do(LAMBDA t : now' = t /\ E!FireTimer(s))
            /\ tq' = IF B("twice") THEN [tq EXCEPT ![s] = @] ELSE E!DropF(tq, s)
            /\ Handle(<<"T", s>>, "after")
            /\ NoRec /\ UNCHANGED <<iq, mq, pf, pos, rec, sc>> /\ Flags
After == Loop("after") /\ NoLoop /\ Queues /\ Flags /\ Go(IF lp.rc # 0 /\ ~B("rcignored") THEN "done" ELSE "loop")
Return(rc) ==
  /\ lp.hd # ""
  /\ IF rc = 0 THEN n' = n ELSE "H" \in Kinds /\ n < N /\ n' = n + 1
  /\ Do(LAMBDA t : now' = t /\ E!HandlerRet(rc))
  /\ lp' = [lp EXCEPT !.hd = "", !.pc = lp.hd, !.rc = rc, !.id = 0]
  /\ h' = IF Hist THEN [h EXCEPT !.rcs = Put(@, lp.id, rc)] ELSE h
  /\ Queues /\ UNCHANGED rd /\ Flags

User ==
  \/ \E s \in Is : (\E p \in Prios : URegImm(s, p)) \/ UCanImm(s)
  \/ \E f \in Fds : (\E o \in {0, 1} : URegNet(f, o) \/ UCanNet(f, o)) \/ \E x \in {{0}, {1}, {0, 1}, {2}} : UReady(f, x)
  \/ \E s \in Ts : (\E d \in Ivs : URegTimer(s, d)) \/ UReset(s) \/ UCanTimer(s)
  \/ \E d \in Ivs : d > 0 /\ UAdvance(d)
  \/ UInterrupt \/ UDone
Env == (\E f \in Fds, x \in {{0}, {1}, {2}}, d \in {0, 1} : Happens(f, x, d)) \/ \E x \in BOOLEAN, d \in {0, 1} : Signal(x, d)
Auto == Begin \/ EndRun \/ Spin \/ FirstImm \/ NextImm \/ Poll1 \/ Woken \/ LoopTop \/ Net1 \/ Poll0 \/ Poll0Ret \/ Net2 \/ Tim \/ After
        \/ \E rc \in {0, 1} : Return(rc)
Next == bad = "" /\ (User \/ Env \/ Auto)
Spec == Init /\ [][Next]_vars
\* the loop does not stop by itself, and handlers return
Fair == Spec /\ WF_vars(bad = "" /\ (Auto \/ Return(0)))

Refines == bad = ""
View == <<evars, iq, mq, pf, pos, rec, sc, tq, rd, lp, intr, done, n, ru, bad>>

\* The parts fit together.
Sound ==
  /\ \A i \in 1..Len(pf) : pf[i].ev # {} /\ pos[pf[i].f] = i /\ pf[i].re \subseteq pf[i].ev \cup {2}
  /\ {<<pf[i].f, o>> : i \in 1..Len(pf), o \in {0, 1}} \cap UNION {{<<pf[i].f, o>> : o \in pf[i].ev} : i \in 1..Len(pf)} = rec
  /\ \A p \in Prios : p < mq => iq[p] = <<>>
  /\ rec = net /\ DOMAIN tq = DOMAIN tm /\ Imms = E!Imms

\* What is ready or due is not left waiting for ever by a running loop.
Delivers ==
  /\ \A s \in Ts : (s \in DOMAIN tq /\ tq[s] <= Now /\ lp.k # "no") ~> (s \notin DOMAIN tq \/ tq[s] > Now \/ lp.k = "no")
  /\ \A f \in Fds, o \in {0, 1} : (<<f, o>> \in rec /\ o \in rd[f] /\ lp.k # "no") ~> (<<f, o>> \notin rec \/ o \notin rd[f] \/ lp.k = "no")
  /\ \A s \in Is : (s \in Imms /\ lp.k # "no") ~> (s \notin Imms \/ lp.k = "no")

Show == lp.pc = "top" /\ n = N /\ ru = Runs => PrintT(<<"OPS", h.prog, h.rcs, h.blk>>)
=============================================================================
