-------------------------------- MODULE Relay --------------------------------
(***************************************************************************)
(* A design of the daemon: what the accept loop, the connection machine,   *)
(* the handshake, the two pipes, the timers and the shutdown handler do,   *)
(* together with an environment of clients, targets, an attacker, blocked  *)
(* links, time and signals.                                                *)
(*                                                                         *)
(* Every step performs events of Spiped.tla.  TLC shows that every one of  *)
(* them meets every requirement of every property (invariant Refines), so  *)
(* the requirements are consistent, can be met at every point, and a       *)
(* program which does what the design does is never rejected; and that the *)
(* design, with fairness, gives the end-to-end guarantees (below).         *)
(* Bug selects a deliberate mistake in the design, each of which must make *)
(* the requirements of the property it breaks fail.                        *)
(* The environment's moves, recorded in h, are replayed to the program.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NC,           \* connections
          Budget,       \* moves of the environment
          Horizon,      \* end of time (ms)
          Modes, MaxCs, Lists, Opts, \* configurations
          Moves,        \* kinds of environment moves
          Lead,         \* connections to set up before anything else
        Hist,         \* record them
          Enf,          \* requirements enforced
          Bug

VARIABLES cfg, now, g, cn,      \* as in Spiped
          d,                    \* the daemon's own state
          p,                    \* its state of each connection
          q,                    \* actions it is in the middle of
          blk,                  \* blocked links: <<connection, side>>
          left,                 \* moves left to the environment
          slept,                \* it is asleep
          bad,                  \* an event was not allowed
          h                     \* moves made
vars == <<cfg, now, g, cn, d, p, q, blk, left, slept, bad, h>>

L1 == {<<"A">>}
L2 == {<<"A", "B">>}
L3 == {<<"A", "B", "C">>}
L12 == L1 \cup L2
O0 == {<<0, 0>>}
O1 == {<<0, 0>>, <<1, 0>>, <<0, 1>>}
NL == 1
DL == 1
PL == 2
ML == 2
TOL == 0
S0 == INSTANCE Spiped WITH Props <- {}
SA == INSTANCE Spiped WITH Props <- Enf
X(c) == S0!X(c)
C == 0..(NC - 1)
Min(a, b) == IF a < b THEN a ELSE b
B(x) == Bug = x

\* perform an event of the specification
Emit(e) == now' = now /\ S0!Apply(e) /\ bad' = (bad \/ ~SA!Apply(e))

P0 == [ph |-> "none",   \* none, est, run, gone
       k |-> 1, cst |-> "idle",         \* connecting: next address; idle, wait, close, up
       sn |-> FALSE, rn |-> FALSE, sd |-> FALSE, rd |-> FALSE, hst |-> FALSE,
       f |-> "run", fb |-> 0,           \* plaintext to ciphertext
       r |-> "run", rb |-> 0, rg |-> 0] \* ciphertext to plaintext

Cfgs == {[mode |-> m, nopfs |-> o[1], reqpfs |-> o[2], timeo |-> 1000, maxc |-> n, ka |-> 1, src |-> "S",
          addrs |-> a, bind |-> "-", rtime |-> 0, drop |-> 0, uid |-> -1, gid |-> -1, badkey |-> 0, badcli |-> 0]
          : m \in Modes, o \in Opts, n \in MaxCs, a \in Lists}

Init ==
  /\ cfg \in Cfgs
  /\ now = 0
  /\ g = [S0!InitG EXCEPT !.dl = {cfg.addrs}, !.last = cfg.addrs, !.seeded = TRUE, !.bound = TRUE, !.listen = TRUE, !.phase = "up"]
  /\ cn = [c \in {} |-> S0!NoConn]
  /\ d = [acc |-> TRUE, n |-> 0, tp |-> 1000, term |-> FALSE, dead |-> FALSE]
  /\ p = [c \in C |-> P0]
  /\ q = <<>>
  /\ blk = {}
  /\ left = Budget
  /\ slept = FALSE
  /\ bad = FALSE
  /\ h = <<>>

(***************************************************************************)
(* Environment                                                             *)
(***************************************************************************)
Led == \A c \in 0..(Lead - 1) :
         p[c].ph \notin {"none"} /\ (p[c].ph = "gone" \/ (c \in DOMAIN cn /\ X(c).t = "conn" /\ X(c).tot >= NL + DL))
Env(kind, w, e) ==
  /\ kind \in Moves
  /\ kind \in {"conn", "cok", "hs"} \/ Led
  /\ q = <<>> /\ left > 0 /\ ~bad
  /\ left' = left - 1
  /\ Emit(e)
  /\ h' = IF Hist THEN Append(h, w) ELSE h
  /\ slept' = FALSE
  /\ UNCHANGED <<d, p, q>>

PNet(x) == IF cfg.mode = "e" THEN x.st \in {"queued", "open"} /\ x.a # "closed" ELSE x.t = "conn"
CNet(x) == IF cfg.mode = "e" THEN x.t = "conn" ELSE x.st \in {"queued", "open"} /\ x.a # "closed"

EnvStep ==
  \/ \E c \in C : /\ c \notin DOMAIN cn /\ \A b \in 0..(c - 1) : p[b].ph # "none" \/ b \in DOMAIN cn
                  /\ p[c].ph = "none"
                  /\ Env("conn", <<"conn">>, [e |-> "EClient", c |-> c]) /\ UNCHANGED blk
  \/ \E c \in DOMAIN cn : LET x == X(c) IN
     \/ /\ x.t = "trying" /\ x.tst = "pend"
        /\ \E ok \in {0, 1} : Env(IF ok = 1 THEN "cok" ELSE "cfail", <<IF ok = 1 THEN "cok" ELSE "cfail", c>>, [e |-> "EConn", c |-> c, ok |-> ok])
        /\ UNCHANGED blk
     \/ /\ PNet(x) /\ ~x.peof /\ ~x.prst
        /\ \E n \in {1, 3} : Env("plain", <<"pw", c, n>>, [e |-> "EPlain", c |-> c, n |-> n])
        /\ UNCHANGED blk
     \/ /\ PNet(x) /\ ~x.peof /\ ~x.prst
        /\ Env("peof", <<"peof", c>>, [e |-> "EEof", c |-> c, s |-> "p"])
        /\ UNCHANGED blk
     \/ /\ CNet(x) /\ ~x.ceof /\ ~x.crst
        /\ Env("ceof", <<"ceof", c>>, [e |-> "EEof", c |-> c, s |-> "c"])
        /\ UNCHANGED blk
     \/ /\ PNet(x) /\ ~x.prst
        /\ Env("rst", <<"prst", c>>, [e |-> "ERst", c |-> c, s |-> "p"])
        /\ UNCHANGED blk
     \/ /\ CNet(x) /\ ~x.crst
        /\ Env("rst", <<"crst", c>>, [e |-> "ERst", c |-> c, s |-> "c"])
        /\ UNCHANGED blk
     \/ /\ CNet(x) /\ ~x.ceof /\ ~x.crst
        /\ \/ x.tot = 0 /\ Env("hs", <<"hn", c>>, [e |-> "Item", c |-> c, k |-> "nonce", src |-> "peer", num |-> 0, mut |-> 0,
                                                  plen |-> 0, n |-> NL, y |-> "rnd", fits |-> 1])
           \/ x.tot = NL /\ Env("hs", <<"hd", c>>, [e |-> "Item", c |-> c, k |-> "dh", src |-> "peer", num |-> 0, mut |-> 0,
                                                    plen |-> 0, n |-> DL, y |-> "rnd", fits |-> 1])
           \/ x.tot = NL /\ Env("badhs", <<"hd", c, "key=wrong">>, [e |-> "Item", c |-> c, k |-> "dh", src |-> "other", num |-> 0, mut |-> 0,
                                                    plen |-> 0, n |-> DL, y |-> "rnd", fits |-> 1])
           \/ x.tot = NL /\ Env("one", <<"hd", c, "y=one">>, [e |-> "Item", c |-> c, k |-> "dh", src |-> "peer", num |-> 0, mut |-> 0,
                                                    plen |-> 0, n |-> DL, y |-> "one", fits |-> 1])
           \/ /\ x.tot >= NL + DL
              /\ \/ \E n \in {1, 2} : Env("pkt", <<"pk", c, n>>, [e |-> "Item", c |-> c, k |-> "pkt", src |-> "peer", num |-> x.nf - 2,
                                                          mut |-> 0, plen |-> n, n |-> PL, y |-> "rnd", fits |-> 1])
                 \/ ~x.bad /\ Env("forge", <<"pkm", c>>, [e |-> "Item", c |-> c, k |-> "pkt", src |-> "peer", num |-> x.nf - 2,
                                                          mut |-> 1, plen |-> 2, n |-> PL, y |-> "rnd", fits |-> 1])
                 \/ ~x.bad /\ Env("trunc", <<"pkt", c>>, [e |-> "Item", c |-> c, k |-> "pkt", src |-> "peer", num |-> x.nf - 2,
                                                          mut |-> 0, plen |-> 2, n |-> 1, y |-> "rnd", fits |-> 1])
        /\ UNCHANGED blk
     \/ \E s \in {"p", "c"} :
        /\ "block" \in Moves /\ Led /\ q = <<>> /\ left > 0 /\ ~bad
        /\ x.st = "open" /\ (IF s = "p" THEN PNet(x) ELSE CNet(x))
        /\ blk' = IF <<c, s>> \in blk THEN blk \ {<<c, s>>} ELSE blk \cup {<<c, s>>}
        /\ h' = IF Hist THEN Append(h, <<IF <<c, s>> \in blk THEN "open" ELSE "block", c, s>>) ELSE h
        /\ left' = left - 1 /\ slept' = FALSE
        /\ UNCHANGED <<cfg, now, g, cn, d, p, q, bad>>
  \/ /\ g.nsig < 2 /\ g.phase = "up"
     /\ Env("sig", <<"sig">>, [e |-> "Sig", sig |-> "TERM"]) /\ UNCHANGED blk

Tick ==
  /\ slept /\ q = <<>> /\ ~bad
  /\ now < Horizon /\ Led
  /\ now' = now + 500
  /\ slept' = FALSE
  /\ h' = IF Hist THEN Append(h, <<"adv">>) ELSE h
  /\ UNCHANGED <<cfg, g, cn, d, p, q, blk, left, bad>>

(***************************************************************************)
(* The daemon                                                              *)
(***************************************************************************)
Cblk(c) == <<c, "c">> \in blk /\ ~X(c).crst   \* a reset is noticed by writing
Pblk(c) == <<c, "p">> \in blk /\ ~X(c).prst
Aside == IF cfg.mode = "e" THEN "p" ELSE "c"
Tside == IF cfg.mode = "e" THEN "c" ELSE "p"

\* forget everything about a connection: close its sockets
CloseEv(c) ==
  LET x == X(c) IN
  (IF x.t \in {"trying", "failed"} THEN <<[e |-> "Close", c |-> c, s |-> "t"]>>
   ELSE IF x.t = "conn" THEN <<[e |-> "Close", c |-> c, s |-> Tside]>> ELSE <<>>)
  \o (IF x.a = "open" /\ ~B("fdleak") THEN <<[e |-> "Close", c |-> c, s |-> Aside]>> ELSE <<>>)
Gone(c) ==
  /\ p' = [p EXCEPT ![c] = [P0 EXCEPT !.ph = "gone"]]
  /\ d' = [d EXCEPT !.n = @ - 1, !.acc = IF B("noresume") THEN @ ELSE ~d.term]
Drop(c, first) == q' = first \o CloseEv(c) /\ Gone(c)

Accept ==
  /\ d.acc /\ g.listen /\ Len(g.lq) > 0
  /\ LET c == Head(g.lq) IN
     /\ q' = <<[e |-> "Accept", c |-> c]>>
     /\ p' = [p EXCEPT ![c].ph = "est", ![c].hst = (cfg.mode = "d")]
     /\ d' = [d EXCEPT !.n = @ + 1,
                       !.acc = IF B("limit") THEN d.n < cfg.maxc ELSE d.n + 1 < cfg.maxc]

Connecting(c) ==
  LET x == X(c) IN
  /\ p[c].ph = "est"
  /\ \/ /\ p[c].cst = "idle"
        /\ IF p[c].k > Len(cfg.addrs) THEN Drop(c, <<>>)
           ELSE /\ d' = d
                /\ \E res \in IF "sync" \in Moves THEN {"pend", "ok", "ECONNREFUSED"} ELSE {"pend"} :
                   /\ q' = <<[e |-> "Connect", c |-> c, addr |-> cfg.addrs[p[c].k], bind |-> "-", res |-> res]>>
                   /\ p' = [p EXCEPT ![c].k = @ + (IF B("skip") THEN 2 ELSE 1),
                                     ![c].hst = @ \/ (res = "ok" /\ cfg.mode = "e"),
                                     ![c].cst = CASE res = "pend" -> "wait" [] res = "ok" -> "up" [] OTHER -> "close"]
     \/ /\ p[c].cst = "wait" /\ x.tst # "pend"
        /\ d' = d
        /\ q' = <<[e |-> "SoErr", c |-> c, s |-> "t", st |-> 2, err |-> IF x.tst = "ok" THEN "0" ELSE "ECONNREFUSED"]>>
        /\ p' = [p EXCEPT ![c].hst = @ \/ (x.tst = "ok" /\ cfg.mode = "e"),
                          ![c].cst = IF x.tst = "ok" THEN "up" ELSE "close"]
     \/ /\ p[c].cst = "close"
        /\ IF B("giveup") THEN Drop(c, <<>>)
           ELSE /\ d' = d
                /\ q' = <<[e |-> "Close", c |-> c, s |-> "t"]>>
                /\ p' = [p EXCEPT ![c].cst = "idle"]

CAv(c) == X(c).tot - X(c).cr
PAv(c) == X(c).pw - X(c).pr

Handshaking(c) ==
  LET x == X(c) IN
  /\ p[c].ph = "est" /\ p[c].hst
  /\ \/ /\ x.crst /\ ~(p[c].sd /\ p[c].rd) /\ Drop(c, <<[e |-> "IoErr", c |-> c]>>)
     \/ /\ ~x.crst
        /\ \/ /\ ~p[c].sn /\ ~Cblk(c)
              /\ q' = <<[e |-> "Send", c |-> c, s |-> "c", n |-> NL], [e |-> "ONonce", c |-> c, fresh |-> IF B("nonce") THEN 0 ELSE 1]>>
              /\ p' = [p EXCEPT ![c].sn = TRUE] /\ d' = d
           \/ /\ ~p[c].rn /\ CAv(c) >= NL
              /\ q' = <<[e |-> "Recv", c |-> c, s |-> "c", n |-> NL]>>
              /\ p' = [p EXCEPT ![c].rn = TRUE] /\ d' = d
           \/ /\ ~p[c].rd /\ x.ceof /\ CAv(c) < (IF p[c].rn THEN DL ELSE NL) /\ ~B("hseof")
              /\ (p[c].rn => p[c].sn)
              /\ Drop(c, <<[e |-> "RecvEof", c |-> c, s |-> "c"]>>)
           \/ /\ p[c].sn /\ p[c].rn /\ ~p[c].sd /\ ~Cblk(c)
              /\ cfg.mode = "d" /\ ~B("eager") => p[c].rd
              /\ q' = <<[e |-> "Send", c |-> c, s |-> "c", n |-> DL],
                        [e |-> "ODh", c |-> c, y |-> IF cfg.nopfs = 1 /\ ~B("nopfs") THEN "one" ELSE "fresh", mac |-> "good"]>>
              /\ p' = [p EXCEPT ![c].sd = TRUE] /\ d' = d
           \/ /\ p[c].sn /\ p[c].rn /\ ~p[c].rd /\ CAv(c) >= DL
              /\ IF S0!HsIn(x, x.cr + DL) \/ B("nomac") \/ (B("weak") /\ x.tot = NL + DL)
                 THEN /\ q' = <<[e |-> "Recv", c |-> c, s |-> "c", n |-> DL]>>
                      /\ p' = [p EXCEPT ![c].rd = TRUE] /\ d' = d
                 ELSE Drop(c, <<[e |-> "Recv", c |-> c, s |-> "c", n |-> DL]>>)

Launch(c) ==
  /\ p[c].ph = "est" /\ p[c].cst = "up"
  /\ p[c].sd /\ (p[c].rd \/ B("half"))
  /\ q' = [i \in 1..4 |-> [e |-> "SockOpt", c |-> c, s |-> IF i <= 2 THEN "p" ELSE "c",
                           o |-> IF i % 2 = 1 /\ ~(B("opt") /\ i = 3) THEN "keepalive" ELSE "nodelay", v |-> 1, ok |-> 1]]
  /\ p' = [p EXCEPT ![c].ph = "run"] /\ d' = d

RECURSIVE Pk(_, _, _, _)
Pk(c, n, num, lo) ==     \* packets carrying n bytes
  IF n = 0 THEN <<>>
  ELSE LET m == Min(n, ML) IN
       <<[e |-> "Send", c |-> c, s |-> "c", n |-> PL], [e |-> "OPkt", c |-> c, num |-> num, len |-> m, lo |-> lo]>>
       \o Pk(c, n - m, num + 1, lo + m)

Forward(c) ==
  LET x == X(c) IN
  /\ p[c].ph = "run"
  /\ \/ /\ p[c].f = "run" /\ p[c].fb = 0 /\ PAv(c) > 0 /\ ~x.prst
        /\ \E n \in {1, Min(PAv(c), 2 * ML)} :
           /\ q' = <<[e |-> "Recv", c |-> c, s |-> "p", n |-> n]>>
           /\ p' = [p EXCEPT ![c].fb = IF B("lose") /\ n > ML THEN ML ELSE n]
        /\ d' = d
     \/ /\ p[c].fb > 0 /\ ~Cblk(c) /\ ~x.crst
        /\ q' = Pk(c, p[c].fb, IF B("num0") THEN 0 ELSE x.np, x.enc)
        /\ p' = [p EXCEPT ![c].fb = 0] /\ d' = d
     \/ /\ p[c].f = "run" /\ (p[c].fb = 0 \/ B("early")) /\ PAv(c) = 0 /\ x.peof /\ ~x.prst
        /\ q' = <<[e |-> "RecvEof", c |-> c, s |-> "p"], [e |-> "Shut", c |-> c, s |-> "c", how |-> IF B("how") THEN "rw" ELSE "w", err |-> "0"]>>
        /\ IF B("half2") THEN Gone(c) ELSE p' = [p EXCEPT ![c].f = "done"] /\ d' = d
     \/ /\ p[c].f = "run" /\ p[c].fb = 0 /\ x.prst
        /\ IF B("noerr") THEN FALSE ELSE Drop(c, <<[e |-> "IoErr", c |-> c]>>)
     \/ /\ p[c].fb > 0 /\ ~Cblk(c) /\ x.crst
        /\ Drop(c, <<[e |-> "IoErr", c |-> c]>>)

Reverse(c) ==
  LET x == X(c) IN
  /\ p[c].ph = "run"
  /\ \/ /\ p[c].r = "run" /\ p[c].rg = 0 /\ CAv(c) > 0 /\ ~x.crst
        /\ \E n \in {Min(CAv(c), 2 * PL - p[c].rb)} :
           LET w == (p[c].rb + n) \div PL
               isbad == S0!BadIn(x, x.cr + n) IN
           IF isbad /\ ~B("accept")
           THEN Drop(c, <<[e |-> "Recv", c |-> c, s |-> "c", n |-> n]>>)
           ELSE /\ q' = <<[e |-> "Recv", c |-> c, s |-> "c", n |-> n]>>
                /\ p' = [p EXCEPT ![c].rb = p[c].rb + n - w * PL,
                                  ![c].rg = IF isbad THEN ML ELSE S0!GoodPlain(x, x.cr + n) - x.pd]
                /\ d' = d
     \/ /\ p[c].rg > 0 /\ ~Pblk(c) /\ ~x.prst
        /\ \E n \in {1, p[c].rg} :
           /\ q' = <<[e |-> "Send", c |-> c, s |-> "p", n |-> n, lo |-> x.pd]>>
           /\ p' = [p EXCEPT ![c].rg = IF B("short") THEN 0 ELSE @ - n] /\ d' = d
     \/ /\ p[c].rg > 0 /\ ~Pblk(c) /\ x.prst
        /\ Drop(c, <<[e |-> "IoErr", c |-> c]>>)
     \/ /\ p[c].r = "run" /\ p[c].rg = 0 /\ CAv(c) = 0 /\ x.ceof /\ ~x.crst
        /\ q' = <<[e |-> "RecvEof", c |-> c, s |-> "c"], [e |-> "Shut", c |-> c, s |-> "p", how |-> "w", err |-> "0"]>>
        /\ p' = [p EXCEPT ![c].r = "done"] /\ d' = d
     \/ /\ p[c].r = "run" /\ p[c].rg = 0 /\ x.crst
        /\ Drop(c, <<[e |-> "IoErr", c |-> c]>>)

Finished(c) ==
  /\ p[c].ph = "run" /\ ~B("linger")
  /\ IF B("oneside") THEN p[c].f = "done" \/ p[c].r = "done" ELSE p[c].f = "done" /\ p[c].r = "done"
  /\ p[c].rg = 0
  /\ Drop(c, <<>>)

Timeout(c) ==
  /\ p[c].ph = "est"
  /\ \/ p[c].cst # "up" /\ now >= X(c).ta + cfg.timeo /\ ~B("noctimer")
     \/ p[c].hst /\ ~(p[c].sd /\ p[c].rd) /\ now >= X(c).th + cfg.timeo /\ ~B("nohtimer")
     \/ B("htimer") /\ p[c].hst /\ ~(p[c].sd /\ p[c].rd) /\ now >= X(c).ta + cfg.timeo
  /\ Drop(c, <<>>)

\* SIGTERM is noticed within a second; then nothing more is accepted
Notice ==
  /\ ~d.term /\ now >= d.tp
  /\ IF g.sigt >= 0 /\ ~B("noterm")
     THEN /\ d' = [d EXCEPT !.term = TRUE, !.acc = B("keepacc") /\ @]
          /\ q' = IF B("keepacc") THEN <<>> ELSE <<[e |-> "Close", c |-> -1, s |-> "l"]>>
     ELSE /\ d' = [d EXCEPT !.tp = now + 1000] /\ q' = <<>>
  /\ p' = p
Leave ==
  /\ d.term /\ ~d.dead /\ (d.n = 0 \/ B("abandon"))
  /\ d' = [d EXCEPT !.dead = TRUE]
  /\ q' = <<[e |-> "Exit", code |-> IF B("status") THEN 1 ELSE 0, socks |-> 0, heap |-> 0, busy |-> 0]>>
  /\ p' = p
Die ==  \* the second signal
  /\ d.term /\ g.nsig = 2 /\ ~d.dead /\ ~B("deaf")
  /\ d' = [d EXCEPT !.dead = TRUE]
  /\ q' = <<[e |-> "Killed", sig |-> "TERM"]>>
  /\ p' = p

Conn(c) == Connecting(c) \/ Handshaking(c) \/ Launch(c) \/ Forward(c) \/ Reverse(c) \/ Finished(c) \/ Timeout(c)
Work ==
  /\ q = <<>> /\ ~d.dead /\ ~bad
  /\ \/ Accept \/ Notice \/ Leave \/ Die
     \/ \E c \in DOMAIN cn : Conn(c)

Prog ==
  /\ Work
  /\ slept' = FALSE
  /\ h' = IF Hist THEN Append(h, <<"work">>) ELSE h
  /\ UNCHANGED <<cfg, now, g, cn, blk, left, bad>>
Act ==
  /\ q # <<>> /\ ~bad
  /\ Emit(Head(q))
  /\ q' = Tail(q)
  /\ UNCHANGED <<d, p, blk, left, slept, h>>

Io(c) ==
  LET x == X(c) IN
  <<c, IF S0!PUp(x) THEN PAv(c) ELSE 0, IF S0!CUp(x) THEN CAv(c) ELSE 0,
    IF S0!PUp(x) /\ ~Pblk(c) THEN 1 ELSE 0, IF S0!CUp(x) /\ ~Cblk(c) THEN 1 ELSE 0,
    IF x.prst THEN 2 ELSE IF x.peof THEN 1 ELSE 0, IF x.crst THEN 2 ELSE IF x.ceof THEN 1 ELSE 0>>
RECURSIVE Ios(_)
Ios(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN <<Io(c)>> \o Ios(S \ {c})
Sleep ==
  /\ q = <<>> /\ ~slept /\ ~d.dead /\ ~bad
  /\ ~ENABLED Work
  /\ Emit([e |-> "Idle", io |-> Ios(S0!Open), lq |-> Len(g.lq), heap |-> 0])
  /\ slept' = TRUE
  /\ h' = IF Hist /\ h # <<>> THEN Append(h, <<"idle">>) ELSE h
  /\ UNCHANGED <<d, p, q, blk, left>>

Next == EnvStep \/ Tick \/ Prog \/ Act \/ Sleep
Spec == Init /\ [][Next]_vars /\ WF_vars(Prog) /\ WF_vars(Act) /\ WF_vars(Sleep) /\ WF_vars(Tick)

\* moves are not part of the state
View == <<cfg, now, g, cn, d, p, q, blk, left, slept, bad>>
\* in simulation: print the moves of each behaviour at its end
Show == (q = <<>> /\ (d.dead \/ (slept /\ now >= Horizon))) => PrintT(<<"MOVES", cfg.mode, cfg.nopfs, cfg.reqpfs, cfg.maxc, Len(cfg.addrs), h>>)

(***************************************************************************)
(* What the requirements add up to                                         *)
(***************************************************************************)
Refines == ~bad
\* what is delivered are bytes the other side sent, with nothing inserted;
\* what is sent is what was read, once, in order, in authentic packets
Delivered == \A c \in DOMAIN cn : X(c).pd <= S0!GoodPlain(X(c), X(c).cr) /\ X(c).enc <= X(c).pw
Secrecy == \A c \in DOMAIN cn : (X(c).np > 0 \/ X(c).pd > 0) => X(c).nf >= 2 /\ ~(X(c).bad /\ X(c).bf < 2)
Limit == Cardinality(S0!Open) <= S0!MaxC
NoLate == d.dead => g.phase = "dead" \/ q # <<>>
\* nothing is stuck: a connection whose links are open and whose ends have
\* both said all they had to say ends
Ends == \A c \in C : (p[c].ph = "run" /\ X(c).peof /\ X(c).ceof) ~> (p[c].ph = "gone" \/ bad \/ d.dead \/ blk # {})
\* connections do not stay half made
Bounded == \A c \in C : (p[c].ph = "est" /\ now + 1500 <= Horizon) ~> (p[c].ph # "est" \/ bad \/ d.dead)
Relayed == \A c \in C : (p[c].ph = "run" /\ X(c).pw > X(c).enc) ~> (X(c).pw = X(c).enc \/ p[c].ph = "gone" \/ bad \/ d.dead \/ blk # {})
Drains == (g.sigt >= 0 /\ now + 2500 <= Horizon) ~> (g.phase = "dead" \/ d.n > 0 \/ bad)
=============================================================================
