------------------------------- MODULE Spiped -------------------------------
(***************************************************************************)
(* The spiped daemon at the level of the system-call boundary.             *)
(*                                                                         *)
(* A behaviour interleaves actions of the environment (clients, targets,   *)
(* an attacker on the encrypted link, the resolver, signals, time) with    *)
(* actions of the program (every system call whose effect matters to a     *)
(* user).  Encrypted traffic is symbolic: what arrives on the encrypted    *)
(* side is a sequence of items, each of which is either the authentic next *)
(* handshake message or packet, or is not.                                 *)
(*                                                                         *)
(* Every requirement on the program is tagged with the property (C01..C24  *)
(* of properties.jsonl) it belongs to; the constant Props selects which    *)
(* are enforced, so that the same machine decides each property on its     *)
(* own.  Relay.tla is a design of the daemon which TLC shows to meet all of  *)
(* them; SpipedTrace checks recorded executions of the real program.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NL, DL, PL,   \* wire lengths: nonce, DH message, packet
          ML,           \* largest payload of a packet
          Props,        \* enforced properties
          TOL           \* how late (ms) a due action may be

VARIABLES cfg,          \* command line: constant within a behaviour
          now,          \* ms
          g,            \* the daemon
          cn            \* connections, indexed by arrival
vars == <<cfg, now, g, cn>>

R(p, x) == p \in Props => x
RS(ps, x) == ps \cap Props # {} => x

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(***************************************************************************)
(* State                                                                   *)
(***************************************************************************)
NoConn == [
  st |-> "none",          \* none, queued, open, done
  a |-> "none",           \* accepted socket: none, open, closed
  t |-> "none",           \* target socket: none, trying, failed, conn, closed
  k |-> 0,                \* connection attempts made
  al |-> {},              \* address lists this connection may be using
  tst |-> "pend",         \* what the network did with the current attempt
  ta |-> 0, th |-> -1,    \* start of connecting, start of handshaking
  tot |-> 0,              \* bytes put on the encrypted link towards the program
  nf |-> 0,               \* authentic frames among them (nonce, DH, packets)
  bad |-> FALSE, bf |-> 0, \* a forged frame follows; its index
  cum |-> <<>>,           \* payload of the first i packets, accumulated
  cr |-> 0,               \* bytes read by the program from the encrypted link
  ceof |-> FALSE, ceofr |-> FALSE,  \* EOF on it: sent, read
  on |-> FALSE, od |-> FALSE, np |-> 0, cb |-> 0, \* emitted: nonce, DH, packets, bytes
  pw |-> 0, pr |-> 0,     \* plaintext written to / read by the program
  peof |-> FALSE, peofr |-> FALSE,
  enc |-> 0,              \* plaintext carried by emitted packets
  pd |-> 0,               \* plaintext delivered by the program
  sp |-> FALSE, sc |-> FALSE,       \* write side shut down: plain, encrypted
  err |-> FALSE,          \* an operation on one of the sockets failed
  prst |-> FALSE, crst |-> FALSE,   \* reset by the remote end
  opt |-> [kp |-> -1, kc |-> -1, np |-> -1, nc |-> -1],  \* socket options
  unk |-> FALSE           \* keys unknown to the reference peer
  ]

InitG == [
  phase |-> "init",       \* init, up, dead
  listen |-> FALSE,       \* listening socket open
  bound |-> FALSE,
  nacc |-> 0,             \* connections accepted so far
  lq |-> <<>>,            \* listen queue
  sigt |-> -1, nsig |-> 0, die |-> FALSE,
  slack |-> 0,            \* extra lateness caused by interrupting signals
  oom |-> FALSE, rfail |-> FALSE, fatal |-> FALSE, sfail |-> FALSE,
  seeded |-> FALSE, rb |-> 0, last |-> <<>>,
  reqs |-> 0,             \* generator requests since the last reseed (bound)
  cred |-> <<>>, gwarn |-> FALSE, \* ids and number of groups; groups refused
  pfail |-> FALSE,
  dl |-> {},              \* target address lists that may be current
  dlast |-> 0, dask |-> FALSE, asked |-> 0,
  late |-> FALSE,         \* went to sleep after the time to notice the signal
  hb |-> -1, nd |-> 0, peak |-> 0]

Open == {c \in DOMAIN cn : cn[c].st = "open"}
MaxC == IF cfg.maxc = 0 THEN 1000000 ELSE cfg.maxc

\* which physical socket carries plaintext
PUp(x) == IF cfg.mode = "e" THEN x.a = "open" ELSE x.t = "conn"
CUp(x) == IF cfg.mode = "e" THEN x.t = "conn" ELSE x.a = "open"

\* byte offset at which frame i (0 = nonce, 1 = DH, 2.. packets) ends
FEnd(i) == IF i = 0 THEN NL ELSE NL + DL + (i - 1) * PL
\* authentic payload contained in the first b bytes of the encrypted link
GoodPlain(x, b) ==
  LET k == IF b < NL + DL THEN 0 ELSE Min((b - NL - DL) \div PL, Len(x.cum))
  IN IF k <= 0 THEN 0 ELSE x.cum[k]
\* authentic handshake contained in the first b bytes
HsIn(x, b) == b >= NL + DL /\ x.nf >= 2
HsDone(x) == x.od /\ x.cb >= NL + DL /\ HsIn(x, x.cr)
\* a forged frame is completely contained in the first b bytes
BadIn(x, b) == x.bad /\ b >= FEnd(x.bf)

(***************************************************************************)
(* Environment                                                             *)
(***************************************************************************)
UG == UNCHANGED <<cfg, g>>
UC == UNCHANGED <<cfg, cn>>
\* only connections which exist (and have not ended) are in the domain of cn
X(c) == IF c \in DOMAIN cn THEN cn[c] ELSE NoConn
Upd(c, x) ==
  cn' = IF c \notin DOMAIN cn THEN cn
        ELSE IF x.st = "done" THEN [d \in DOMAIN cn \ {c} |-> cn[d]]
        ELSE [cn EXCEPT ![c] = x]

EClient(c) ==
  /\ c \notin DOMAIN cn
  /\ cn' = [d \in DOMAIN cn \cup {c} |-> IF d = c THEN [NoConn EXCEPT !.st = "queued"] ELSE cn[d]]
  /\ g' = [g EXCEPT !.lq = Append(g.lq, c)]
  /\ UNCHANGED cfg

EConn(c, ok) ==
  /\ Upd(c, [X(c) EXCEPT !.tst = IF ok = 1 THEN "ok" ELSE "failed"])
  /\ UG

EPlain(c, n) == Upd(c, [X(c) EXCEPT !.pw = @ + n]) /\ UG
EEof(c, s) ==
  /\ Upd(c, IF s = "p" THEN [X(c) EXCEPT !.peof = TRUE] ELSE [X(c) EXCEPT !.ceof = TRUE])
  /\ UG
ERst(c, s) ==
  /\ Upd(c, IF s = "p" THEN [X(c) EXCEPT !.prst = TRUE] ELSE [X(c) EXCEPT !.crst = TRUE])
  /\ UG

(* An item reaches the program's end of the encrypted link.  It is         *)
(* authentic iff it is what the peer holding the same key sends next in    *)
(* this connection, in this direction, unaltered.                          *)
DhGood(src, mut, y, fits) ==
  /\ src = "peer" /\ mut = 0 /\ fits = 1
  /\ y \notin {"p", "pp1", "max"}
  /\ ~(cfg.reqpfs = 1 /\ y = "one")
Item(c, k, src, num, mut, plen, n, y, fits) ==
  LET x == X(c)
      good == CASE x.bad -> FALSE
                [] x.nf = 0 -> k = "nonce" /\ n = NL
                [] x.nf = 1 -> k = "dh" /\ n = DL /\ DhGood(src, mut, y, fits)
                [] OTHER -> /\ k = "pkt" /\ src = "peer" /\ mut = 0 /\ n = PL
                            /\ num = x.nf - 2 /\ plen >= 1 /\ plen <= ML
      prev == IF x.cum = <<>> THEN 0 ELSE x.cum[Len(x.cum)]
      x2 == [x EXCEPT !.tot = @ + n, !.unk = @ \/ (k = "dh" /\ y = "pm1")]
  IN /\ Upd(c, IF good
               THEN [x2 EXCEPT !.nf = @ + 1,
                               !.cum = IF x.nf >= 2 THEN Append(@, prev + plen) ELSE @]
               ELSE IF x.bad THEN x2
               ELSE [x2 EXCEPT !.bad = TRUE, !.bf = Max(x.nf, 1)])
     /\ UG

Tick == UNCHANGED <<cfg, g, cn>>

Sig(s) ==
  LET noticed == g.sigt >= 0 /\ now' > g.sigt + 1000 + TOL + g.slack
  IN
  /\ g' = IF s = "TERM"
          THEN [g EXCEPT !.sigt = IF @ < 0 THEN now' ELSE @, !.nsig = @ + 1,
                         !.die = noticed \/ s # "TERM"]
          ELSE [g EXCEPT !.die = TRUE]
  /\ UC
Eintr == g' = [g EXCEPT !.slack = @ + 1100] /\ UC

(* The first SIGTERM never kills; a later one does once the first has been *)
(* noticed (it may already do so before that).                             *)
Killed(s) ==
  /\ R("C09", s # "TERM" \/ g.nsig >= 2)
  /\ RS({"C10", "C15"}, s \in {"TERM", "INT"})
  /\ g' = [g EXCEPT !.phase = "dead", !.die = FALSE]
  /\ UC

(***************************************************************************)
(* Program: accepting and connecting                                       *)
(***************************************************************************)
Draining == g.sigt >= 0
AcceptSlack == 1000 + TOL + g.slack

\* The identity the -u option asks for is in force, irrevocably: all of the
\* real, effective and saved ids; no supplementary group is left (unless the
\* system refused that, which is documented to be a warning only).
PrivOk ==
  cfg.drop = 1 =>
    /\ ~g.pfail
    /\ g.cred # <<>>
    /\ cfg.uid # -1 => \A i \in 1..3 : g.cred[i] = cfg.uid
    /\ cfg.gid # -1 => \A i \in 4..6 : g.cred[i] = cfg.gid
    /\ g.cred[7] = 0 \/ g.gwarn

Accept(c) ==
  /\ g.phase # "dead"
  /\ g.listen
  /\ RS({"C08"}, Cardinality(Open) < MaxC)
  /\ R("C09", ~g.late)
  /\ R("C20", PrivOk)
  /\ Len(g.lq) > 0 /\ Head(g.lq) = c
  /\ Upd(c, [X(c) EXCEPT !.st = "open", !.a = "open", !.ta = now',
                          !.th = IF cfg.mode = "d" THEN now' ELSE -1,
                          !.al = g.dl])
  /\ LET up == Cardinality(Open) + 1 > g.peak  \* caches may grow with the peak
     IN g' = [g EXCEPT !.lq = Tail(@), !.nacc = @ + 1,
                       !.peak = IF up THEN Cardinality(Open) + 1 ELSE @,
                       !.hb = IF up THEN -1 ELSE @]
  /\ UNCHANGED cfg

\* Only failures of the listening socket itself may end the daemon.
AcceptFail(err) ==
  /\ g' = [g EXCEPT !.fatal = @ \/ err \notin {"EAGAIN", "EINTR", "ECONNABORTED"}]
  /\ UC

\* lists under which the (k+1)-th attempt may go to addr
ListsFor(x, addr) == {l \in x.al : Len(l) > x.k /\ l[x.k + 1] = addr}

Attempt(c, x2) == Upd(c, [x2 EXCEPT !.k = @ + 1])

Connect(c, addr, bind, res) ==
  LET x == X(c)
      al2 == IF x.al \cap ListsFor(x, addr) # {} THEN ListsFor(x, addr) ELSE x.al
  IN
  /\ x.a = "open" /\ x.t = "none"
  /\ RS({"C11", "C22"}, ListsFor(x, addr) # {})
  /\ R("C22", bind = cfg.bind)
  /\ Attempt(c, [x EXCEPT !.al = al2, !.tst = "pend",
                   !.t = CASE res = "ok" -> "conn" [] res = "pend" -> "trying" [] OTHER -> "failed",
                   !.th = IF res = "ok" /\ cfg.mode = "e" THEN now' ELSE @])
  /\ UG

\* A socket could not be created or prepared: counts as a failed attempt.
NoSocket(c) ==
  /\ IF c \in DOMAIN cn /\ cn[c].st = "open" /\ cn[c].t \in {"none", "failed"}
     THEN Attempt(c, [cn[c] EXCEPT !.t = "none"]) /\ UNCHANGED <<cfg, g>>
     ELSE g' = [g EXCEPT !.sfail = TRUE] /\ UC

SoErr(c, s, st, err) ==
  LET x == X(c) IN
  /\ IF x.t = "conn" /\ ~x.on /\ x.cr = 0 /\ cfg.mode = "e" /\ err = "0"
     THEN Upd(c, [x EXCEPT !.th = now'])
     ELSE IF x.t # "trying" THEN UNCHANGED cn
     ELSE Upd(c, [x EXCEPT !.t = IF err # "0" THEN "failed" ELSE IF st = 2 THEN "conn" ELSE "trying",
                           !.th = IF err = "0" /\ st = 2 /\ cfg.mode = "e" THEN now' ELSE @])
  /\ UG

(***************************************************************************)
(* Program: why a connection may end                                       *)
(***************************************************************************)
TimedOut(x) ==
  /\ cfg.timeo >= 0
  /\ \/ x.t \notin {"conn", "closed"} /\ now' + 1 >= x.ta + cfg.timeo
     \/ x.th >= 0 /\ ~HsDone(x) /\ now' + 1 >= x.th + cfg.timeo
AllFailed(x) ==
  /\ x.t \in {"failed", "none"}
  /\ \E l \in x.al : x.k >= Len(l)
\* the failure of the current attempt has been reported
Reason(x) ==
  \/ x.err \/ g.oom \/ g.fatal
  \/ x.sp /\ x.sc
  \/ BadIn(x, x.cr)
  \/ x.ceofr /\ ~HsIn(x, x.cr)
  \/ AllFailed(x)
  \/ TimedOut(x)
  \/ g.rfail
Ended == {"C01", "C03", "C04", "C07", "C08", "C09", "C10", "C24"}

Fin(x) == IF x.a = "closed" /\ x.t # "trying" /\ x.t # "conn" /\ x.t # "failed"
          THEN [x EXCEPT !.st = "done"] ELSE x

\* s: "p"/"c" an established socket, "t" a target socket not connected
Close(c, s) ==
  LET x == X(c)
      aside == IF cfg.mode = "e" THEN "p" ELSE "c"
      x2 == CASE s = "t" -> [x EXCEPT !.t = "none"]
              [] s = aside -> [x EXCEPT !.a = "closed"]
              [] OTHER -> [x EXCEPT !.t = "closed"]
      ending == x.a = "closed" \/ x.t = "closed" \* the other half is gone already
  IN
  /\ x.st = "open"
  /\ IF s = "t"
     THEN /\ x.t \in {"trying", "failed", "conn"}
          /\ RS({"C07", "C10", "C11"}, x.t = "failed" \/ x.tst = "failed" \/ ending \/ Reason(x))
     ELSE /\ IF s = aside THEN x.a = "open" ELSE x.t \in {"conn", "trying"}
          /\ RS(Ended, ending \/ Reason(x))
          /\ R("C11", s # aside \/ ending \/ x.t \in {"conn"} \/ Reason(x))
  /\ Upd(c, Fin(x2))
  /\ g' = [g EXCEPT !.nd = IF Fin(x2).st = "done" THEN @ + 1 ELSE @]
  /\ UNCHANGED cfg

CloseListener ==
  /\ g.listen
  /\ g' = [g EXCEPT !.listen = FALSE]
  /\ UC

(***************************************************************************)
(* Program: moving data                                                    *)
(***************************************************************************)
Recv(c, s, n) ==
  LET x == X(c) IN
  /\ x.st = "open"
  /\ IF s = "p" THEN PUp(x) /\ x.pr + n <= x.pw /\ Upd(c, [x EXCEPT !.pr = @ + n])
                ELSE CUp(x) /\ x.cr + n <= x.tot /\ Upd(c, [x EXCEPT !.cr = @ + n])
  /\ UG
RecvEof(c, s) ==
  LET x == X(c) IN
  /\ x.st = "open"
  /\ IF s = "p" THEN Upd(c, [x EXCEPT !.peofr = TRUE]) ELSE Upd(c, [x EXCEPT !.ceofr = TRUE])
  /\ UG
IoErr(c) == Upd(c, [X(c) EXCEPT !.err = TRUE]) /\ UG

OptOk(x) ==
  /\ x.opt.np = 1 /\ x.opt.nc = 1
  /\ IF cfg.ka = 1 THEN x.opt.kp = 1 /\ x.opt.kc = 1
                   ELSE x.opt.kp # 1 /\ x.opt.kc # 1

\* n bytes of plaintext delivered, which are the authentic bytes from lo on
SendP(c, n, lo) ==
  LET x == X(c) IN
  /\ x.st = "open" /\ PUp(x)
  /\ R("C04", HsDone(x))
  /\ RS({"C01", "C02"}, lo = x.pd /\ x.pd + n <= GoodPlain(x, x.cr))
  /\ R("C02", ~BadIn(x, x.cr) \/ x.pd + n <= GoodPlain(x, x.cr))
  /\ R("C03", ~x.sp)
  /\ R("C24", OptOk(x))
  /\ Upd(c, [x EXCEPT !.pd = @ + n])
  /\ UG
SendC(c, n) ==
  LET x == X(c) IN
  /\ x.st = "open" /\ CUp(x)
  /\ R("C03", ~x.sc)
  /\ Upd(c, [x EXCEPT !.cb = @ + n])
  /\ UG

\* messages completed by what was sent
ONonce(c, fresh) ==
  LET x == X(c) IN
  /\ ~x.on
  /\ RS({"C06", "C21", "C05"}, fresh = 1)
  /\ R("C21", g.seeded /\ ~g.rfail /\ g.reqs <= 256)
  /\ Upd(c, [x EXCEPT !.on = TRUE])
  /\ g' = [g EXCEPT !.reqs = @ + 1]
  /\ UNCHANGED cfg
ODh(c, y, mac) ==
  LET x == X(c) IN
  /\ x.on /\ ~x.od
  /\ RS({"C06"}, mac = "good" \/ (x.bad /\ x.bf <= 1))
  /\ R("C04", x.cr >= NL)
  /\ R("C04", cfg.mode = "d" => HsIn(x, x.cr))
  /\ RS({"C05"}, y = IF cfg.nopfs = 1 THEN "one" ELSE "fresh")
  /\ RS({"C06", "C21"}, cfg.nopfs = 0 => y = "fresh")
  /\ R("C21", cfg.nopfs = 1 \/ (g.seeded /\ ~g.rfail /\ g.reqs <= 256))
  /\ Upd(c, [x EXCEPT !.od = TRUE])
  /\ g' = [g EXCEPT !.reqs = IF cfg.nopfs = 1 THEN @ ELSE @ + 1]
  /\ UNCHANGED cfg
OPkt(c, num, len, lo) ==
  LET x == X(c) IN
  /\ x.od
  /\ R("C04", HsDone(x))
  /\ R("C24", OptOk(x))
  /\ x.unk \/
     /\ RS({"C05", "C06", "C23"}, num = x.np /\ len >= 1 /\ len <= ML)
     /\ R("C01", len >= 1 /\ lo = x.enc /\ x.enc + len <= x.pr)
  /\ Upd(c, [x EXCEPT !.np = @ + 1, !.enc = @ + Max(len, 0)])
  /\ UG

\* err: shutting down the write side of a socket already disconnected is no failure
Shut(c, s, how, err) ==
  LET x == IF err \in {"0", "ENOTCONN", "ECONNRESET"} THEN X(c) ELSE [X(c) EXCEPT !.err = TRUE] IN
  /\ x.st = "open"
  /\ R("C03", how = "w")
  /\ IF s = "c"
     THEN /\ R("C03", ~x.sc /\ x.peofr /\ (x.unk \/ x.enc = x.pr) /\ x.cb = NL + DL + PL * x.np)
          /\ Upd(c, [x EXCEPT !.sc = TRUE])
     ELSE /\ R("C03", ~x.sp /\ x.ceofr /\ x.pd = GoodPlain(x, x.cr))
          /\ R("C02", ~BadIn(x, x.cr))
          /\ Upd(c, [x EXCEPT !.sp = TRUE])
  /\ UG

\* ok: the call succeeded; options a socket type lacks are not an error
SockOpt(c, s, o, v, ok) ==
  LET x == X(c)
      val == IF ok = 1 \/ v = 0 THEN v ELSE 1
  IN
  /\ Upd(c, [x EXCEPT !.opt = CASE o = "keepalive" /\ s = "p" -> [@ EXCEPT !.kp = v]
                                [] o = "keepalive" /\ s = "c" -> [@ EXCEPT !.kc = v]
                                [] o = "nodelay" /\ s = "p" -> [@ EXCEPT !.np = val]
                                [] o = "nodelay" /\ s = "c" -> [@ EXCEPT !.nc = val]
                                [] OTHER -> @])
  /\ UG

(***************************************************************************)
(* Program: randomness, privileges, resolver, start and end                *)
(***************************************************************************)
RndRead(n) ==
  /\ g' = IF n <= 0 THEN [g EXCEPT !.rfail = TRUE, !.rb = 0]
          ELSE IF ~g.seeded
          THEN IF g.rb + n >= 48 THEN [g EXCEPT !.seeded = TRUE, !.rb = 0, !.rfail = FALSE]
                                 ELSE [g EXCEPT !.rb = @ + n]
          ELSE IF g.rb + n >= 32 THEN [g EXCEPT !.reqs = 0, !.rb = 0, !.rfail = FALSE]
                                 ELSE [g EXCEPT !.rb = @ + n]
  /\ UC
RndFail == g' = [g EXCEPT !.rfail = TRUE] /\ UC

\* the daemon's listening socket
Bind(addr, err) ==
  /\ R("C22", addr = cfg.src)
  /\ g' = [g EXCEPT !.bound = (err = "0"), !.sfail = @ \/ err # "0"]
  /\ UC
Listen(addr, bl, err) ==
  /\ R("C22", addr = cfg.src)
  /\ g' = [g EXCEPT !.listen = (err = "0"), !.sfail = @ \/ err # "0"]
  /\ UC

\* st: real, effective, saved uid; same for gid; number of groups
Priv(op, id, err, st) ==
  /\ R("C20", cfg.drop = 1)
  /\ R("C20", g.listen /\ g.nacc = 0)
  /\ g' = [g EXCEPT !.cred = st,
                    !.gwarn = @ \/ (op = "setgroups" /\ err = "EPERM"),
                    !.pfail = @ \/ (err # "0" /\ ~(op = "setgroups" /\ err = "EPERM")),
                    !.sfail = @ \/ (err # "0" /\ ~(op = "setgroups" /\ err = "EPERM"))]
  /\ UC

DnsAsk(th) ==
  /\ R("C11", th = 1 => now' + 1 >= g.dlast + cfg.rtime)
  /\ R("C11", th = 1 => cfg.rtime > 0 /\ ~g.dask)
  /\ g' = [g EXCEPT !.dask = TRUE, !.asked = @ + 1]
  /\ UC
\* l: addresses, <<>> when the resolution failed
DnsAns(l, th) ==
  /\ g' = [g EXCEPT !.dl = IF l = <<>> THEN @ ELSE IF th = 0 THEN {l} ELSE @ \cup {l},
                    !.last = IF l = <<>> THEN @ ELSE l, !.dlast = now', !.dask = FALSE,
                    !.sfail = @ \/ (l = <<>> /\ th = 0)]
  /\ UC

Oom == g' = [g EXCEPT !.oom = TRUE] /\ UC

Exit(code, socks, heap, busy) ==
  /\ g.phase # "dead"
  /\ R("C20", g.pfail \/ ~PrivOk => code # 0)
  /\ R("C23", cfg.badkey = 1 => code # 0)
  /\ IF g.sfail \/ cfg.badkey = 1 \/ cfg.badcli = 1
     THEN RS({"C10", "C18", "C19", "C20", "C23"}, code # 0)
     ELSE IF g.fatal \/ g.oom \/ g.rfail THEN TRUE
     ELSE /\ RS({"C10", "C08"} \cup Ended, Draining /\ Cardinality(Open) = 0)
          /\ R("C09", code = 0)
          /\ R("C10", heap <= 8 * busy /\ socks = 0)  \* a busy resolver owns some
  /\ g' = [g EXCEPT !.phase = "dead"]
  /\ UC

(***************************************************************************)
(* Quiescence.  When the program goes to sleep with nothing to react to,   *)
(* it must have done everything it owes.  v describes what the environment *)
(* offers on a connection:                                                 *)
(*   pa, ca  bytes readable;  pwr, cwr  writable;                          *)
(*   pe, ce  1: end of stream readable, 2: reset                           *)
(***************************************************************************)
Waited(x) == \* both sides connected and the handshake over
  x.t = "conn" /\ HsDone(x)

Owes(c, v) ==
  LET x == X(c)
      arr == x.cr + v.ca
      relay == Waited(x)
      sl == TOL + g.slack
  IN
  \* handshake progress
  /\ R("C06", CUp(x) /\ v.cwr /\ v.ce # 2 => x.on)
  /\ RS({"C06", "C05"},
        CUp(x) /\ v.cwr /\ v.ce # 2 /\ x.on /\ (IF cfg.mode = "e" THEN arr >= NL ELSE HsIn(x, arr)) => x.od)
  \* everything that can be forwarded has been
  /\ R("C01", relay /\ v.cwr /\ v.pe # 2 => v.pa = 0 /\ (x.unk \/ x.enc = x.pr))
  /\ RS({"C01", "C06"}, relay /\ v.cwr => x.cb = NL + DL + PL * x.np)
  /\ RS({"C01", "C06"}, relay /\ v.pwr /\ v.ce # 2 /\ ~BadIn(x, arr) => x.pd = GoodPlain(x, arr))
  \* ends of stream
  /\ R("C03", relay /\ v.cwr /\ v.pe = 1 => x.sc)
  /\ R("C03", relay /\ v.pwr /\ v.ce = 1 /\ ~BadIn(x, arr) => x.sp)
  /\ R("C03", ~(x.sc /\ x.sp))
  \* forgeries end the connection
  /\ R("C04", ~(BadIn(x, arr) /\ x.bf <= 1 /\ v.cwr))
  /\ RS({"C05"}, ~(BadIn(x, arr) /\ x.bf <= 1 /\ v.cwr))
  /\ R("C02", ~(BadIn(x, arr) /\ relay /\ v.pwr))
  /\ RS({"C04", "C10"}, ~(CUp(x) /\ v.ce = 1 /\ arr < NL + DL /\ v.cwr))
  \* failures end the connection
  /\ R("C10", ~x.err)
  /\ R("C10", ~(CUp(x) /\ v.ce = 2 /\ ~HsDone(x)))
  /\ R("C10", ~(relay /\ ((v.ce = 2 /\ v.pwr /\ ~x.ceofr) \/ (v.pe = 2 /\ v.cwr /\ ~x.peofr))))
  \* time limits
  /\ R("C07", cfg.timeo >= 0 /\ x.t \notin {"conn"} => now' <= x.ta + cfg.timeo + sl)
  /\ R("C07", cfg.timeo >= 0 /\ x.th >= 0 /\ ~HsDone(x) => now' <= x.th + cfg.timeo + sl)
  \* connecting goes on
  /\ RS({"C10", "C11"}, x.a = "open" /\ (x.t = "conn" \/ (x.t = "trying" /\ x.tst # "failed")))

Quiet(Av(_), lq, heap) ==
  /\ \A c \in Open : Owes(c, Av(c))
  /\ RS({"C08", "C10"}, g.listen /\ ~Draining /\ lq > 0 => Cardinality(Open) >= MaxC)
  /\ R("C08", g.phase = "up" /\ ~Draining => g.listen)
  /\ R("C09", ~(Draining /\ Open = {} /\ now' > g.sigt + AcceptSlack))
  /\ R("C09", ~g.die)
  /\ R("C11", cfg.rtime > 0 /\ ~g.dask /\ ~Draining /\ ~g.oom =>
                now' <= g.dlast + cfg.rtime + TOL + g.slack)
  /\ R("C10", Open = {} /\ g.hb >= 0 /\ ~g.oom => heap <= g.hb + 8 + 8 * g.peak)
  /\ R("C20", PrivOk)

Idle(Av(_), lq, heap) ==
  /\ g.phase # "dead"
  /\ Quiet(Av, lq, heap)
  /\ g' = [g EXCEPT !.phase = "up",
                    !.hb = IF Open = {} /\ g.nd >= 2 /\ @ < 0 THEN heap ELSE @,
                    !.late = @ \/ (Draining /\ now' > g.sigt + AcceptSlack),
                    !.dl = IF Cardinality(@) > 1 THEN {g.last} ELSE @]
  /\ UC

(***************************************************************************)
(* Events: one record per action, as recorded from the program and as      *)
(* produced by the design (Relay.tla).                                     *)
(***************************************************************************)
AvOf(e, c) ==
  LET k == {i \in DOMAIN e.io : e.io[i][1] = c}
      v == IF k = {} THEN <<c, 0, 0, 0, 0, 0, 0>> ELSE e.io[CHOOSE i \in k : TRUE]
  IN [pa |-> v[2], ca |-> v[3], pwr |-> v[4] = 1, cwr |-> v[5] = 1, pe |-> v[6], ce |-> v[7]]

Apply(e) ==
  CASE e.e = "EClient" -> EClient(e.c)
    [] e.e = "EConn" -> EConn(e.c, e.ok)
    [] e.e = "EPlain" -> EPlain(e.c, e.n)
    [] e.e = "EEof" -> EEof(e.c, e.s)
    [] e.e = "ERst" -> ERst(e.c, e.s)
    [] e.e = "Item" -> Item(e.c, e.k, e.src, e.num, e.mut, e.plen, e.n, e.y, e.fits)
    [] e.e = "Sig" -> Sig(e.sig)
    [] e.e = "Eintr" -> Eintr
    [] e.e = "Killed" -> Killed(e.sig)
    [] e.e = "Accept" -> Accept(e.c)
    [] e.e = "AcceptFail" -> AcceptFail(e.err)
    [] e.e = "Connect" -> Connect(e.c, e.addr, e.bind, e.res)
    [] e.e = "NoSocket" -> NoSocket(e.c)
    [] e.e = "SoErr" -> SoErr(e.c, e.s, e.st, e.err)
    [] e.e = "Close" -> IF e.s = "l" THEN CloseListener ELSE Close(e.c, e.s)
    [] e.e = "Recv" -> Recv(e.c, e.s, e.n)
    [] e.e = "RecvEof" -> RecvEof(e.c, e.s)
    [] e.e = "IoErr" -> IoErr(e.c)
    [] e.e = "Send" -> IF e.s = "p" THEN SendP(e.c, e.n, e.lo) ELSE SendC(e.c, e.n)
    [] e.e = "ONonce" -> ONonce(e.c, e.fresh)
    [] e.e = "ODh" -> ODh(e.c, e.y, e.mac)
    [] e.e = "OPkt" -> OPkt(e.c, e.num, e.len, e.lo)
    [] e.e = "Shut" -> Shut(e.c, e.s, e.how, e.err)
    [] e.e = "SockOpt" -> SockOpt(e.c, e.s, e.o, e.v, e.ok)
    [] e.e = "RndRead" -> RndRead(e.n)
    [] e.e = "RndFail" -> RndFail
    [] e.e = "Bind" -> Bind(e.addr, e.err)
    [] e.e = "Listen" -> Listen(e.addr, e.bl, e.err)
    [] e.e = "Priv" -> Priv(e.op, e.id, e.err, e.st)
    [] e.e = "DnsAsk" -> DnsAsk(e.th)
    [] e.e = "DnsAns" -> DnsAns(e.l, e.th)
    [] e.e = "Oom" -> Oom
    [] e.e = "SFail" -> g' = [g EXCEPT !.sfail = TRUE] /\ UC
    [] e.e = "Exit" -> Exit(e.code, e.socks, e.heap, e.busy)
    [] e.e = "Idle" -> Idle(LAMBDA c : AvOf(e, c), e.lq, e.heap)
    [] e.e = "End" -> UNCHANGED <<cfg, g, cn>>
    [] OTHER -> FALSE
=============================================================================
