------------------------------- MODULE NetIO -------------------------------
(***************************************************************************)
(* Asynchronous network operations (libcperciva/network) and the buffered  *)
(* reader (libcperciva/netbuf), at their public interfaces and the socket  *)
(* calls they make.  Operations and readers are named by slots.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Props         \* enforced: C14, C15

VARIABLES ops,          \* slot -> operation in progress
          nb,           \* slot -> buffered reader
          rcv,          \* descriptor -> bytes received so far
          snt,          \* descriptor -> bytes sent so far
          fds           \* sockets created by connects and not closed
nvars == <<ops, nb, rcv, snt, fds>>

R(p, x) == p \in Props => x
NInit == /\ ops = [x \in {} |-> 0] /\ nb = [x \in {} |-> 0]
         /\ rcv = [x \in {} |-> 0] /\ snt = [x \in {} |-> 0] /\ fds = {}

Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Is(s, k) == s \in DOMAIN ops /\ ops[s].k = k
OpOn(fd, k) == {s \in DOMAIN ops : ops[s].k = k /\ ops[s].fd = fd}
NbOn(fd) == {s \in DOMAIN nb : nb[s].fd = fd}

NoOp == [k |-> "", fd |-> -1, blen |-> 0, min |-> 0, got |-> 0, lo |-> 0, end |-> "",
         n |-> 0, next |-> 0, pre |-> 0]

(*** reads ***)
RdStart(s, fd, blen, min) ==
  /\ s \notin DOMAIN ops
  /\ ops' = Put(ops, s, [NoOp EXCEPT !.k = "r", !.fd = fd, !.blen = blen, !.min = min, !.lo = Get(rcv, fd)])
  /\ UNCHANGED <<nb, rcv, snt, fds>>
\* res: n > 0, or 0 end of stream, -1 error, -2 try again; off: offset of the
\* destination in the operation's buffer (-1 if elsewhere)
Recv(fd, len, off, res) ==
  /\ R("C15", OpOn(fd, "r") \cup NbOn(fd) # {})
  /\ \A s \in OpOn(fd, "r") :
       R("C15", /\ ops[s].end = "" /\ ops[s].got < ops[s].min
                /\ off = ops[s].got /\ len <= ops[s].blen - ops[s].got /\ len > 0)
  /\ \A s \in NbOn(fd) :
       R("C14", /\ nb[s].w /\ nb[s].end = "" /\ nb[s].tot - nb[s].con0 < nb[s].len)
  /\ rcv' = IF res > 0 THEN Put(rcv, fd, Get(rcv, fd) + res) ELSE rcv
  /\ ops' = [s \in DOMAIN ops |->
       IF s \in OpOn(fd, "r")
       THEN [ops[s] EXCEPT !.got = IF res > 0 THEN @ + res ELSE @,
                           !.end = IF res = 0 THEN "eof" ELSE IF res = -1 THEN "err" ELSE @]
       ELSE ops[s]]
  /\ nb' = [s \in DOMAIN nb |->
       IF s \in NbOn(fd)
       THEN [nb[s] EXCEPT !.tot = IF res > 0 THEN @ + res ELSE @,
                          !.end = IF res = 0 THEN "eof" ELSE IF res = -1 THEN "err" ELSE @]
       ELSE nb[s]]
  /\ UNCHANGED <<snt, fds>>
\* lo, good: stream offset of the first byte in the buffer, and whether the
\* r bytes are consecutive and nothing beyond the bytes received was touched
RdDone(s, r, lo, good) ==
  /\ R("C15", Is(s, "r"))
  /\ R("C15", Is(s, "r") =>
       LET o == ops[s] IN
       /\ r > 0 => r = o.got /\ r >= o.min /\ r <= o.blen /\ lo = o.lo /\ good = 1
       /\ r = 0 => o.end = "eof"
       /\ r < 0 => r = -1 /\ o.end = "err")
  /\ ops' = Del(ops, s)
  /\ UNCHANGED <<nb, rcv, snt, fds>>

(*** writes ***)
WrStart(s, fd, blen, min) ==
  /\ s \notin DOMAIN ops
  /\ ops' = Put(ops, s, [NoOp EXCEPT !.k = "w", !.fd = fd, !.blen = blen, !.min = min])
  /\ UNCHANGED <<nb, rcv, snt, fds>>
\* off: offset within the operation's buffer of the data given to the system
Send(fd, len, off, safe, res) ==
  /\ R("C15", OpOn(fd, "w") # {})
  /\ R("C15", safe = 1)       \* a broken connection does not kill the process
  /\ \A s \in OpOn(fd, "w") :
       R("C15", /\ ops[s].end = "" /\ ops[s].got < ops[s].min
                /\ off = ops[s].got /\ len <= ops[s].blen - ops[s].got /\ len > 0)
  /\ snt' = IF res > 0 THEN Put(snt, fd, Get(snt, fd) + res) ELSE snt
  /\ ops' = [s \in DOMAIN ops |->
       IF s \in OpOn(fd, "w")
       THEN [ops[s] EXCEPT !.got = IF res > 0 THEN @ + res ELSE @,
                           !.end = IF res = -1 THEN "err" ELSE @]
       ELSE ops[s]]
  /\ UNCHANGED <<nb, rcv, fds>>
WrDone(s, r) ==
  /\ R("C15", Is(s, "w"))
  /\ R("C15", Is(s, "w") =>
       LET o == ops[s] IN
       /\ r >= 0 => r = o.got /\ r >= o.min /\ r <= o.blen
       /\ r < 0 => r = -1 /\ o.end = "err")
  /\ ops' = Del(ops, s)
  /\ UNCHANGED <<nb, rcv, snt, fds>>

(*** accept ***)
AcStart(s, fd) ==
  /\ s \notin DOMAIN ops
  /\ ops' = Put(ops, s, [NoOp EXCEPT !.k = "a", !.fd = fd, !.got = -9])
  /\ UNCHANGED <<nb, rcv, snt, fds>>
\* res: a descriptor, -1 lasting error, -2 try again
AcceptCall(fd, res) ==
  /\ R("C15", OpOn(fd, "a") # {})
  /\ \A s \in OpOn(fd, "a") : R("C15", ops[s].got = -9)
  /\ ops' = [s \in DOMAIN ops |-> IF s \in OpOn(fd, "a") /\ res # -2 THEN [ops[s] EXCEPT !.got = res] ELSE ops[s]]
  /\ UNCHANGED <<nb, rcv, snt, fds>>
AcDone(s, r) ==
  /\ R("C15", Is(s, "a"))
  /\ R("C15", Is(s, "a") => r = ops[s].got)
  /\ ops' = Del(ops, s)
  /\ UNCHANGED <<nb, rcv, snt, fds>>

(*** connect: at most one at a time ***)
Conns == {s \in DOMAIN ops : ops[s].k = "c"}
CoStart(s, n, tmo) ==
  /\ s \notin DOMAIN ops /\ Conns = {}
  /\ ops' = Put(ops, s, [NoOp EXCEPT !.k = "c", !.n = n])
  /\ UNCHANGED <<nb, rcv, snt, fds>>
UpC(f(_)) == ops' = [s \in DOMAIN ops |-> IF s \in Conns THEN f(ops[s]) ELSE ops[s]]
\* a socket could not be had, bound or prepared for the next address
Socket(fd) ==
  /\ R("C15", Conns # {})
  /\ R("C15", \A s \in Conns : ops[s].fd = -1)
  /\ fds' = IF fd >= 0 THEN fds \cup {fd} ELSE fds
  /\ UpC(LAMBDA o : IF fd >= 0 THEN [o EXCEPT !.fd = fd, !.end = "new"] ELSE [o EXCEPT !.next = @ + 1])
  /\ UNCHANGED <<nb, rcv, snt>>
Prep(fd, bad) ==        \* bind, fcntl
  /\ R("C15", \A s \in Conns : ops[s].fd = fd)
  /\ UpC(LAMBDA o : IF bad = 1 THEN [o EXCEPT !.end = "bad"] ELSE o)
  /\ UNCHANGED <<nb, rcv, snt, fds>>
Connect(fd, i, bad, b, wantb) ==
  /\ R("C15", Conns # {})
  /\ R("C15", \A s \in Conns : ops[s].fd = fd /\ ops[s].end = "new" /\ ops[s].next = i)
  /\ R("C15", b = wantb)        \* bound to the source address asked for
  /\ UpC(LAMBDA o : [o EXCEPT !.end = IF bad = 1 THEN "bad" ELSE "try"])
  /\ UNCHANGED <<nb, rcv, snt, fds>>
SoErr(fd, err, ready) ==
  /\ R("C15", \A s \in Conns : ops[s].fd = fd /\ ops[s].end \in {"try", "late"})
  /\ R("C15", ready = 1)
  /\ UpC(LAMBDA o : [o EXCEPT !.end = IF err = 0 THEN "ok" ELSE IF err = -1 THEN "fatal" ELSE "bad"])
  /\ UNCHANGED <<nb, rcv, snt, fds>>
Timeout ==              \* enough time has passed for the current address
  /\ UpC(LAMBDA o : IF o.end = "try" THEN [o EXCEPT !.end = "late"] ELSE o)
  /\ UNCHANGED <<nb, rcv, snt, fds>>
CloseFd(fd) ==
  /\ R("C15", fd \in fds)
  /\ R("C15", \A s \in Conns : ops[s].fd = fd => ops[s].end \in {"bad", "late", "fatal"})
  /\ fds' = fds \ {fd}
  /\ UpC(LAMBDA o : IF o.fd = fd THEN [o EXCEPT !.fd = -1, !.next = @ + 1, !.end = IF @ = "fatal" THEN @ ELSE ""] ELSE o)
  /\ UNCHANGED <<nb, rcv, snt>>
CoDone(s, r) ==
  /\ R("C15", Is(s, "c"))
  /\ R("C15", Is(s, "c") =>
       IF r >= 0 THEN ops[s].fd = r /\ ops[s].end = "ok" /\ r \in fds
       ELSE ops[s].fd = -1 /\ (ops[s].next = ops[s].n \/ ops[s].end = "fatal"))
  /\ ops' = Del(ops, s)
  /\ fds' = fds \ {r}           \* now the caller's
  /\ UNCHANGED <<nb, rcv, snt>>

\* closed: what the cancel closed
Cancel(s, closed) ==
  /\ s \in DOMAIN ops
  /\ R("C15", closed = IF ops[s].k = "c" /\ ops[s].fd >= 0 THEN {ops[s].fd} ELSE {})
  /\ fds' = fds \ closed
  /\ ops' = Del(ops, s)
  /\ UNCHANGED <<nb, rcv, snt>>

(*** buffered reader ***)
NbInit(s, fd) ==
  /\ s \notin DOMAIN nb
  /\ nb' = Put(nb, s, [fd |-> fd, tot |-> 0, con |-> 0, con0 |-> 0, w |-> FALSE, len |-> 0, end |-> "", vis |-> 0,
                       base |-> Get(rcv, fd)])
  /\ UNCHANGED <<ops, rcv, snt, fds>>
NbWait(s, len, ok) ==
  /\ s \in DOMAIN nb /\ ~nb[s].w
  /\ R("C14", ok = 1)
  /\ nb' = [nb EXCEPT ![s].w = TRUE, ![s].len = len, ![s].con0 = nb[s].con, ![s].vis = nb[s].tot, ![s].end = ""]
  /\ UNCHANGED <<ops, rcv, snt, fds>>
NbDone(s, st) ==
  /\ R("C14", s \in DOMAIN nb /\ nb[s].w)
  /\ R("C14", /\ st \in {-1, 0, 1}
              /\ st = 0 => nb[s].tot - nb[s].con0 >= nb[s].len
              /\ st = 1 => nb[s].end = "eof"
              /\ st = -1 => nb[s].end = "err")
  /\ nb' = [nb EXCEPT ![s].w = FALSE]
  /\ UNCHANGED <<ops, rcv, snt, fds>>
NbCancel(s) ==
  /\ s \in DOMAIN nb
  /\ nb' = [nb EXCEPT ![s].w = FALSE]
  /\ UNCHANGED <<ops, rcv, snt, fds>>
\* what is presented are the bytes received and not yet consumed, in order
NbPeek(s, n, lo, good) ==
  /\ s \in DOMAIN nb
  /\ R("C14", /\ n <= nb[s].tot - nb[s].con
              /\ n >= (IF nb[s].w THEN nb[s].vis ELSE nb[s].tot) - nb[s].con
              /\ n > 0 => lo = nb[s].base + nb[s].con /\ good = 1)
  /\ UNCHANGED nvars
NbConsume(s, n) ==
  /\ s \in DOMAIN nb
  /\ nb' = [nb EXCEPT ![s].con = @ + n]
  /\ UNCHANGED <<ops, rcv, snt, fds>>
NbFree(s) ==
  /\ s \in DOMAIN nb
  /\ nb' = Del(nb, s)
  /\ UNCHANGED <<ops, rcv, snt, fds>>

(*** nothing more happens by itself: every operation which can make       *)
(*** progress has made it                                                  *)
Quiet(rd, wr) ==
  /\ \A s \in DOMAIN ops :
       LET o == ops[s] IN
       /\ o.k = "r" => R("C15", o.end = "" /\ o.got < o.min /\ o.fd \notin rd)
       /\ o.k = "w" => R("C15", o.end = "" /\ o.got < o.min /\ o.fd \notin wr)
       /\ o.k = "a" => R("C15", o.got = -9 /\ o.fd \notin rd)
       /\ o.k = "c" => R("C15", o.fd >= 0 /\ o.end = "try" /\ o.fd \notin wr)
  /\ \A s \in DOMAIN nb :
       nb[s].w => R("C14", nb[s].end = "" /\ nb[s].tot - nb[s].con0 < nb[s].len /\ nb[s].fd \notin rd)
  /\ R("C15", fds = {ops[s].fd : s \in {x \in Conns : ops[x].fd >= 0}})
  /\ UNCHANGED nvars
=============================================================================
