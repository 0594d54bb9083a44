---------------------------- MODULE NetIOTrace ----------------------------
EXTENDS NetIO, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces
TProps == {Data.props[i] : i \in DOMAIN Data.props}
Skip == IF "skip" \in DOMAIN Data THEN Data.skip ELSE 0
VARIABLES tr, l
Ev == Traces[tr].ev
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Set(s) == {s[i] : i \in DOMAIN s}

Step(e) ==
  CASE e.e = "RdStart" -> RdStart(e.s, e.fd, e.blen, e.min)
    [] e.e = "Recv" -> Recv(e.fd, e.len, e.off, e.res)
    [] e.e = "RdDone" -> RdDone(e.s, e.r, e.lo, e.good)
    [] e.e = "WrStart" -> WrStart(e.s, e.fd, e.blen, e.min)
    [] e.e = "Send" -> Send(e.fd, e.len, e.off, e.safe, e.res)
    [] e.e = "WrDone" -> WrDone(e.s, e.r)
    [] e.e = "AcStart" -> AcStart(e.s, e.fd)
    [] e.e = "AcceptCall" -> AcceptCall(e.fd, e.res)
    [] e.e = "AcDone" -> AcDone(e.s, e.r)
    [] e.e = "CoStart" -> CoStart(e.s, e.n, e.tmo)
    [] e.e = "Socket" -> Socket(e.fd)
    [] e.e = "Prep" -> Prep(e.fd, e.bad)
    [] e.e = "Connect" -> Connect(e.fd, e.i, e.bad, e.b, e.wantb)
    [] e.e = "SoErr" -> SoErr(e.fd, e.err, e.ready)
    [] e.e = "Timeout" -> Timeout
    [] e.e = "CloseFd" -> CloseFd(e.fd)
    [] e.e = "CoDone" -> CoDone(e.s, e.r)
    [] e.e = "Cancel" -> Cancel(e.s, Set(e.closed))
    [] e.e = "NbInit" -> NbInit(e.s, e.fd)
    [] e.e = "NbWait" -> NbWait(e.s, e.len, e.ok)
    [] e.e = "NbDone" -> NbDone(e.s, e.st)
    [] e.e = "NbCancel" -> NbCancel(e.s)
    [] e.e = "NbPeek" -> NbPeek(e.s, e.n, e.lo, e.good)
    [] e.e = "NbConsume" -> NbConsume(e.s, e.n)
    [] e.e = "NbFree" -> NbFree(e.s)
    [] e.e = "Quiet" -> Quiet(Set(e.rd), Set(e.wr))
    [] e.e = "Cut" -> UNCHANGED nvars
    [] OTHER -> FALSE

TInit == tr \in 1..Len(Traces) /\ l = 1 /\ NInit
TNext == l <= Len(Ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Ev[l])
TSpec == TInit /\ [][TNext]_<<nvars, tr, l>>
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
Report == \A i \in 1..Len(Traces) :
            TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
NotStuck == l < Skip
=============================================================================
