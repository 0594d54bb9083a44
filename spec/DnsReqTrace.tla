---------------------------- MODULE DnsReqTrace ----------------------------
EXTENDS DnsReq, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces
Skip == IF "skip" \in DOMAIN Data THEN Data.skip ELSE 0
VARIABLES tr, l
Ev == Traces[tr].ev
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

\* Blocked (thread 0 waits for a resolution other than in poll), Deadlock,
\* Misuse (of memory, locks, threads, descriptors) and Died match nothing.
Step(e) ==
  CASE e.e = "Begin" -> Begin(e.op, e.s, e.i)
    [] e.e = "Spawn" -> Spawn(e.s, e.ok, e.flt)
    [] e.e = "Req" -> Req(e.s, e.i, e.res, e.flt)
    [] e.e = "Resolve" -> Resolve(e.s, e.i, e.ok, e.flt)
    [] e.e = "Lookup" -> Lookup(e.thr, e.i, e.ok)
    [] e.e = "Callback" -> Callback(e.thr, e.i, e.got)
    [] e.e = "Kill" -> Kill(e.s, e.rc, e.gone)
    [] e.e = "End" -> End(e.threads, e.fds, e.mem)
    [] OTHER -> FALSE

TInit == tr \in 1..Len(Traces) /\ l = 1 /\ DInit
TNext == l <= Len(Ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Ev[l])
TSpec == TInit /\ [][TNext]_<<dvars, tr, l>>
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
Report == \A i \in 1..Len(Traces) :
            TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
NotStuck == l < Skip
=============================================================================
