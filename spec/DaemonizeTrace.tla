-------------------------- MODULE DaemonizeTrace --------------------------
EXTENDS Daemonize, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces
Skip == IF "skip" \in DOMAIN Data THEN Data.skip ELSE 0
VARIABLES tr, l
Ev == Traces[tr].ev
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

Step(e) ==
  CASE e.e = "Sys" -> Sys(e.r, e.op, e.ok)
    [] e.e = "Inject" -> Inject(e.k)
    [] e.e = "Return" -> Return(e.rc, e.pidok, e.sid, e.acc, e.alive)
    [] e.e = "Final" -> Final(e.alive, e.serves, e.pidok, e.sid)
    [] e.e = "Fore" -> Fore(e.acc, e.pidfile)
    [] OTHER -> FALSE       \* Hang

TInit == tr \in 1..Len(Traces) /\ l = 1 /\ DInit(Traces[tr].cfg)
TNext == l <= Len(Ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Ev[l])
TSpec == TInit /\ [][TNext]_<<dvars, tr, l>>
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
Report == \A i \in 1..Len(Traces) :
            TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
NotStuck == l < Skip
=============================================================================
