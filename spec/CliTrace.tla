----------------------------- MODULE CliTrace -----------------------------
EXTENDS Cli, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces
Skip == IF "skip" \in DOMAIN Data THEN Data.skip ELSE 0
VARIABLES tr, l
Ev == Traces[tr].ev
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

Step(e) ==
  CASE e.e = "Run" -> Run(e.prog, e.argv, e.out, e.rc, e.msg, e.socks)
    [] e.e = "Means" -> Means(e.argv, e.cfg)
    [] OTHER -> FALSE

TInit == tr \in 1..Len(Traces) /\ l = 1
TNext == l <= Len(Ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Ev[l])
TSpec == TInit /\ [][TNext]_<<tr, l>>
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
Report == \A i \in 1..Len(Traces) :
            TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
NotStuck == l < Skip
=============================================================================
