---------------------------- MODULE SpipeTrace ----------------------------
EXTENDS Spipe, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces
Skip == IF "skip" \in DOMAIN Data THEN Data.skip ELSE 0
VARIABLES tr, l
Ev == Traces[tr].ev
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

Step(e) ==
  CASE e.e = "Stdin" -> StdinB(e.n)
    [] e.e = "StdinEof" -> StdinE
    [] e.e = "Hs" -> Hs(e.ok)
    [] e.e = "Got" -> Got(e.n, e.lo, e.good)
    [] e.e = "GotEof" -> GotE(e.clean)
    [] e.e = "Send" -> Send(e.n)
    [] e.e = "SendEof" -> SendE
    [] e.e = "Spoil" -> Spoil
    [] e.e = "Gone" -> Gone(e.fl)
    [] e.e = "IoFail" -> IoFail(e.err)
    [] e.e = "Sig" -> Sig
    [] e.e = "Refuse" -> Refuse
    [] e.e = "Out" -> Out(e.n, e.lo, e.good)
    [] e.e = "Exit" -> Exit(e.rc)
    [] e.e = "Idle" -> Idle
    [] e.e = "Settled" -> Settled
    [] OTHER -> FALSE

TInit == tr \in 1..Len(Traces) /\ l = 1 /\ PInit
TNext == l <= Len(Ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Ev[l])
TSpec == TInit /\ [][TNext]_<<pvars, tr, l>>
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
Report == \A i \in 1..Len(Traces) :
            TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
NotStuck == l < Skip
=============================================================================
