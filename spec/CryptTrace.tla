---------------------------- MODULE CryptTrace ----------------------------
EXTENDS Crypt, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces
TProps == {Data.props[i] : i \in DOMAIN Data.props}
Skip == IF "skip" \in DOMAIN Data THEN Data.skip ELSE 0
VARIABLES tr, l
Ev == Traces[tr].ev
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

Step(e) ==
  CASE e.e = "Session" -> Session(e.s, e.wc, e.ws, e.macs, e.yc, e.ys, e.val)
    [] e.e = "Validate" -> Validate(e.cls, e.mac, e.req, e.ok)
    [] e.e = "Seal" -> Seal(<<e.s, e.d>>, e.cnt, e.good)
    [] e.e = "OpenGood" -> OpenGood(<<e.s, e.d>>, e.cnt, e.good)
    [] e.e = "OpenBad" -> OpenBad(<<e.s, e.d>>, e.what, e.off, e.ok)
    [] OTHER -> FALSE

TInit == tr \in 1..Len(Traces) /\ l = 1 /\ CInit
TNext == l <= Len(Ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Ev[l])
TSpec == TInit /\ [][TNext]_<<cvars, tr, l>>
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
Report == \A i \in 1..Len(Traces) :
            TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
NotStuck == l < Skip
=============================================================================
