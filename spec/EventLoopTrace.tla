-------------------------- MODULE EventLoopTrace --------------------------
EXTENDS EventLoop, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces
TProps == {Data.props[i] : i \in DOMAIN Data.props}
Skip == IF "skip" \in DOMAIN Data THEN Data.skip ELSE 0
VARIABLES tr, l
Ev == Traces[tr].ev
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Set(s) == {s[i] : i \in DOMAIN s}

Step(e) ==
  CASE e.e = "RegImm" -> RegImm(e.s, e.p, e.ok)
    [] e.e = "CanImm" -> CanImm(e.s)
    [] e.e = "RegNet" -> RegNet(e.f, e.o, e.ok, e.err)
    [] e.e = "CanNet" -> CanNet(e.f, e.o, e.ok, e.err)
    [] e.e = "RegTimer" -> RegTimer(e.s, e.ivl, e.ivh, e.t0, e.ok)
    [] e.e = "ResetTimer" -> ResetTimer(e.s, e.t0, e.ok)
    [] e.e = "CanTimer" -> CanTimer(e.s)
    [] e.e = "Interrupt" -> Interrupt
    [] e.e = "SetDone" -> SetDone
    [] e.e = "Advance" -> Advance
    [] e.e = "Begin" -> Begin(e.k)
    [] e.e = "PollCall" -> PollCall(e.tmo, Set(e.asked))
    [] e.e = "PollRet" -> PollRet(Set(e.res), Set(e.hs))
    [] e.e = "PollEintr" -> PollEintr(e.intr)
    [] e.e = "FireImm" -> FireImm(e.s)
    [] e.e = "FireNet" -> FireNet(e.f, e.o)
    [] e.e = "FireTimer" -> FireTimer(e.s)
    [] e.e = "HRet" -> HandlerRet(e.rc)
    [] e.e = "End" -> End(e.rc)
    [] e.e = "Hang" -> run.poll /\ run.tmo = -1 /\ UNCHANGED <<imm, net, rdy, hup, skip, tm, run>>
    [] e.e = "Cut" -> UNCHANGED <<imm, net, rdy, hup, skip, tm, run>>
    [] OTHER -> FALSE

TInit == tr \in 1..Len(Traces) /\ l = 1 /\ now = <<0, 0>> /\ EInit
TNext ==
  /\ l <= Len(Ev)
  /\ l' = l + 1 /\ tr' = tr
  /\ now' = Ev[l].t
  /\ Step(Ev[l])
TSpec == TInit /\ [][TNext]_<<evars, tr, l>>
Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
Report == \A i \in 1..Len(Traces) :
            TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
NotStuck == l < Skip
=============================================================================
