---------------------------- MODULE SpipedTrace ----------------------------
(***************************************************************************)
(* Checks recorded executions of the real program against Spiped.tla.      *)
(* Each trace is one behaviour; it is accepted iff every recorded event is *)
(* a step of the specification.                                            *)
(***************************************************************************)
EXTENDS Spiped, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces
TProps == {Data.props[i] : i \in DOMAIN Data.props}
Skip == IF "skip" \in DOMAIN Data THEN Data.skip ELSE 0

VARIABLES tr, l
tvars == <<cfg, now, g, cn, tr, l>>
Ev == Traces[tr].ev

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

TInit ==
  /\ tr \in 1..Len(Traces)
  /\ l = 1
  /\ cfg = Traces[tr].cfg
  /\ now = 0
  /\ g = [InitG EXCEPT !.dl = IF Traces[tr].cfg.addrs = <<>> THEN {} ELSE {Traces[tr].cfg.addrs},
                       !.last = Traces[tr].cfg.addrs]
  /\ cn = [c \in {} |-> NoConn]

TNext ==
  /\ l <= Len(Ev)
  /\ l' = l + 1
  /\ tr' = tr
  /\ now' = Ev[l].t
  /\ Apply(Ev[l])

TSpec == TInit /\ [][TNext]_tvars

Record == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
Report == \A i \in 1..Len(Traces) :
            TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
\* for diagnosis: violated at the state before the rejected event
NotStuck == l < Skip
=============================================================================
