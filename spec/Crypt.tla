------------------------------- MODULE Crypt -------------------------------
(***************************************************************************)
(* The packet layer and handshake values (lib/proto/proto_crypt) against   *)
(* the published protocol.  A session has two directions; each direction   *)
(* has a sealing end and an opening end which count packets from zero.     *)
(* Which bytes a packet must consist of is decided by an independent       *)
(* implementation of the protocol in the driver; which packet may be       *)
(* produced or accepted next is decided here.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Props         \* enforced: C02, C04, C05, C06

VARIABLES enc,          \* direction -> packets sealed
          dec,          \* direction -> packets opened
          bad           \* directions which have seen a bad packet
cvars == <<enc, dec, bad>>

R(p, x) == p \in Props => x
CInit == enc = [x \in {} |-> 0] /\ dec = [x \in {} |-> 0] /\ bad = {}
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

(* Both ends derive the keys of session s.  macs: the parameter MAC keys are *)
(* those prescribed; yc, ys: what was sent is 2^x, or 1 without forward      *)
(* secrecy (x the private value), followed by its MAC; val: each side        *)
(* accepts the other's.                                                      *)
Session(s, wc, ws, macs, yc, ys, val) ==
  /\ R("C06", macs = 1 /\ yc = 1 /\ ys = 1)
  /\ R("C05", yc = 1 /\ ys = 1)
  /\ R("C06", val = 1)
  /\ enc' = Put(Put(enc, <<s, 0>>, 0), <<s, 1>>, 0)
  /\ dec' = Put(Put(dec, <<s, 0>>, 0), <<s, 1>>, 0)
  /\ bad' = bad \ {<<s, 0>>, <<s, 1>>}

(* A received handshake value: cls is what it is, mac whether its MAC is     *)
(* right, req whether forward secrecy is required.                           *)
Legal == {"gen", "zero", "two", "pm1", "one", "top", "low"}      \* < p
Validate(cls, mac, req, ok) ==
  /\ R("C04", ok = 1 => mac = 1)
  /\ R("C04", ok = 1 => cls \in Legal)
  /\ R("C05", ok = 1 => ~(req = 1 /\ cls = "one"))
  /\ R("C06", ok = 1 \/ mac = 0 \/ cls \notin Legal \/ (req = 1 /\ cls = "one"))
  /\ UNCHANGED cvars

(* cnt packets sealed in direction d; good of them are, in order, exactly    *)
(* the prescribed packets with numbers enc[d], enc[d]+1, ...                 *)
Seal(d, cnt, good) ==
  /\ d \in DOMAIN enc
  /\ R("C06", good = cnt)
  /\ enc' = [enc EXCEPT ![d] = @ + cnt]
  /\ UNCHANGED <<dec, bad>>

(* cnt of the prescribed packets numbered from dec[d] offered; good of them  *)
(* were accepted and gave the right contents.                                *)
OpenGood(d, cnt, good) ==
  /\ d \in DOMAIN dec
  /\ R("C06", d \notin bad => good = cnt)
  /\ dec' = [dec EXCEPT ![d] = @ + good]
  /\ bad' = IF good = cnt THEN bad ELSE bad \cup {d}
  /\ UNCHANGED enc

(* Something else is offered: a packet made with another key, with another   *)
(* number (by off), altered, or with an illegal length.                      *)
OpenBad(d, what, off, ok) ==
  /\ d \in DOMAIN dec
  /\ R("C02", ok = 0)
  /\ bad' = bad \cup {d}
  /\ UNCHANGED <<enc, dec>>
=============================================================================
