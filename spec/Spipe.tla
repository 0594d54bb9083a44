------------------------------- MODULE Spipe -------------------------------
(***************************************************************************)
(* spipe as its user and its peer see it: standard input, standard output, *)
(* the decrypted stream at the far end, the exit status.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES in, ineof,    \* bytes put into standard input; its end
          got, goteof,  \* bytes the peer has decrypted; end of its stream
          sent, sendeof,\* bytes the peer has sealed and sent; its end
          out,          \* bytes standard output has had
          hs,           \* "no", "ok", or "bad": the peer spoiled the handshake
          spoilt,       \* the peer has sent garbage, or gone away
          gone,         \* the peer has closed the connection: "no", "clean" or "lossy"
          iofail,       \* "gone": nobody reads standard output; "err": an error on it or on input
          sig,          \* SIGTERM was sent
          refuse,       \* nobody listens at the target
          over
pvars == <<in, ineof, got, goteof, sent, sendeof, out, hs, spoilt, gone, iofail, sig, refuse, over>>

PInit == /\ in = 0 /\ ineof = FALSE /\ got = 0 /\ goteof = FALSE /\ sent = 0 /\ sendeof = FALSE
         /\ out = 0 /\ hs = "no" /\ spoilt = FALSE /\ gone = "no" /\ iofail = "no" /\ sig = FALSE
         /\ refuse = FALSE /\ over = FALSE

Keep(v) == UNCHANGED v
StdinB(n) == ~over /\ ~ineof /\ in' = in + n
             /\ Keep(<<ineof, got, goteof, sent, sendeof, out, hs, spoilt, gone, iofail, sig, refuse, over>>)
StdinE == ~over /\ ineof' = TRUE
          /\ Keep(<<in, got, goteof, sent, sendeof, out, hs, spoilt, gone, iofail, sig, refuse, over>>)
Hs(ok) == hs = "no" /\ hs' = (IF ok = 1 THEN "ok" ELSE "bad")
          /\ Keep(<<in, ineof, got, goteof, sent, sendeof, out, spoilt, gone, iofail, sig, refuse, over>>)
\* the bytes are lo..lo+n-1 of standard input (good = 1)
Got(n, lo, good) ==
  /\ hs = "ok" /\ lo = got /\ good = 1 /\ got + n <= in /\ ~goteof
  /\ got' = got + n
  /\ Keep(<<in, ineof, goteof, sent, sendeof, out, hs, spoilt, gone, iofail, sig, refuse, over>>)
\* the end of the stream, at a packet boundary or (clean = 0) not, or an error
GotE(clean) ==
  /\ \/ clean = 1 /\ ineof /\ got = in
     \/ spoilt \/ gone # "no" \/ iofail # "no" \/ sig \/ hs # "ok"
  /\ goteof' = TRUE
  /\ Keep(<<in, ineof, got, sent, sendeof, out, hs, spoilt, gone, iofail, sig, refuse, over>>)
Send(n) == sent' = sent + n
           /\ Keep(<<in, ineof, got, goteof, sendeof, out, hs, spoilt, gone, iofail, sig, refuse, over>>)
SendE == sendeof' = TRUE
           /\ Keep(<<in, ineof, got, goteof, sent, out, hs, spoilt, gone, iofail, sig, refuse, over>>)
Spoil == spoilt' = TRUE
           /\ Keep(<<in, ineof, got, goteof, sent, sendeof, out, hs, gone, iofail, sig, refuse, over>>)
Gone(fl) == gone' = (IF fl = 1 THEN "clean" ELSE "lossy")
           /\ Keep(<<in, ineof, got, goteof, sent, sendeof, out, hs, spoilt, iofail, sig, refuse, over>>)
IoFail(err) == iofail' = (IF err = 1 THEN "err" ELSE "gone")
           /\ Keep(<<in, ineof, got, goteof, sent, sendeof, out, hs, spoilt, gone, sig, refuse, over>>)
Sig == sig' = TRUE
           /\ Keep(<<in, ineof, got, goteof, sent, sendeof, out, hs, spoilt, gone, iofail, refuse, over>>)
Refuse == refuse' = TRUE
           /\ Keep(<<in, ineof, got, goteof, sent, sendeof, out, hs, spoilt, gone, iofail, sig, over>>)
Out(n, lo, good) ==
  /\ hs = "ok" /\ lo = out /\ good = 1 /\ out + n <= sent
  /\ out' = out + n
  /\ Keep(<<in, ineof, got, goteof, sent, sendeof, hs, spoilt, gone, iofail, sig, refuse, over>>)

\* everything was carried over, both ways, to the end
Orderly == hs = "ok" /\ ineof /\ got = in /\ goteof /\ sendeof /\ out = sent /\ ~spoilt
\* nothing stood in the way of that
Smooth == hs = "ok" /\ ineof /\ sendeof /\ ~spoilt /\ gone = "no" /\ iofail = "no" /\ ~sig
Trouble == hs = "bad" \/ refuse \/ spoilt \/ gone # "no" \/ iofail # "no"
\* All that standard output and the peer's socket still held has been read.
\* rc: exit status, or minus the signal which killed the program (13: SIGPIPE)
Exit(rc) ==
  /\ ~over /\ over' = TRUE
  /\ \/ rc \in 0..127
     \/ rc = -13 /\ Trouble     \* SIGPIPE is a failure too
     \/ rc = -15 /\ sig
  /\ (rc = 0 /\ ~sig) =>
       /\ hs = "ok" /\ ineof /\ ~spoilt /\ iofail # "err"
       /\ (gone = "no" /\ iofail = "no") => Orderly
       /\ (gone = "clean" /\ iofail = "no") => out = sent
       /\ gone = "no" => got = in /\ goteof /\ sendeof
  /\ (Smooth => rc = 0 /\ Orderly)
  /\ Smooth \/ Trouble \/ sig   \* otherwise there is no reason to exit
  /\ Keep(<<in, ineof, got, goteof, sent, sendeof, out, hs, spoilt, gone, iofail, sig, refuse>>)
\* still running although nothing has moved for a long time
Idle ==
  /\ ~over
  /\ ~(Smooth \/ sig \/ hs = "bad" \/ refuse \/ spoilt \/ iofail = "err")
  /\ UNCHANGED pvars
\* everything possible has been moved (ineof or not), and the program runs
Settled ==
  /\ (hs = "ok" /\ ~Trouble /\ ~sig) => got = in /\ out = sent /\ (ineof => goteof)
  /\ UNCHANGED pvars
=============================================================================
