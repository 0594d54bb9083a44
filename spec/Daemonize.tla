----------------------------- MODULE Daemonize -----------------------------
(***************************************************************************)
(* Starting spiped as a daemon, as seen from outside: what the starting    *)
(* command's exit status promises.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES cfg,        \* [D, F: options -D and -F; bad: "" or what is wrong: "addr", "key", "pid", "dns"]
          forked, session, listening, serving,
          failed,     \* a system call was made to fail, or a process was killed
          back        \* exit status of the command, or -1
dvars == <<cfg, forked, session, listening, serving, failed, back>>
DInit(c) == /\ cfg = c /\ forked = FALSE /\ session = FALSE /\ listening = FALSE
            /\ serving = FALSE /\ failed = FALSE /\ back = -1

\* a system call by the starting process ("p") or the daemon ("c") was done
Sys(r, op, ok) ==
  /\ op = "fork" => cfg.F = 0
  /\ forked' = (forked \/ (op = "fork" /\ ok = 1))
  /\ session' = (session \/ (op = "setsid" /\ ok = 1 /\ r = "c"))
  /\ listening' = (listening \/ (op = "listen" /\ ok = 1))
  /\ serving' = (serving \/ op = "serving")
  /\ UNCHANGED <<cfg, failed, back>>
\* k: F(ailed), K(illed), A (killed after it); I(nterrupted), D(elayed)
Inject(k) == /\ failed' = (failed \/ k \in {"F", "K", "A"})
             /\ UNCHANGED <<cfg, forked, session, listening, serving, back>>

\* what is wrong here shows before the command may return 0
Early == cfg.bad = "pid" \/ (cfg.D = 0 /\ cfg.bad # "")

\* The command returned.  pidok: the pid file holds exactly the daemon's pid;
\* sid: the daemon leads its own session; acc: the source address accepts
\* connections; alive: after finding that out, the daemon still ran.
Return(rc, pidok, sid, acc, alive) ==
  /\ cfg.F = 0 \/ rc # 0
  /\ back = -1 /\ back' = rc /\ rc >= 0
  /\ rc = 0 => /\ forked /\ session /\ pidok = 1 /\ ~Early
               /\ alive = 1 => sid = 1
               /\ cfg.D = 0 => listening /\ (alive = 1 => acc = 1)
  /\ rc # 0 => failed \/ Early \/ (cfg.F = 1 /\ cfg.bad \notin {"", "pid"})
  /\ UNCHANGED <<cfg, forked, session, listening, serving, failed>>
\* some time later
Final(alive, serves, pidok, sid) ==
  /\ back # -1
  /\ (~failed /\ cfg.bad = "") => alive = 1 /\ serves = 1 /\ pidok = 1 /\ sid = 1
  /\ UNCHANGED dvars
\* in the foreground: serves, without forking, and leaves no pid file
Fore(acc, pidfile) == cfg.F = 1 /\ acc = 1 /\ pidfile = 0 /\ ~forked /\ serving /\ UNCHANGED dvars
=============================================================================
