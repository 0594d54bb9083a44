-------------------------------- MODULE Launch --------------------------------
(***************************************************************************)
(* The design of starting as a daemon: the starting process and the daemon *)
(* joined by a pipe, with any system call failing and any process being    *)
(* killed anywhere (up to Faults times).  Each step performs events of     *)
(* Daemonize.tla; Refines says that all of them are allowed.  Every        *)
(* execution returns (no deadlock).  Bug selects a deliberate mistake.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Faults, Bug

VARIABLES cfg, forked, session, listening, serving, failed, back, \* as in Daemonize
          pc,           \* process -> its next step
          ends,         \* descriptors of the pipe: set of <<process, "r" or "w">>
          byte,         \* in the pipe
          pid,          \* the pid file: "no", "part", "good", "bad"
          sid,          \* the daemon leads its session
          lis,          \* processes which hold the listening socket
          nf, bad, h
dvars == <<cfg, forked, session, listening, serving, failed, back>>
vars == <<dvars, pc, ends, byte, pid, sid, lis, nf, bad, h>>
Z == INSTANCE Daemonize
B(x) == Bug = x
Init ==
  /\ \E D \in {0, 1}, F \in {0, 1}, b \in {"", "addr", "key", "pid", "dns"} : Z!DInit([D |-> D, F |-> F, bad |-> b])
  /\ pc = [p |-> "start", c |-> "none"]
  /\ ends = {} /\ byte = FALSE /\ pid = "no" /\ sid = FALSE /\ lis = {} /\ nf = 0 /\ bad = FALSE /\ h = <<>>

\* the order of things: -D daemonizes before anything which may take long
Order == IF cfg.F = 1 THEN (IF B("fork") THEN <<"pipe", "resolve", "listen", "key", "serve">> ELSE <<"resolve", "listen", "key", "serve">>)
         ELSE IF cfg.D = 1 \/ B("late") THEN <<"pipe", "resolve", "listen", "key", "serve">>
         ELSE <<"resolve", "listen", "key", "pipe", "serve">>
After(x) == LET i == CHOOSE k \in 1..Len(Order) : Order[k] = x IN Order[i + 1]
Emit(A) == IF ENABLED A THEN A /\ bad' = bad ELSE bad' = TRUE /\ UNCHANGED dvars
Quiet == UNCHANGED dvars /\ bad' = bad
Live(r) == pc[r] \notin {"none", "dead"}
\* a process is gone, and its descriptors
Gone(r) == ends' = {e \in ends : e[1] # r} /\ lis' = lis \ {r}
Keep == UNCHANGED <<ends, lis>>

\* what one system call does when it works; nx is the next step
To(r, nx) == pc' = [pc EXCEPT ![r] = nx]
Do(r) == LET at == pc[r] IN
  \/ /\ at = "start" /\ To(r, Order[1]) /\ Quiet /\ Keep /\ UNCHANGED <<byte, pid, sid>>
  \/ /\ at = "resolve"
     \* what cannot be resolved: keep trying in the background (-D) or give up
     /\ To(r, IF cfg.bad = "dns" /\ cfg.D = 0 THEN "fail" ELSE IF cfg.bad = "dns" THEN "resolve" ELSE After("resolve"))
     /\ Quiet /\ Keep /\ UNCHANGED <<byte, pid, sid>>
  \/ /\ at = "listen"
     /\ IF cfg.bad = "addr" THEN To(r, "fail") /\ Quiet /\ Keep
        ELSE To(r, After("listen")) /\ Emit(Z!Sys(r, "listen", 1)) /\ lis' = lis \cup {r} /\ UNCHANGED ends
     /\ UNCHANGED <<byte, pid, sid>>
  \/ /\ at = "key" /\ To(r, IF cfg.bad = "key" /\ ~B("keyok") THEN "fail" ELSE After("key")) /\ Quiet /\ Keep /\ UNCHANGED <<byte, pid, sid>>
  \/ /\ at = "pipe" /\ To(r, "fork") /\ ends' = {<<r, "r">>, <<r, "w">>} /\ Quiet /\ UNCHANGED <<lis, byte, pid, sid>>
  \/ /\ at = "fork" /\ pc' = [pc EXCEPT !.p = "pclose", !.c = "cclose"] /\ Emit(Z!Sys(r, "fork", 1))
     /\ ends' = ends \cup {<<"c", e[2]>> : e \in ends} /\ lis' = (IF "p" \in lis /\ ~B("cloexec") THEN lis \cup {"c"} ELSE lis)
     /\ UNCHANGED <<byte, pid, sid>>
  \* the starting process: close the writing end, wait for a byte or the end
  \/ /\ at = "pclose" /\ To(r, "read") /\ ends' = (IF B("keepw") THEN ends ELSE ends \ {<<"p", "w">>}) /\ Quiet /\ UNCHANGED <<lis, byte, pid, sid>>
  \/ /\ at = "read"
     /\ \/ byte /\ byte' = FALSE /\ To(r, "exit0")
        \/ ~byte /\ \A e \in ends : e[2] # "w" /\ To(r, IF B("eofok") THEN "exit0" ELSE "fail") /\ byte' = byte
     /\ Quiet /\ Keep /\ UNCHANGED <<pid, sid>>
  \* the daemon
  \/ /\ at = "cclose" /\ To(r, IF B("signal1") THEN "signal" ELSE IF B("nosid") THEN "pid1" ELSE "setsid")
     /\ ends' = ends \ {<<"c", "r">>} /\ Quiet /\ UNCHANGED <<lis, byte, pid, sid>>
  \/ /\ at = "setsid" /\ To(r, "pid1") /\ sid' = TRUE /\ Emit(Z!Sys("c", "setsid", 1)) /\ Keep /\ UNCHANGED <<byte, pid>>
  \/ /\ at = "pid1" /\ (IF cfg.bad = "pid" THEN To(r, "fail") /\ pid' = pid
                        ELSE To(r, IF B("signal2") THEN "signal" ELSE "pid2") /\ pid' = "part") /\ Quiet /\ Keep /\ UNCHANGED <<byte, sid>>
  \/ /\ at = "pid2" /\ To(r, IF B("signal1") \/ B("signal2") THEN After("pipe") ELSE "signal") /\ pid' = (IF B("ppid") THEN "bad" ELSE "good")
     /\ Quiet /\ Keep /\ UNCHANGED <<byte, sid>>
  \/ /\ at = "signal" /\ To(r, IF B("signal1") THEN "setsid" ELSE IF B("signal2") THEN "pid2" ELSE "cdone") /\ byte' = TRUE /\ Quiet /\ Keep /\ UNCHANGED <<pid, sid>>
  \/ /\ at = "cdone" /\ To(r, After("pipe")) /\ ends' = {e \in ends : e[1] # "c"} /\ Quiet /\ UNCHANGED <<lis, byte, pid, sid>>
  \/ /\ at = "serve" /\ To(r, "serving") /\ Emit(Z!Sys(r, "serving", 1)) /\ Keep /\ UNCHANGED <<byte, pid, sid>>

Step(r) == Live(r) /\ ~bad /\ Do(r) /\ UNCHANGED <<nf, h>>

\* The call fails: the process gives up.
Calls == {"listen", "key", "pipe", "fork", "pclose", "read", "cclose", "setsid", "pid1", "pid2", "signal", "cdone"}
Fail(r) ==
  /\ nf < Faults /\ ~bad /\ pc[r] \in Calls
  /\ nf' = nf + 1 /\ Emit(Z!Inject("F"))
  /\ IF B("pidfail") /\ pc[r] = "pid2" THEN To(r, "signal") /\ pid' = pid
     ELSE IF B("forkfail") /\ pc[r] = "fork" THEN To(r, "exit0") /\ pid' = pid
     ELSE To(r, "fail") /\ pid' = pid
  /\ h' = Append(h, <<"F", r, pc[r]>>)
  /\ Keep /\ UNCHANGED <<byte, sid>>
Kill(r) ==
  /\ nf < Faults /\ ~bad /\ r = "c" /\ Live(r) /\ pc[r] # "fail"
  /\ nf' = nf + 1 /\ Emit(Z!Inject("K"))
  /\ To(r, "dead") /\ Gone(r)
  /\ h' = Append(h, <<"K", r, pc[r]>>)
  /\ UNCHANGED <<byte, pid, sid>>

Bool(x) == IF x THEN 1 ELSE 0
Acc == lis # {}
Alive == pc.c \notin {"none", "dead", "fail"}
\* the starting command ends; what can be seen then
Ret(rc) ==
  /\ ~bad
  /\ Emit(Z!Return(rc, Bool(pid = "good"), Bool(sid), Bool(lis \ {"p"} # {}), Bool(Alive)))
  /\ pc' = [pc EXCEPT !.p = "dead"] /\ Gone("p") /\ UNCHANGED <<byte, pid, sid, nf, h>>
Exit == \/ pc.p = "exit0" /\ Ret(0)
        \/ pc.p = "fail" /\ Ret(1)
        \/ /\ pc.c = "fail" /\ ~bad /\ pc' = [pc EXCEPT !.c = "dead"] /\ Gone("c") /\ Quiet /\ UNCHANGED <<byte, pid, sid, nf, h>>
\* it all came to rest
Rest == /\ ~bad /\ back # -1 /\ pc.c \in {"none", "dead", "serving"} /\ pc.p = "dead"
        /\ pc' = [pc EXCEPT !.p = "over"]
        /\ Emit(Z!Final(Bool(Alive), Bool(pc.c = "serving" /\ Acc), Bool(pid = "good"), Bool(sid)))
        /\ UNCHANGED <<ends, byte, pid, sid, lis, nf, h>>
Fore == /\ ~bad /\ cfg.F = 1 /\ pc.p = "serving" /\ pc' = [pc EXCEPT !.p = "over"]
        /\ Emit(Z!Fore(Bool(Acc), Bool(pid # "no"))) /\ UNCHANGED <<ends, byte, pid, sid, lis, nf, h>>

End == (pc.p = "over" \/ bad \/ (pc.c = "resolve" /\ cfg.bad = "dns")) /\ UNCHANGED vars
Next == \/ \E r \in {"p", "c"} : Step(r) \/ Fail(r) \/ Kill(r)
        \/ Exit \/ Rest \/ Fore \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Exit \/ Rest \/ Fore) /\ \A r \in {"p", "c"} : WF_vars(Step(r))
Refines == ~bad
\* The command always returns, or (in the foreground) serves.
Returns == <>(back # -1 \/ cfg.F = 1)
=============================================================================
