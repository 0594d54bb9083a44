-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command lines of spiped(1) and spipe(1).  A command line is a       *)
(* sequence of strings; what the manual pages say about it is one of       *)
(*   "accept"   it must be accepted                                        *)
(*   "reject"   it must be refused: a message, exit status 1, no socket    *)
(*   "version"  -v                                                         *)
(*   "free"     the manual does not say                                    *)
(* and if accepted, what the settings are.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
Rest(s, i) == SubSeq(s, i, Len(s))
In(c, s) == \E i \in 1..Len(s) : Ch(s, i) = c

FlagOpts(p) == IF p = "spiped" THEN "dDefFgjRv" ELSE "fgjv"
ArgOpts(p) == IF p = "spiped" THEN "bknoprstu" ELSE "bkot"

(* Splitting into options: a sequence of <<option, value>> and whether it  *)
(* went wrong.  Groups of flags, joined and separate values.               *)
RECURSIVE Scan(_, _, _, _, _)
Scan(p, av, i, j, acc) ==       \* at character j of av[i]; j = 1: a new word
  IF i > Len(av) THEN [ok |-> TRUE, o |-> acc]
  ELSE LET w == av[i] IN
    IF j = 1 THEN
      IF Len(w) < 2 \/ Ch(w, 1) # "-" THEN [ok |-> FALSE, o |-> acc]
      ELSE IF Ch(w, 2) = "-" THEN
        IF w = "--" THEN [ok |-> i = Len(av), o |-> acc]
        ELSE IF p = "spiped" /\ w = "--syslog" THEN Scan(p, av, i + 1, 1, Append(acc, <<"syslog", "">>))
        ELSE [ok |-> FALSE, o |-> acc]
      ELSE Scan(p, av, i, 2, acc)
    ELSE IF j > Len(w) THEN Scan(p, av, i + 1, 1, acc)
    ELSE LET c == Ch(w, j) IN
      IF In(c, FlagOpts(p)) THEN Scan(p, av, i, j + 1, Append(acc, <<c, "">>))
      ELSE IF In(c, ArgOpts(p)) THEN
        IF j < Len(w) THEN Scan(p, av, i + 1, 1, Append(acc, <<c, Rest(w, j + 1)>>))
        ELSE IF i < Len(av) THEN Scan(p, av, i + 2, 1, Append(acc, <<c, av[i + 1]>>))
        ELSE [ok |-> FALSE, o |-> acc]
      ELSE [ok |-> FALSE, o |-> acc]

Has(o, c) == \E k \in 1..Len(o) : o[k][1] = c
Val(o, c, d) == IF Has(o, c) THEN o[CHOOSE k \in 1..Len(o) : o[k][1] = c][2] ELSE d
Twice(o) == \E k, m \in 1..Len(o) : k < m /\ o[k][1] = o[m][1]

(* Values: "ok", "bad" or "free" *)
Digits == "0123456789"
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : In(Ch(s, i), Digits)
DigitVal(c) == CHOOSE d \in 0..9 : Ch(Digits, d + 1) = c
RECURSIVE LeStr(_, _)   \* decimal strings of the same length
LeStr(a, b) == IF a = "" THEN TRUE
               ELSE IF DigitVal(Ch(a, 1)) # DigitVal(Ch(b, 1)) THEN DigitVal(Ch(a, 1)) < DigitVal(Ch(b, 1))
               ELSE LeStr(Rest(a, 2), Rest(b, 2))
Max64 == "18446744073709551615"
CountClass(s) ==
  IF AllDigits(s) THEN
    IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN "free"
    ELSE IF Len(s) < 20 \/ (Len(s) = 20 /\ LeStr(s, Max64)) THEN "ok" ELSE "bad"
  ELSE IF s = "" THEN "bad"
  ELSE IF In(Ch(s, 1), " +") THEN "free"
  ELSE IF Len(s) > 1 /\ Ch(s, 1) = "0" /\ In(Ch(s, 2), "xX0123456789") THEN "free"
  ELSE IF Ch(s, 1) = "-" /\ AllDigits(Rest(s, 2)) /\ \A i \in 2..Len(s) : Ch(s, i) = "0" THEN "free"
  ELSE "bad"

\* up to the first character of s not a digit
RECURSIVE SkipD(_, _)
SkipD(s, i) == IF i > Len(s) \/ ~In(Ch(s, i), Digits) THEN i ELSE SkipD(s, i + 1)
Decimal(s) ==   \* digits [. digits] [e [sign] digits]
  LET a == SkipD(s, 1)
      b == IF a <= Len(s) /\ Ch(s, a) = "." THEN SkipD(s, a + 1) ELSE a
      frac == b > a + 1
      e == b <= Len(s) /\ In(Ch(s, b), "eE")
      g == IF e /\ b < Len(s) /\ In(Ch(s, b + 1), "+-") THEN b + 2 ELSE b + 1
      h == IF e THEN SkipD(s, g) ELSE b
  IN  (a > 1 \/ frac) /\ (e => h > g) /\ h = Len(s) + 1
Zero(s) == \A i \in 1..Len(s) : In(Ch(s, i), "0.")
SecondsClass(s) ==
  IF s = "" THEN "bad"
  ELSE IF Decimal(s) THEN (IF Zero(s) \/ ((In("e", s) \/ In("E", s)) /\ Len(s) > 6) THEN "free" ELSE "ok")
  ELSE IF s \in {"inf", "INF", "infinity"} \/ In(Ch(s, 1), " +") THEN "free"
  ELSE IF Len(s) > 1 /\ Ch(s, 1) = "0" /\ In(Ch(s, 2), "xX") THEN "free"
  ELSE IF Ch(s, 1) = "-" /\ (Zero(Rest(s, 2)) \/ ~Decimal(Rest(s, 2))) THEN
         (IF Len(s) > 1 /\ Zero(Rest(s, 2)) THEN "free" ELSE "bad")
  ELSE "bad"

GoodAddr == {"[127.0.0.1]:8001", "[10.1.2.3]:1", "[::1]:65535", "[fe80::1]:22", "/tmp/x/sock", "/s", "localhost:80", "localhost:8022"}
GoodBind == GoodAddr \cup {"[127.0.0.1]", "[127.0.0.1]:0", "[::1]"}
BadAddr == {"", "127.0.0.1", "127.0.0.1:", "foo", "localhost", "[127.0.0.1]8001", "[127.0.0.1", "[127.0.0.1]:", "[127.0.0.1]:99999",
            "[127.0.0.1]:65536", "[127.0.0.1]:80x", "[127.0.0.1]:-1", "[1.2.3.4.5]:1", "[1.2.3]:x", "[::g]:1", "[]:1", "nosuchhost:80",
            "[127.0.0.1:80", "127.0.0.1]:80", "tmp/x"}
AddrClass(a) == IF a \in GoodAddr THEN "ok" ELSE IF a \in BadAddr THEN "bad" ELSE "free"
\* a host name or address may stand without a port
BindClass(a) == IF a \in GoodBind THEN "ok" ELSE IF a \in BadAddr \ {"[127.0.0.1]:", "127.0.0.1:", "localhost", "127.0.0.1", "foo"} THEN "bad" ELSE "free"
KeyClass(k) == IF k \in {"@KEY@", "-"} THEN "ok" ELSE IF k = "/nonexistent/key" THEN "bad" ELSE "free"

Classes(p, o) ==
  { IF Has(o, "n") THEN CountClass(Val(o, "n", "")) ELSE "ok",
    IF Has(o, "o") THEN SecondsClass(Val(o, "o", "")) ELSE "ok",
    IF Has(o, "r") THEN SecondsClass(Val(o, "r", "")) ELSE "ok",
    AddrClass(Val(o, "t", "")), KeyClass(Val(o, "k", "")),
    IF p = "spiped" THEN AddrClass(Val(o, "s", "")) ELSE "ok",
    IF Has(o, "b") THEN BindClass(Val(o, "b", "")) ELSE "ok",
    IF Has(o, "u") /\ Val(o, "u", "") \notin {"root", ":root", "root:root"} THEN "free" ELSE "ok" }

Contradicts(p, o) ==
  \/ Has(o, "f") /\ Has(o, "g")
  \/ p = "spiped" /\ (Has(o, "d") = Has(o, "e"))
  \/ Has(o, "r") /\ Has(o, "R")
Missing(p, o) == ~Has(o, "k") \/ ~Has(o, "t") \/ (p = "spiped" /\ ~Has(o, "s"))

Verdict(p, av) ==
  LET sc == Scan(p, av, 1, 1, <<>>)  o == sc.o IN
  IF \E i \in 1..Len(av) : av[i] = "--" THEN "free"
  ELSE IF Has(o, "v") THEN IF sc.ok /\ Len(o) = 1 THEN "version" ELSE "free"
  ELSE IF ~sc.ok \/ Twice(o) \/ Contradicts(p, o) \/ Missing(p, o) THEN "reject"
  \* with -D an address which does not resolve is waited for
  ELSE IF p = "spiped" /\ Has(o, "D") THEN
         IF {CountClass(Val(o, "n", "1")), SecondsClass(Val(o, "o", "1")), SecondsClass(Val(o, "r", "1"))} \cap {"bad"} # {} THEN "reject"
         ELSE IF Classes(p, o) = {"ok"} THEN "accept" ELSE "free"
  ELSE IF "bad" \in Classes(p, o) THEN "reject"
  ELSE IF "free" \in Classes(p, o) THEN "free"
  ELSE "accept"

\* The program was run: what it did first.
Run(p, av, out, rc, msg, socks) ==
  LET v == Verdict(p, av)  o == Scan(p, av, 1, 1, <<>>).o IN
  CASE v = "reject" -> out = "exit" /\ rc = 1 /\ msg = 1 /\ socks = 0
    [] v = "version" -> out = "exit" /\ rc = 0 /\ msg = 1 /\ socks = 0
    [] v = "accept" -> IF p = "spipe" THEN out = "connect"
                       ELSE IF Has(o, "F") THEN out = "serve" /\ socks = 1
                       ELSE out = "fork" /\ socks = (IF Has(o, "D") THEN 0 ELSE 1)
    [] OTHER -> out # "signal" /\ (out = "exit" => rc \in {0, 1} /\ msg = 1)

(* The settings *)
RECURSIVE ToInt(_)
ToInt(s) == IF s = "" THEN 0 ELSE 10 * ToInt(SubSeq(s, 1, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))
Millis(s) == LET a == SkipD(s, 1)  f == Rest(s, a + 1)
             IN  1000 * ToInt(SubSeq(s, 1, a - 1)) + ToInt(SubSeq(f \o "000", 1, 3))
B(x) == IF x THEN 1 ELSE 0
Settings(av) ==
  LET o == Scan("spiped", av, 1, 1, <<>>).o IN
  [mode |-> IF Has(o, "d") THEN "d" ELSE "e", nopfs |-> B(Has(o, "f")), reqpfs |-> B(Has(o, "g")),
   ka |-> B(~Has(o, "j")), maxc |-> ToInt(Val(o, "n", "100")), timeo |-> Millis(Val(o, "o", "5")),
   rtime |-> IF Has(o, "R") THEN 0 ELSE Millis(Val(o, "r", "60")),
   src |-> Val(o, "s", ""), tgt |-> Val(o, "t", ""), bind |-> Val(o, "b", "-"), user |-> Val(o, "u", "-")]
Means(av, c) == Verdict("spiped", av) # "reject" /\ Settings(av) = c
=============================================================================
