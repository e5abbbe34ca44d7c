------------------------------- MODULE Memo --------------------------------
(* The memoisation templates of ThermoFun/OptimizationUtils.h.

   A memoised function is an object with a cache: a sequence of entries, most recently used last.
     kind "all"      unbounded cache
     kind "last"     remembers the result of the last successful call only ("lastptr": the same through a shared pointer)
     kind "N"        at most n entries, the least recently used entry is evicted; n = 0: nothing is remembered
   An entry is <<key, value, back>>: the arguments of the call as they were before the call, its result, and the
   values of its reference arguments after the call.
   A call with cached arguments does not call the function and gives value and back; any other call calls the function
   exactly once, and remembers its result unless the function fails.

   Commands: memo_new [h, kind, sig, n], memo_call [h, args..., fail]
   sig "ref": f(T, P0, P&, s): fails, or sets P := T + 0.5 if P = 0 and returns body(T, P, s)
   sig "val": f(T, s); sig "one": f(k) -> "v<k>"                                                            *)
EXTENDS VF, RealArith, TLC

Init0 == NoFcn
Reset(st) == NoFcn

\* ---------------------------------------------------------------- the memoised functions
Code == [a |-> 97, b |-> 98, c |-> 99, d |-> 100]
RECURSIVE Hash(_)
Hash(cs) == IF cs = <<>> THEN 0 ELSE 31 * Hash(SubSeq(cs, 1, Len(cs) - 1)) + Code[cs[Len(cs)]]
Body(T, P, s) == ((T (.) "1000") (+) (P (.) "7")) (+) RNum(Hash(Chars(s)))
Key(m, c) == IF m.sig = "ref" THEN <<c.T, c.P, c.s>> ELSE IF m.sig = "val" THEN <<c.T, c.s>> ELSE <<c.k>>
Result(m, c) ==  \* <<value, back>>
  IF m.sig = "ref" THEN LET P == IF REq(c.P, "0") THEN c.T (+) "0.5" ELSE c.P IN <<Body(c.T, P, c.s), P>>
  ELSE IF m.sig = "val" THEN <<Body(c.T, "0", c.s), "">>
  ELSE <<"v" \o ToString(c.k), "">>
\* ---------------------------------------------------------------- the cache
Cap(m) == IF m.kind = "all" THEN -1 ELSE IF m.kind \in {"last", "lastptr"} THEN 1 ELSE m.n
Hit(m, k) == \E i \in DOMAIN m.cache : m.cache[i][1] = k
Entry(m, k) == m.cache[CHOOSE i \in DOMAIN m.cache : m.cache[i][1] = k]
Without(s, k) == SelectSeq(s, LAMBDA x : x[1] # k)
Trim(s, n) == IF n < 0 \/ Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Use(m, k, v) == [m EXCEPT !.cache = Trim(Append(Without(@, k), <<k, v[1], v[2]>>), Cap(m))]

\* ---------------------------------------------------------------- what a call may answer: [ok, calls, v, back]
LastKind(m) == m.kind \in {"last", "lastptr"}
NaNKey(m, k) == m.sig # "one" /\ \E i \in DOMAIN k : k[i] = "nan"
\* the templates that remember one call may forget it when a call fails, and need not recognise NaN arguments
May(m, k) == LastKind(m) /\ (m.failed \/ NaNKey(m, k))
Run(m, c) == IF Get(c, "fail", FALSE) THEN [ok |-> FALSE, calls |-> 1, v |-> "", back |-> ""]
             ELSE LET x == Result(m, c) IN [ok |-> TRUE, calls |-> 1, v |-> x[1], back |-> x[2]]
Answers(m, c) ==
  LET k == Key(m, c) IN
  IF ~Hit(m, k) THEN {Run(m, c)}
  ELSE LET x == Entry(m, k)
           h == [ok |-> TRUE, calls |-> 0, v |-> x[2], back |-> x[3]]
       IN IF May(m, k) THEN {h, Run(m, c)} ELSE {h}
After(m, c, a) ==
  IF a.ok THEN [Use(m, Key(m, c), <<a.v, a.back>>) EXCEPT !.failed = FALSE]
  ELSE [m EXCEPT !.failed = LastKind(m)]

New(c) == [kind |-> c.kind, sig |-> c.sig, n |-> Get(c, "n", 0), cache |-> <<>>, failed |-> FALSE]
Do(st, c) == IF c.op = "memo_new" THEN Upd(st, c.h, New(c))
             ELSE LET m == st[c.h] IN Upd(st, c.h, After(m, c, CHOOSE a \in Answers(m, c) : TRUE))

\* ---------------------------------------------------------------- trace interface
Same(m, a, b) == IF m.sig = "one" THEN a = b ELSE RClose(a, b, "1e-12", "0")
Matches(m, r, a) ==
  /\ r.ok = a.ok
  /\ r.calls = a.calls
  /\ a.ok => Same(m, r.v, a.v) /\ (m.sig = "ref" => RClose(r.P, a.back, "1e-12", "0"))
Expect(st, e) == IF e.c.op = "memo_new" THEN {"accepted"} ELSE Answers(st[e.c.h], e.c)
Allowed(st, e) ==
  /\ e.ok
  /\ e.c.op = "memo_call" => LET m == st[e.c.h] IN \E a \in Answers(m, e.c) : Matches(m, e.r, a)
Step(st, e) ==
  IF e.c.op = "memo_new" THEN Upd(st, e.c.h, New(e.c))
  ELSE LET m == st[e.c.h] IN Upd(st, e.c.h, After(m, e.c, CHOOSE a \in Answers(m, e.c) : Matches(m, e.r, a)))
=============================================================================
