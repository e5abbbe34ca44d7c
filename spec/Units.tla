------------------------------- MODULE Units -------------------------------
(* Units of measurement.  A unit expression is a product and quotient (from the left, with parentheses) of names; a name is
   a product of powers of other names down to the base units.  Converting multiplies with the ratio of the factors of two
   expressions of the same dimension; between two temperatures it is affine; everything else is an error.

   Commands: conv (v, from, to) -> value; convable (from, to) -> the dimensions agree                                *)
EXTENDS VF, RealArith
UnitDef == LoadData("units.json")
\* scale of a temperature unit and its value at 0 K
Temps == [K |-> <<"1", "0">>, kelvin |-> <<"1", "0">>, degC |-> <<"1", "-273.15">>, celsius |-> <<"1", "-273.15">>,
          degF |-> <<"1.8", "-459.67">>, fahrenheit |-> <<"1.8", "-459.67">>, degR |-> <<"1.8", "0">>, rankine |-> <<"1.8", "0">>]
\* ---------------------------------------------------------------- names: factor and dimension (twice the powers of the base units)
NoDim == NoFcn
AddDim(a, b, n2) == LET all == DOMAIN a \cup DOMAIN b
                        s == [x \in all |-> Get(a, x, 0) + (n2 * Get(b, x, 0)) \div 2]
                    IN [x \in {y \in all : s[y] # 0} |-> s[x]]
PowHalf(x, n2) == IF n2 % 2 = 0 THEN RPow(x, RNum(n2 \div 2)) ELSE RPow(x, RDiv(RNum(n2), "2"))
RECURSIVE NameUnit(_), Terms(_, _)
NameUnit(n) ==
  IF n = "1" THEN [ok |-> TRUE, f |-> "1", d |-> NoDim]
  ELSE IF n \in DOMAIN Temps THEN [ok |-> TRUE, f |-> "1", d |-> [x \in {n} |-> 2]]
  ELSE IF n \notin DOMAIN UnitDef THEN [ok |-> FALSE, f |-> "1", d |-> NoDim]
  ELSE IF UnitDef[n][1][2] = n THEN [ok |-> TRUE, f |-> "1", d |-> [x \in {n} |-> 2]]
  ELSE Terms(UnitDef[n], 1)
Terms(ts, i) ==
  IF i > Len(ts) THEN [ok |-> TRUE, f |-> "1", d |-> NoDim]
  ELSE LET u == NameUnit(ts[i][2]) r == Terms(ts, i + 1)
       IN [ok |-> u.ok /\ r.ok, f |-> ts[i][1] (.) PowHalf(u.f, ts[i][3]) (.) r.f, d |-> AddDim(r.d, u.d, ts[i][3])]
Known == [n \in DOMAIN UnitDef |-> NameUnit(n)]
Name(n) == IF n \in DOMAIN UnitDef THEN Known[n] ELSE NameUnit(n)
\* ---------------------------------------------------------------- expressions
Bad == [ok |-> FALSE, f |-> "1", d |-> NoDim]
Join(a, op, b) == [ok |-> a.ok /\ b.ok, f |-> IF op = "*" THEN a.f (.) b.f ELSE a.f (/) b.f, d |-> AddDim(a.d, b.d, IF op = "*" THEN 2 ELSE -2)]
RECURSIVE Word(_, _), Str(_, _, _), Expr(_, _), Rest(_, _, _), Term(_, _)
Word(cs, i) == IF i > Len(cs) \/ cs[i] \in {"*", "/", "(", ")"} THEN i ELSE Word(cs, i + 1)
Str(cs, i, j) == IF i >= j THEN "" ELSE cs[i] \o Str(cs, i + 1, j)
\* results [u: unit, i: position after it]
Term(cs, i) ==
  IF i > Len(cs) THEN [u |-> Bad, i |-> i]
  ELSE IF cs[i] = "(" THEN LET e == Expr(cs, i + 1) IN
       IF e.i <= Len(cs) /\ cs[e.i] = ")" THEN [u |-> e.u, i |-> e.i + 1] ELSE [u |-> Bad, i |-> Len(cs) + 1]
  ELSE LET j == Word(cs, i) IN [u |-> Name(Str(cs, i, j)), i |-> j]
Expr(cs, i) == LET t == Term(cs, i) IN Rest(cs, t.u, t.i)
Rest(cs, u, i) ==
  IF i > Len(cs) THEN [u |-> u, i |-> i]
  ELSE IF cs[i] \in {"*", "/"} THEN LET t == Term(cs, i + 1) IN Rest(cs, Join(u, cs[i], t.u), t.i)
  ELSE [u |-> u, i |-> i]
Parse(s) == LET cs == Chars(s) e == Expr(cs, 1) IN IF e.i = Len(cs) + 1 THEN e.u ELSE Bad
\* ---------------------------------------------------------------- conversion
Convert(v, from, to) ==
  IF from \in DOMAIN Temps /\ to \in DOMAIN Temps
  THEN LET a == Temps[from] b == Temps[to] IN [ok |-> TRUE, v |-> ((((v (-) a[2]) (/) a[1]) (.) b[1]) (+) b[2])]
  ELSE LET a == Parse(from) b == Parse(to) IN
       IF a.ok /\ b.ok /\ a.d = b.d THEN [ok |-> TRUE, v |-> (v (.) (a.f (/) b.f))] ELSE [ok |-> FALSE, v |-> "0"]
Convertible(from, to) ==
  IF from \in DOMAIN Temps /\ to \in DOMAIN Temps THEN TRUE
  ELSE LET a == Parse(from) b == Parse(to) IN a.d = b.d
Known2(from, to) == (from \in DOMAIN Temps /\ to \in DOMAIN Temps) \/ (Parse(from).ok /\ Parse(to).ok)
\* ---------------------------------------------------------------- trace interface
Init0 == 0
Reset(st) == 0
Tol(c) == IF c.from \in DOMAIN Temps /\ c.to \in DOMAIN Temps THEN "1e-10" ELSE "0"
Allowed(st, e) ==
  LET c == e.c IN
  IF c.op = "conv" THEN LET r == Convert(c.v, c.from, c.to) IN
       /\ e.ok = r.ok
       /\ (e.ok => RClose(e.r.v, r.v, "1e-11", Tol(c)))
  ELSE IF Known2(c.from, c.to) THEN e.ok /\ e.r.v = Convertible(c.from, c.to) ELSE ~e.ok
Step(st, e) == st
Expect(st, e) == LET c == e.c IN IF c.op = "conv" THEN Convert(c.v, c.from, c.to) ELSE [known |-> Known2(c.from, c.to), v |-> Convertible(c.from, c.to)]
=============================================================================
