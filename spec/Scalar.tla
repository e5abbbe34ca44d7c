------------------------------ MODULE Scalar -------------------------------
(* Scalars with temperature and pressure derivatives, an error and a status (ThermoFun/Common/ThermoScalar.hpp).

   A scalar is <<value, d/dT, d/dP, error, status>>.  A program assigns the results of operations to registers; every
   operation is judged on the operands it really had (the recorded contents of the registers).
   The whole calculus is the table of the partial derivatives of the operations: for z = f(x, y)
     dz/dT = f_x x_T + f_y y_T,  dz/dP alike,  err_z^2 = (f_x err_x)^2 + (f_y err_y)^2   (Gauss),
   and z is undefined as soon as an operand is undefined, else calculated.
   Relative errors of zero values are not defined: there the error is not specified, and neither are derivatives where
   f has none.

   focus: which components are judged: 2 value and derivatives, 3 error and status, 5 comparisons                  *)
EXTENDS VF, RealArith, FiniteSets

Init0 == NoFcn
Reset(st) == NoFcn
Focus == Param("focus", 0)

Undefined == 0
Calculated == 2
Assigned == 3
Statuses == 0..5
Lit(d) == <<d, "0", "0", "0", -1>>   \* a plain number has no status
LnTen == RLn("10")

\* ---------------------------------------------------------------- operations: f and its partial derivatives
Unary == {"neg", "pos", "sqrt", "exp", "log", "log10"}
Binary == {"add", "sub", "mul", "div", "pow"}
F(op, x, y) ==
  CASE op = "neg" -> RNeg(x) [] op = "pos" -> x [] op = "sqrt" -> RSqrt(x) [] op = "exp" -> RExp(x) [] op = "log" -> RLn(x)
    [] op = "log10" -> RLn(x) (/) LnTen
    [] op = "add" -> x (+) y [] op = "sub" -> x (-) y [] op = "mul" -> x (.) y [] op = "div" -> x (/) y [] op = "pow" -> RPow(x, y)
Fx(op, x, y) ==
  CASE op = "neg" -> "-1" [] op = "pos" -> "1" [] op = "sqrt" -> "0.5" (/) RSqrt(x) [] op = "exp" -> RExp(x) [] op = "log" -> "1" (/) x
    [] op = "log10" -> ("1" (/) x) (/) LnTen
    [] op \in {"add", "sub"} -> "1" [] op = "mul" -> y [] op = "div" -> "1" (/) y
    [] op = "pow" -> y (.) RPow(x, y (-) "1")
Fy(op, x, y) ==
  CASE op \in Unary -> "0" [] op = "add" -> "1" [] op = "sub" -> "-1" [] op = "mul" -> x [] op = "div" -> RNeg(x (/) (y (.) y))
    [] op = "pow" -> RPow(x, y) (.) RLn(x)
Zero(x) == REq(x, "0")
\* plain: the second operand is a plain number (x^2 has derivatives also for negative x)
Singular(op, x, y, plain) == (op \in {"sqrt", "log", "log10", "pow"} /\ Zero(x)) \/ (op = "div" /\ Zero(y)) \/ (op = "pow" /\ ~plain /\ RLt(x, "0"))
NoError(op, x, y, plain) == Singular(op, x, y, plain) \/ (op \in {"mul", "div"} /\ (Zero(x) \/ Zero(y))) \/ (op = "log10" /\ REq(x, "1"))

\* a component: <<value, sum of the magnitudes of its terms>>, or "any"
Big(a) == ~RFin(a) \/ RLt("1e150", RAbs(a))
Two(a, b) == IF ~Big(a) /\ ~Big(b) THEN <<a (+) b, RAbs(a) (+) RAbs(b)>> ELSE <<"any", "0">>
Tame(x) == \A i \in 1..4 : RFin(x[i]) /\ (Zero(x[i]) \/ (RLt(RAbs(x[i]), "1e70") /\ RLt("1e-70", RAbs(x[i]))))
Exact == {"neg", "pos", "add", "sub", "mul", "div"}
Mul0(a, b) == IF Zero(b) THEN "0" ELSE a (.) b
Apply(op, x, y) ==
  LET v  == F(op, x[1], y[1])
      dx == Fx(op, x[1], y[1])
      dy == IF y[5] = -1 THEN "0" ELSE Fy(op, x[1], y[1])
      s  == Singular(op, x[1], y[1], y[5] = -1)
      any == <<"any", "0">>
      wild == ~Tame(x) \/ ~Tame(y) \/ Big(v)   \* overflow and non-finite operands: values as IEEE, the rest is not specified
  IN IF wild THEN [v |-> IF op \in Exact /\ (~RFin(x[1]) \/ ~RFin(y[1])) THEN <<v, "0">> ELSE any, t |-> any, p |-> any, e |-> any,
                   s |-> IF x[5] = Undefined \/ y[5] = Undefined THEN {Undefined} ELSE {Calculated}] ELSE
     [v |-> <<v, IF op \in {"add", "sub"} THEN RAbs(x[1]) (+) RAbs(y[1]) ELSE IF op \in {"log", "log10"} THEN RAbs(v) (+) "1" ELSE RAbs(v)>>,
      t |-> IF s THEN any ELSE Two(Mul0(dx, x[2]), Mul0(dy, y[2])),
      p |-> IF s THEN any ELSE Two(Mul0(dx, x[3]), Mul0(dy, y[3])),
      e |-> IF NoError(op, x[1], y[1], y[5] = -1) THEN any
            ELSE LET a == Mul0(dx, x[4]) b == Mul0(dy, y[4]) IN
                 IF ~Big(a) /\ ~Big(b) THEN LET r == RSqrt((a (.) a) (+) (b (.) b)) IN <<r, r>> ELSE any,
      s |-> IF x[5] = Undefined \/ y[5] = Undefined THEN {Undefined} ELSE {Calculated}]
Exactly(v, t, p, e, s) == [v |-> <<v, RAbs(v)>>, t |-> <<t, RAbs(t)>>, p |-> <<p, RAbs(p)>>, e |-> <<RAbs(e), RAbs(e)>>, s |-> {s}]

\* ---------------------------------------------------------------- expressions: ["op", operands...]
Base(op) == CASE op \in {"addd", "dadd", "addq", "addqd"} -> "add" [] op \in {"subd", "dsub", "subq", "subqd"} -> "sub"
              [] op \in {"muld", "dmul", "mulq", "mulqd"} -> "mul" [] op \in {"divd", "ddiv", "divq", "divqd"} -> "div"
              [] op = "powd" -> "pow" [] OTHER -> op
NumRight == {"addd", "subd", "muld", "divd", "powd", "addqd", "subqd", "mulqd", "divqd"}
NumLeft == {"dadd", "dsub", "dmul", "ddiv"}
InPlaceNum == {"addqd", "subqd", "mulqd", "divqd"}
TwoRegs == {"add", "sub", "mul", "div", "pow", "addq", "subq", "mulq", "divq"}
Leaf == {"ts", "T", "P", "lit", "asg", "reg"}
Value(st, e) ==
  LET op == e[1] IN
  CASE op = "ts" -> Exactly(e[2], e[3], e[4], e[5], e[6])
    [] op = "T" -> Exactly(e[2], "1", "0", "0", Assigned)
    [] op = "P" -> Exactly(e[2], "0", "1", "0", Assigned)
    [] op = "lit" -> Exactly(e[2], "0", "0", "0", Undefined)
    [] op = "asg" -> Exactly(e[2], "0", "0", "0", Assigned)
    [] op = "reg" -> LET x == st[e[2]] IN Exactly(x[1], x[2], x[3], x[4], x[5])
    [] op \in Unary -> Apply(op, st[e[2][2]], Lit("0"))
    [] op \in InPlaceNum -> LET x == st[e[2][2]] r == Apply(Base(op), x, Lit(e[3])) IN [r EXCEPT !.s = @ \cup {x[5]}]
    [] op \in NumRight -> Apply(Base(op), st[e[2][2]], Lit(e[3]))
    [] op \in NumLeft -> Apply(Base(op), Lit(e[2]), st[e[3][2]])
    [] op \in TwoRegs -> Apply(Base(op), st[e[2][2]], st[e[3][2]])

\* ---------------------------------------------------------------- trace interface
Tol == "1e-11"
Near(x, c) == \/ c[1] = "any"
              \/ RFin(x) /\ RLe(RAbs(x (-) c[1]), (Tol (.) c[2]) (+) "1e-290")
              \/ ~RFin(x) /\ x = c[1]
Comparisons(x, y) == <<RLt(x, y), RLe(x, y), RLt(y, x), RLe(y, x), REq(x, y), ~REq(x, y)>>
Operand(st, e) == IF e[1] = "reg" THEN st[e[2]][1] ELSE e[2]
Expect(st, e) == IF e.c.op = "ts" THEN Value(st, e.c.e) ELSE Comparisons(Operand(st, e.c.a), Operand(st, e.c.b))
Allowed(st, e) ==
  /\ e.ok
  /\ (e.c.op = "ts") =>
       LET x == e.r.v z == Value(st, e.c.e) IN
       /\ (Focus \in {0, 2}) => (Near(x[1], z.v) /\ Near(x[2], z.t) /\ Near(x[3], z.p))
       /\ (Focus \in {0, 3}) => (Near(x[4], z.e) /\ x[5] \in z.s)
  /\ (e.c.op = "tscmp" /\ Focus \in {0, 5}) =>
       LET z == Comparisons(Operand(st, e.c.a), Operand(st, e.c.b)) IN e.r.v = z /\ e.r.r = z /\ e.r.l = z
Step(st, e) == IF e.c.op = "ts" /\ Has(e.c, "reg") THEN Upd(st, e.c.reg, e.r.v) ELSE st
=============================================================================
