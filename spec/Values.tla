------------------------------ MODULE Values -------------------------------
(* Elements, substances and reactions as values.  The state maps a handle <<kind, name>> to the fields of the object as
   the getters show them.  Creation shows the fields (their relation to the record is the subject of Records.tla); from
   then on every copy, assignment, setter and getter is determined.

   Commands: el_/su_/re_  new, copy, assign, set, get, cmp (order and equality)
   focus 0: values; 5: order                                                                                       *)
EXTENDS VF, RealArith, FiniteSets

Init0 == NoFcn
Reset(st) == NoFcn
Kind(op) == SubSeq(Chars(op), 1, 2)
IsEl(c) == StartsWith(c.op, "el_")
IsSu(c) == StartsWith(c.op, "su_")
K(c) == IF IsEl(c) THEN "el" ELSE IF IsSu(c) THEN "su" ELSE "re"
Verb(c) == Replace(Replace(Replace(c.op, "el_", ""), "su_", ""), "re_", "")

\* fields set by one command, as the getters show them
Texts == {"name", "symbol", "formula", "reaction", "equation"}
Ints == {"valence", "class", "isotope", "number", "eos", "mT", "mP", "state", "charge"}
Reals == {"mass", "entropy", "cp", "volume", "Tr", "Pr", "lowT", "upT", "lowP", "upP"}
Vectors == {"hkf", "logk"}
Simple == Texts \cup Ints \cup Reals \cup Vectors
\* reactants: given as sequence of <<symbol, coefficient>> in the order of the symbols
Set(o, c) ==
  [f \in DOMAIN o |->
     IF f = "json" THEN o[f]
     ELSE IF f \in Simple /\ Has(c, f) THEN c[f]
     ELSE IF f = "reactants" /\ Has(c, "reactants") THEN c.reactants
     ELSE IF f = "ref" /\ Has(c, "G") THEN [o[f] EXCEPT !["G"] = <<c.G, "0", "0", "0", 3>>]
     ELSE IF f = "ref" /\ Has(c, "logK") THEN [o[f] EXCEPT !["logK"] = <<c.logK, "0", "0", "0", 3>>]
     ELSE o[f]]
\* equality of shown fields: numbers may be written differently
SameReal(a, b) == RClose(a, b, "1e-14", "0")
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameReal(a[i], b[i])
SameField(el, f, a, b) ==
  IF f \in Texts \cup Ints \cup {"calc", "json"} THEN a = b
  ELSE IF f = "cp" /\ ~el THEN SameSeq(a, b)
  ELSE IF f \in Reals \cup {"expans", "compr"} THEN SameReal(a, b)
  ELSE IF f = "reactants" THEN Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i][1] = b[i][1] /\ SameReal(a[i][2], b[i][2])
  ELSE IF f = "ref" THEN \A p \in DOMAIN b : \A i \in 1..5 : IF i = 5 THEN a[p][i] = b[p][i] ELSE SameReal(a[p][i], b[p][i])
  ELSE IF f \in {"hkf", "logk"} THEN SameSeq(a, b)
  ELSE a = b
Same(a, b) == DOMAIN a = DOMAIN b /\ \A f \in DOMAIN a : SameField("valence" \in DOMAIN a, f, a[f], b[f])

H(c) == <<K(c), c.h>>
From(c) == <<K(c), c.from>>
\* ---------------------------------------------------------------- order: elements by symbol, name, class, isotope, valence; substances by symbol, name
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] = b[1] THEN Less(Tail(a), Tail(b))
              ELSE IF a[1][1] = "s" THEN StrLt(a[1][2], b[1][2]) ELSE a[1][2] < b[1][2]
OrderKey(c, o) == IF IsEl(c) THEN << <<"s", o.symbol>>, <<"s", o.name>>, <<"i", o.class>>, <<"i", o.isotope>>, <<"i", o.valence>> >>
                  ELSE << <<"s", o.symbol>>, <<"s", o.name>> >>

Next1(st, e) ==
  LET c == e.c v == Verb(c) IN
  CASE v = "new" -> IF e.ok THEN Upd(st, H(c), e.r) ELSE st
    [] v \in {"copy", "assign"} -> Upd(st, H(c), st[From(c)])
    [] v = "set" -> Upd(st, H(c), Set(st[H(c)], c))
    [] OTHER -> st
Expect(st, e) ==
  LET c == e.c v == Verb(c) IN
  IF v = "cmp" THEN LET a == OrderKey(c, st[H(c)]) b == OrderKey(c, st[From(c)]) IN [lt |-> Less(a, b), gt |-> Less(b, a), a |-> a, b |-> b]
  ELSE IF v = "new" THEN "any object" ELSE Next1(st, e)[H(c)]
Allowed(st, e) ==
  LET c == e.c v == Verb(c) IN
  /\ e.ok
  /\ (v \in {"copy", "assign", "set", "get"}) => Same(e.r, Next1(st, e)[H(c)])
  /\ (v = "cmp") =>
       LET a == OrderKey(c, st[H(c)]) b == OrderKey(c, st[From(c)]) IN
       /\ e.r.lt = Less(a, b)
       /\ (IsSu(c) => e.r.gt = Less(b, a))
       /\ (a = b => e.r.eq)
       \* elements that differ only in their valence count as equal
       /\ ((IF IsEl(c) THEN SubSeq(a, 1, 4) # SubSeq(b, 1, 4) ELSE a # b) => ~e.r.eq)
Step(st, e) == Next1(st, e)
=============================================================================
