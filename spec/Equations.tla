----------------------------- MODULE Equations -----------------------------
(* Reaction equations: two sides with "=" between, each a sum of species separated by a plus sign between blanks; a species
   may have a coefficient (a number, with or without sign, joined or separated by blanks).
   Commands: re_new (h [, rec]), re_eq (h, eq), re_copy (h, from), re_get (h).  State: handle -> [symbol, equation, stoich]    *)
EXTENDS VF, RealArith, FiniteSets
Blank == {" ", "\t", "\n"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Find(_, _, _), SkipB(_, _), Cat(_), NumEnd(_, _), Parts(_, _, _)
Find(cs, c, i) == IF i > Len(cs) THEN 0 ELSE IF cs[i] = c THEN i ELSE Find(cs, c, i + 1)
SkipB(cs, i) == IF i <= Len(cs) /\ cs[i] \in Blank THEN SkipB(cs, i + 1) ELSE i
Cat(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Cat(Tail(cs))
\* a plus sign between blanks at position i (of the blank before it): position after it, else 0
PlusAt(cs, i) == IF cs[i] \notin Blank THEN 0
                 ELSE LET j == SkipB(cs, i) IN IF j < Len(cs) /\ cs[j] = "+" /\ cs[j + 1] \in Blank THEN SkipB(cs, j + 1) ELSE 0
\* texts between the separators, without blanks
NoBlank(cs) == SelectSeq(cs, LAMBDA c : c \notin Blank)
Parts(cs, i, cur) ==
  IF i > Len(cs) THEN <<NoBlank(cur)>>
  ELSE LET j == PlusAt(cs, i) IN IF j > 0 THEN <<NoBlank(cur)>> \o Parts(cs, j, <<>>) ELSE Parts(cs, i + 1, Append(cur, cs[i]))
NumEnd(cs, i) == IF i <= Len(cs) /\ cs[i] \in Digits \cup {"."} THEN NumEnd(cs, i + 1) ELSE i
\* a part: [s: species, c: coefficient]
PartOf(cs) ==
  LET sign == IF cs # <<>> /\ cs[1] = "-" THEN "-1" ELSE "1"
      b == IF cs # <<>> /\ cs[1] \in {"+", "-"} THEN 2 ELSE 1
      e == NumEnd(cs, b)
      n == IF e = b THEN "1" ELSE ParseNum(Cat(SubSeq(cs, b, e - 1)))
  IN [s |-> Cat(SubSeq(cs, e, Len(cs))), c |-> n (.) sign]
Side(cs) == LET ps == Parts(cs, 1, <<>>) IN [i \in DOMAIN ps |-> PartOf(ps[i])]
RECURSIVE AddSide(_, _, _, _)
AddSide(f, ps, i, sign) == IF i > Len(ps) THEN f ELSE AddSide(IF ps[i].s = "" THEN f ELSE Upd(f, ps[i].s, Get(f, ps[i].s, "0") (+) (ps[i].c (.) sign)), ps, i + 1, sign)
Stoich(text) ==
  LET cs == Chars(text) k == Find(cs, "=", 1)
  IN AddSide(AddSide(NoFcn, Side(SubSeq(cs, 1, k - 1)), 1, "-1"), Side(SubSeq(cs, k + 1, Len(cs))), 1, "1")
HasEq(text) == Contains(text, "=")
\* a list of pairs is this stoichiometry (species that cancel may be listed with zero)
NonZero(f) == {s \in DOMAIN f : ~RClose(f[s], "0", "0", "1e-13")}
SameStoich(list, f) ==
  LET g == [s \in {list[i][1] : i \in DOMAIN list} |-> list[CHOOSE i \in DOMAIN list : list[i][1] = s][2]]
  IN /\ Cardinality(DOMAIN g) = Len(list)
     /\ NonZero(g) = NonZero(f)
     /\ DOMAIN g \subseteq DOMAIN f
     /\ \A s \in DOMAIN g : RClose(g[s], f[s], "1e-13", "1e-13")
\* ---------------------------------------------------------------- trace interface
Init0 == NoFcn
Reset(st) == NoFcn
New(r) == LET eq == Get(r, "equation", "") IN
  [equation |-> eq, symbol |-> IF Get(r, "symbol", "") = "" THEN eq ELSE r.symbol,
   stoich |-> IF Has(r, "reactants") THEN AddSide(NoFcn, [i \in DOMAIN r.reactants |-> [s |-> r.reactants[i].symbol, c |-> Replace(r.reactants[i].coefficient, "@", "")]], 1, "1")
              ELSE IF eq = "" THEN NoFcn ELSE Stoich(eq)]
After(st, c) ==
  CASE c.op = "re_new" -> New(c.rec)
    [] c.op = "re_copy" -> st[c.from]
    [] c.op = "re_eq" -> [equation |-> c.eq, symbol |-> IF st[c.h].symbol = "" THEN c.eq ELSE st[c.h].symbol, stoich |-> Stoich(c.eq)]
    [] OTHER -> st[c.h]
Allowed(st, e) ==
  LET x == After(st, e.c) IN e.ok /\ e.r.equation = x.equation /\ e.r.symbol = x.symbol /\ SameStoich(e.r.reactants, x.stoich)
Step(st, e) == Upd(st, e.c.h, After(st, e.c))
Expect(st, e) == After(st, e.c)
=============================================================================
