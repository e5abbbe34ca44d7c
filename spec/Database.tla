------------------------------ MODULE Database ------------------------------
(* Databases: one record per symbol and kind.  Loading, appending and setting replace a record, adding keeps the one that is
   there; a reference to a record that is not there makes a new one.  Formulas are read with the elements present.

   state: database -> [el, su, re: symbol -> object (as Records reads it), water: reference of the water triple point]

   Commands: db_new, db_append (items [kind, rec] in a way), db_add, db_set (kind, rec [, json]), db_map, db_setmap (kind, recs),
   db_copy, db_assign, db_del, db_get, db_ref, db_touch (kind, s), db_has, db_all, db_dump, db_formula, db_entropy (f),
   db_charges, db_conv, db_getconv                                                                                    *)
EXTENDS Records, SequencesExt
Kinds == {"el", "su", "re"}
OpOf(k) == k \o "_new"
Empty == [el |-> NoFcn, su |-> NoFcn, re |-> NoFcn, water |-> "HKF_HGK_1974"]
\* ---------------------------------------------------------------- loading
Object(k, r) == LET x == Read(OpOf(k), r) IN IF k = "su" THEN [x EXCEPT !.o.charge = RNum(@)] ELSE x
Put(d, k, o) == [d EXCEPT ![k] = Upd(@, o.symbol, o)]
PutNew(d, k, o) == IF o.symbol \in DOMAIN d[k] THEN d ELSE Put(d, k, o)
\* records one after the other: [ok, d]; the first that cannot be read ends it
RECURSIVE PutAll(_, _)
PutAll(d, items) ==
  IF items = <<>> THEN [ok |-> TRUE, d |-> d]
  ELSE LET i == Head(items) IN
       IF i.kind \notin Kinds THEN [ok |-> FALSE, d |-> d]
       ELSE LET x == Object(i.kind, i.rec) IN IF ~x.ok THEN [ok |-> FALSE, d |-> d] ELSE PutAll(Put(d, i.kind, x.o), Tail(items))
Of(items, k) == SelectSeq(items, LAMBDA i : i.kind = k)
InOrder(c) == IF c.way \in {"sections", "file"} THEN Of(c.items, "el") \o Of(c.items, "su") \o Of(c.items, "re") ELSE c.items
Load(d, c) == PutAll(IF c.way \in {"sections", "file"} /\ Has(c, "water") THEN [d EXCEPT !.water = c.water] ELSE d, InOrder(c))
ReadAll(c) == [i \in DOMAIN c.recs |-> Object(c.kind, c.recs[i])]
RECURSIVE Fold(_, _, _, _), Last1(_, _)
Fold(d, k, xs, keep) == IF xs = <<>> THEN d ELSE Fold(IF keep THEN PutNew(d, k, Head(xs).o) ELSE Put(d, k, Head(xs).o), k, Tail(xs), keep)
\* a map has one record per symbol: the last
Last1(xs, i) == IF i > Len(xs) THEN <<>> ELSE (IF \E j \in (i + 1)..Len(xs) : xs[j].o.symbol = xs[i].o.symbol THEN <<>> ELSE <<xs[i]>>) \o Last1(xs, i + 1)
\* ---------------------------------------------------------------- records made by a reference
NoRec(k, s) == LET n == [name |-> s, symbol |-> s] IN
  Object(k, n).o
Ref0(d, k, s) == IF s \in DOMAIN d[k] THEN d ELSE [d EXCEPT ![k] = Upd(@, s, NoRec(k, s))]
Touch(k, o, c) ==
  LET n == IF Has(c, "name") THEN [o EXCEPT !.name = c.name] ELSE o
      m == IF Has(c, "mass") THEN [n EXCEPT !.mass = c.mass] ELSE n
      e == IF Has(c, "entropy") THEN [m EXCEPT !.entropy = c.entropy] ELSE m
      f == IF Has(c, "formula") THEN [e EXCEPT !.formula = c.formula] ELSE e
      g == IF Has(c, "G") THEN [f EXCEPT !.ref.G = <<c.G, "0", "0", "0", 3>>] ELSE f
  IN IF Has(c, "eq") THEN [g EXCEPT !.equation = c.eq, !.symbol = IF @ = "" THEN c.eq ELSE @, !.stoich = Stoich(c.eq)] ELSE g
\* ---------------------------------------------------------------- formulas: symbols with counts, brackets, a charge at the end
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "_"}
RECURSIVE LowEnd(_, _), BarEnd(_, _), Terms(_, _, _)
LowEnd(cs, i) == IF i <= Len(cs) /\ cs[i] \in Lower THEN LowEnd(cs, i + 1) ELSE i
BarEnd(cs, i) == IF i > Len(cs) THEN i ELSE IF cs[i] = "|" THEN i + 1 ELSE BarEnd(cs, i + 1)
Count(cs, b, e) == IF b = e THEN "1" ELSE ParseNum(Cat(SubSeq(cs, b, e - 1)))
Plus(f, g, n) == [s \in DOMAIN f \cup DOMAIN g |-> Get(f, s, "0") (+) (Get(g, s, "0") (.) n)]
\* [f: symbol -> count, i: position after the terms, ok]
Terms(cs, i, f) ==
  IF i > Len(cs) THEN [f |-> f, i |-> i, ok |-> TRUE]
  ELSE IF cs[i] = "(" THEN
    LET t == Terms(cs, i + 1, NoFcn) IN
    IF ~t.ok \/ t.i > Len(cs) \/ cs[IF t.i > Len(cs) THEN 1 ELSE t.i] # ")" THEN [f |-> f, i |-> i, ok |-> FALSE]
    ELSE LET e == NumEnd(cs, t.i + 1) IN Terms(cs, e, Plus(f, t.f, Count(cs, t.i + 1, e)))
  ELSE IF cs[i] \in Upper THEN
    LET a == LowEnd(cs, i + 1)
        b == IF a <= Len(cs) /\ cs[a] = "|" THEN BarEnd(cs, a + 1) ELSE a
        e == NumEnd(cs, b)
    IN Terms(cs, e, Plus(f, (Cat(SubSeq(cs, i, a - 1)) :> Count(cs, b, e)), "1"))
  ELSE [f |-> f, i |-> i, ok |-> TRUE]
Formula(text) ==
  LET cs == Chars(text) t == Terms(cs, 1, NoFcn) n == Len(cs) IN
  IF ~t.ok THEN [ok |-> FALSE, f |-> NoFcn, z |-> "0"]
  ELSE IF t.i > n THEN [ok |-> TRUE, f |-> t.f, z |-> "0"]
  ELSE IF cs[t.i] \in {"+", "-"} THEN LET e == NumEnd(cs, t.i + 1) IN [ok |-> e > n, f |-> t.f, z |-> Count(cs, t.i + 1, e) (.) (IF cs[t.i] = "+" THEN "1" ELSE "-1")]
  ELSE [ok |-> cs[t.i] = "@" /\ t.i = n, f |-> t.f, z |-> "0"]
\* the element a symbol in a formula means: the one of no particular class and isotope
Known(d, s) == s \in DOMAIN d.el /\ REq(d.el[s].class, "0") /\ d.el[s].isotope = 0
FormulaOk(d, text) == LET x == Formula(text) IN x.ok /\ \A s \in DOMAIN x.f : Known(d, s)
Composition(d, text) == LET x == Formula(text) IN {<<s, x.f[s], d.el[s].mass, d.el[s].entropy>> : s \in DOMAIN x.f}
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN "0" ELSE LET s == CHOOSE x \in S : TRUE IN f[s] (+) SumOf(f, S \ {s})
FEntropy(d, text) == LET x == Formula(text) IN SumOf([s \in DOMAIN x.f |-> x.f[s] (.) d.el[s].entropy], DOMAIN x.f)
Charged(d) == [d EXCEPT !.su = [s \in DOMAIN @ |-> [d.su[s] EXCEPT !.charge = Formula(d.su[s].formula).z]]]
\* ---------------------------------------------------------------- transitions: [ok, st]
Same(st) == [ok |-> TRUE, st |-> st]
Set1(st, h, x) == [ok |-> x.ok, st |-> Upd(st, h, x.d)]
Effect(st, c) ==
  LET D == st[c.db] IN
  CASE c.op = "db_new" -> IF ~Has(c, "way") THEN Same(Upd(st, c.db, Empty))
                          ELSE LET x == Load(Empty, c) IN IF x.ok THEN Same(Upd(st, c.db, x.d)) ELSE [ok |-> FALSE, st |-> st]
    [] c.op = "db_append" -> Set1(st, c.db, Load(D, c))
    [] c.op \in {"db_copy", "db_assign"} -> Same(Upd(st, c.db, st[c.from]))
    [] c.op = "db_del" -> Same(Del(st, c.db))
    [] c.op \in {"db_add", "db_set"} ->
         LET x == Object(c.kind, c.rec) IN IF ~x.ok THEN [ok |-> FALSE, st |-> st] ELSE Same(Upd(st, c.db, IF c.op = "db_add" THEN PutNew(D, c.kind, x.o) ELSE Put(D, c.kind, x.o)))
    [] c.op \in {"db_map", "db_setmap"} ->
         LET xs == ReadAll(c) IN IF \E i \in DOMAIN xs : ~xs[i].ok THEN [ok |-> FALSE, st |-> st] ELSE Same(Upd(st, c.db, Fold(D, c.kind, Last1(xs, 1), c.op = "db_map")))
    [] c.op = "db_get" -> [ok |-> c.s \in DOMAIN D[c.kind], st |-> st]
    [] c.op = "db_ref" -> Same(Upd(st, c.db, Ref0(D, c.kind, c.s)))
    [] c.op = "db_touch" -> LET r == Ref0(D, c.kind, c.s) IN Same(Upd(st, c.db, [r EXCEPT ![c.kind][c.s] = Touch(c.kind, @, c)]))
    [] c.op \in {"db_formula", "db_entropy"} -> [ok |-> FormulaOk(D, c.f), st |-> st]
    [] c.op = "db_charges" -> LET ok == \A s \in DOMAIN D.su : FormulaOk(D, D.su[s].formula) IN
         [ok |-> ok, st |-> IF ok THEN Upd(st, c.db, Charged(D))
                            ELSE Upd(st, c.db, [D EXCEPT !.su = [s \in DOMAIN @ |-> IF FormulaOk(D, D.su[s].formula) THEN [D.su[s] EXCEPT !.charge = "any"] ELSE D.su[s]]])]   \* some may have been set
    [] c.op = "db_conv" -> Same(Upd(st, c.db, [D EXCEPT !.water = c.water]))
    [] OTHER -> Same(st)
\* ---------------------------------------------------------------- answers
Sorted(q) == \A i \in 1..(Len(q) - 1) : StrLt(q[i], q[i + 1])
IsList(q, S) == Sorted(q) /\ {q[i] : i \in DOMAIN q} = S
IsDump(r, d) == IsList(r.el, DOMAIN d.el) /\ IsList(r.su, DOMAIN d.su) /\ IsList(r.re, DOMAIN d.re) /\ r.n = <<Len(r.el), Len(r.su), Len(r.re)>>
\* differences of an object and what the getters show; the valence follows from the symbol, the charge may be unknown
Diff(k, o, g) == Wrong(k, [f \in DOMAIN o \ {"valence", "charge"} |-> o[f]], g) \cup (IF k # "su" \/ o.charge = "any" \/ REq(o.charge, RNum(g.charge)) THEN {} ELSE {"charge"})
Answers(d, c, r) ==
  CASE c.op \in {"db_get", "db_ref"} -> Diff(c.kind, d[c.kind][c.s], r) = {}
    [] c.op = "db_has" -> r.v = (c.s \in DOMAIN d[c.kind])
    [] c.op = "db_all" -> /\ IsList([i \in DOMAIN r.map |-> r.map[i][1]], DOMAIN d[c.kind])
                          /\ Len(r.list) = Len(r.map)
                          /\ \A i \in DOMAIN r.map : LET o == d[c.kind][r.map[i][1]] IN r.map[i][2] = o.name /\ r.list[i] = <<o.symbol, o.name>>
    [] c.op = "db_formula" -> LET x == Composition(d, c.f) IN
                              /\ Len(r.v) = Cardinality(x)
                              /\ \A y \in x : \E i \in DOMAIN r.v : r.v[i][1] = y[1] /\ \A j \in 2..4 : RClose(r.v[i][j], y[j], "1e-12", "1e-300")
    [] c.op = "db_entropy" -> RClose(r.v, FEntropy(d, c.f), "1e-11", "1e-10")
    [] c.op = "db_charges" -> IsList([i \in DOMAIN r.v |-> r.v[i][1]], DOMAIN d.su) /\ \A i \in DOMAIN r.v : REq(RNum(r.v[i][2]), d.su[r.v[i][1]].charge)
    [] c.op = "db_getconv" -> r.water = d.water
    [] c.op \in {"db_del", "db_conv"} -> TRUE
    [] OTHER -> IsDump(r, d)
DbAllowed(st, e) ==
  LET x == Effect(st, e.c) IN e.ok = x.ok /\ (e.ok => (e.c.op = "db_del" \/ Answers(x.st[e.c.db], e.c, e.r)))
DbStep(st, e) == Effect(st, e.c).st
DbExpect(st, e) ==
  LET x == Effect(st, e.c) c == e.c IN
  IF x.ok # e.ok THEN [ok |-> x.ok]
  ELSE IF c.op \in {"db_get", "db_ref"} THEN [wrong |-> [f \in Diff(c.kind, x.st[c.db][c.kind][c.s], e.r) |-> x.st[c.db][c.kind][c.s][f]]]
  ELSE IF c.op = "db_formula" THEN [composition |-> Composition(x.st[c.db], c.f)]
  ELSE IF c.op = "db_entropy" THEN [entropy |-> FEntropy(x.st[c.db], c.f)]
  ELSE [k \in Kinds |-> [s \in DOMAIN x.st[c.db][k] |-> x.st[c.db][k][s].name]]
=============================================================================
