------------------------------- MODULE Batch --------------------------------
(* Batch calculations and their outputs.  A batch has the content and settings of the engine or database it was made from,
   units, digits, increments and preferences.  A calculation asks for properties of symbols at temperatures and pressures in
   the units of the batch; its output keeps the results, conditions, units, digits and preferences of that moment.  The
   values are those the engine answers (learned from queries of an engine of the same configuration).

   state: that of Engine and  bas  batch -> [en, units, digits, Tinc, Pinc, prefs];  outs  output -> what it shows
   Commands: ba_new (en | db | use), ba_del, ba_solvent, ba_prefs, ba_unit, ba_digit, ba_unitdigit, ba_units, ba_digits, ba_mapunits,
   ba_mapdigits, ba_Tinc, ba_Pinc, ba_get, ba_calc (kind sub | rea; form one | pair | pairs | grid | incr; given: results supplied),
   out_rows, out_double, out_scalar, out_csv, out_tcsv, out_grid, out_del; those of Engine                               *)
EXTENDS Engine, TLC
U == INSTANCE Units
\* ---------------------------------------------------------------- properties and defaults
SubProps == [gibbs_energy |-> "G", helmholtz_energy |-> "A", internal_energy |-> "U", enthalpy |-> "H", entropy |-> "S", volume |-> "V",
             heat_capacity_cp |-> "Cp", heat_capacity_cv |-> "Cv"]
ReaProps == [reaction_gibbs_energy |-> "G", reaction_helmholtz_energy |-> "A", reaction_internal_energy |-> "U", reaction_enthalpy |-> "H",
             reaction_entropy |-> "S", reaction_volume |-> "V", reaction_heat_capacity_cp |-> "Cp", reaction_heat_capacity_cv |-> "Cv",
             logKr |-> "logK", lnKr |-> "lnK"]
PropNames == DOMAIN SubProps \cup DOMAIN ReaProps
Quantity(p) == LET m == SubProps @@ ReaProps IN m[p]
UnitDefault == [p \in PropNames \cup {"temperature", "pressure"} |->
  CASE p = "temperature" -> "K" [] p = "pressure" -> "Pa" [] p \in {"logKr", "lnKr"} -> "1" [] OTHER ->
  CASE Quantity(p) = "V" -> "J/bar" [] Quantity(p) \in {"S", "Cp", "Cv"} -> "J/K/mol" [] OTHER -> "J/mol"]
DigitDefault == [p \in PropNames \cup {"temperature", "pressure"} |->
  CASE p \in {"temperature", "pressure"} -> 1 [] OTHER -> IF Quantity(p) \in {"G", "A", "U", "H"} THEN 0 ELSE 3]
PrefDefault == [fixed |-> TRUE, sci |-> FALSE, sep |-> ",", fromReactants |-> FALSE, pairsFirst |-> TRUE, Tfirst |-> TRUE, nan |-> TRUE]
NewBatch(en) == [en |-> en, units |-> UnitDefault, digits |-> DigitDefault, Tinc |-> <<"25", "300", "25">>, Pinc |-> <<"0", "0", "0">>, prefs |-> PrefDefault]
\* ---------------------------------------------------------------- settings
RECURSIVE SetAll(_, _, _, _)
\* setters of single properties stop at the first unknown one
SetAll(m, ps, vs, i) == IF i > Len(ps) \/ ps[i] \notin DOMAIN m THEN m ELSE SetAll([m EXCEPT ![ps[i]] = vs[i]], ps, vs, i + 1)
RECURSIVE PutAll(_, _, _)
PutAll(m, kv, i) == IF i > Len(kv) THEN m ELSE PutAll(Upd(m, kv[i][1], kv[i][2]), kv, i + 1)
Settings(b, c) ==
  CASE c.op = "ba_prefs" -> [b EXCEPT !.prefs = Over(@, c.set)]
    [] c.op = "ba_solvent" -> [b EXCEPT !.en.prefs.solvent = c.s]
    [] c.op = "ba_unit" -> [b EXCEPT !.units = SetAll(@, <<c.p>>, <<c.u>>, 1)]
    [] c.op = "ba_digit" -> [b EXCEPT !.digits = SetAll(@, <<c.p>>, <<c.d>>, 1)]
    [] c.op = "ba_unitdigit" -> [b EXCEPT !.units = SetAll(@, <<c.p>>, <<c.u>>, 1), !.digits = SetAll(@, <<c.p>>, <<c.d>>, 1)]
    [] c.op = "ba_units" -> [b EXCEPT !.units = SetAll(@, c.ps, c.us, 1)]
    [] c.op = "ba_digits" -> [b EXCEPT !.digits = SetAll(@, c.ps, c.ds, 1)]
    [] c.op = "ba_mapunits" -> [b EXCEPT !.units = PutAll(@, c.m, 1)]
    [] c.op = "ba_mapdigits" -> [b EXCEPT !.digits = PutAll(@, c.m, 1)]
    [] c.op = "ba_Tinc" -> [b EXCEPT !.Tinc = c.v]
    [] c.op = "ba_Pinc" -> [b EXCEPT !.Pinc = c.v]
    [] OTHER -> b
SettingOk(b, c) ==
  CASE c.op = "ba_unit" -> c.p \in DOMAIN b.units
    [] c.op = "ba_digit" -> c.p \in DOMAIN b.digits
    [] c.op = "ba_unitdigit" -> c.p \in DOMAIN b.units /\ c.p \in DOMAIN b.digits
    [] c.op = "ba_units" -> \A i \in DOMAIN c.ps : c.ps[i] \in DOMAIN b.units
    [] c.op = "ba_digits" -> \A i \in DOMAIN c.ps : c.ps[i] \in DOMAIN b.digits
    [] OTHER -> TRUE
IsSetting(c) == c.op \in {"ba_prefs", "ba_solvent", "ba_unit", "ba_digit", "ba_unitdigit", "ba_units", "ba_digits", "ba_mapunits", "ba_mapdigits", "ba_Tinc", "ba_Pinc"}
\* ---------------------------------------------------------------- conditions
RECURSIVE Points(_, _, _)
\* from a in steps to the first point that is not below b
Points(a, b, step) == IF RLt(a, b (-) ("1e-9" (.) step)) THEN <<a>> \o Points(a (+) step, b, step) ELSE <<a>>
Endless(inc) == RLt(inc[1], inc[2]) /\ RLe(inc[3], "0")
RECURSIVE Cross(_, _)
Cross(as, bs) == IF as = <<>> THEN <<>> ELSE [i \in DOMAIN bs |-> <<Head(as), bs[i]>>] \o Cross(Tail(as), bs)
Swap(tp) == [i \in DOMAIN tp |-> <<tp[i][2], tp[i][1]>>]
Grid(b, Ts, Ps) == IF b.prefs.Tfirst THEN Cross(Ts, Ps) ELSE Swap(Cross(Ps, Ts))
\* pairs of temperature and pressure in the units of the batch; <<>> and not ok if the increments never end
Conditions(b, c) ==
  CASE c.form \in {"one", "pair"} -> << <<c.T, c.P>> >>
    [] c.form = "pairs" -> c.tp
    [] c.form = "grid" -> Grid(b, c.Ts, c.Ps)
    [] OTHER -> IF Endless(b.Tinc) \/ Endless(b.Pinc) THEN <<>> ELSE Grid(b, Points(b.Tinc[1], b.Tinc[2], b.Tinc[3]), Points(b.Pinc[1], b.Pinc[2], b.Pinc[3]))
UnitOf(b, p) == Get(b.units, p, "none")
ToK(b, T) == U!Convert(T, UnitOf(b, "temperature"), "K")
ToPa(b, P) == U!Convert(P, UnitOf(b, "pressure"), "Pa")
\* questions name temperature and pressure with their units ("540 degR")
Ask(b, c, tp, s) == [op |-> IF c.kind = "sub" THEN "en_sub" ELSE IF b.prefs.fromReactants THEN "en_rfr" ELSE "en_rea", s |-> s,
                     T |-> tp[1] \o " " \o UnitOf(b, "temperature"), P |-> tp[2] \o " " \o UnitOf(b, "pressure")]
UnitsOk(b, tp, c) == c.syms = <<>> \/ \A i \in DOMAIN tp : ToK(b, tp[i][1]).ok /\ ToPa(b, tp[i][2]).ok
IsGiven(c) == Has(c, "given")
\* rows of results: <<condition, symbol>>
RowOrder(b, n, m) == LET k == n * m IN [x \in 1..k |-> IF b.prefs.pairsFirst THEN <<((x - 1) % n) + 1, ((x - 1) \div n) + 1>> ELSE <<((x - 1) \div m) + 1, ((x - 1) % m) + 1>>]
\* the questions to the engine, in the order of the rows
Questions(b, c) ==
  LET tp == Conditions(b, c) ro == RowOrder(b, Len(tp), Len(c.syms)) IN
  IF IsGiven(c) THEN [i \in DOMAIN c.given |-> [op |-> IF c.kind = "sub" THEN "en_sub" ELSE "en_rea", s |-> c.given[i][3], T |-> c.given[i][1], P |-> c.given[i][2]]]
  ELSE [i \in DOMAIN ro |-> Ask(b, c, tp[ro[i][1]], c.syms[ro[i][2]])]
EngineOfCalc(st, c) == IF IsGiven(c) THEN st.ens[c.en] ELSE st.bas[c.ba].en
\* ---------------------------------------------------------------- results
NotDefined == <<"0", "0", "0", "0", 0>>
CellOf(c, p, a) == LET m == IF c.kind = "sub" THEN SubProps ELSE ReaProps IN IF p \in DOMAIN m THEN a.p[m[p]] ELSE NotDefined
Calc(st, c) ==
  LET b == st.bas[c.ba]
      tp == Conditions(b, c)
      bad == (c.form = "incr" /\ (Endless(b.Tinc) \/ Endless(b.Pinc))) \/ (~IsGiven(c) /\ (~UnitsOk(b, tp, c) \/ "temperature" \notin DOMAIN b.units \/ "pressure" \notin DOMAIN b.units))
      en == EngineOfCalc(st, c)
      qs == Questions(b, c)
      ks == [i \in DOMAIN qs |-> Key(st, en, qs[i], qs[i].P)]
      known == \A i \in DOMAIN ks : ks[i] \in DOMAIN st.learn
      as == [i \in DOMAIN ks |-> st.learn[ks[i]]]
      ro == RowOrder(b, Len(tp), Len(c.syms))
  IN IF bad THEN [known |-> TRUE, ok |-> FALSE]
     ELSE IF ~known THEN [known |-> FALSE, ok |-> TRUE]
     ELSE IF \E i \in DOMAIN as : ~as[i].ok THEN [known |-> TRUE, ok |-> FALSE]
     ELSE [known |-> TRUE, ok |-> TRUE, kind |-> c.kind, syms |-> c.syms, props |-> c.props, tp |-> tp, b |-> b,
           \* the sum of increments is not exact
           tol |-> IF c.form = "incr" THEN "1e-4" ELSE "1e-9",
           \* pressures that may be shown: as given or, at saturated vapour pressure, one that was found
           P |-> [j \in DOMAIN tp |->
                    IF IsGiven(c) THEN {tp[j][2]}
                    ELSE LET r == {as[i].P : i \in {x \in DOMAIN as : ro[x][1] = j /\ ~RClose(as[x].P, ToPa(b, tp[j][2]).v, "1e-14", "0")}}
                         IN IF r = {} THEN {tp[j][2]} ELSE {U!Convert(p, "Pa", UnitOf(b, "pressure")).v : p \in r}],
           cells |-> [i \in DOMAIN as |-> [k \in DOMAIN c.props |-> CellOf(c, c.props[k], as[i])]]]
\* ---------------------------------------------------------------- what an output shows
RowsOk(rows, o) == Len(rows) = Len(o.cells) /\ \A i \in DOMAIN rows : Len(rows[i]) = Len(o.props) /\ \A k \in DOMAIN o.props : RClose(rows[i][k], o.cells[i][k][1], o.tol, o.tol)
NumText(o, t, v, d) == IF o.b.prefs.sci THEN SciText(t, v, d, "1e-9") ELSE IF o.b.prefs.fixed THEN FixedText(t, v, d, "1e-9") ELSE GenText(t, v, d, "1e-9")
PosText(o, t, v, p) == NumText(o, t, v, o.b.digits[p])       \* temperatures and pressures
Safe(o, s) == Replace(s, o.b.prefs.sep, "_")
InUnit(o, p, v) == U!Convert(v, UnitDefault[p], o.b.units[p])
CellText(o, t, p, cell) ==
  IF cell[5] = 0 /\ o.b.prefs.nan THEN t = "NaN" ELSE NumText(o, t, InUnit(o, p, cell[1]).v, o.b.digits[p])
Printable(o, p, cell) == p \in DOMAIN o.b.digits /\ ((cell[5] = 0 /\ o.b.prefs.nan) \/ (p \in DOMAIN UnitDefault /\ p \in DOMAIN o.b.units /\ InUnit(o, p, cell[1]).ok))
AllPrintable(o) == \A i \in DOMAIN o.cells : \A k \in DOMAIN o.props : Printable(o, o.props[k], o.cells[i][k])
HasUnits(o) == \A k \in DOMAIN o.props : o.props[k] \in DOMAIN o.b.units
PosUnit(o) == {"temperature", "pressure"} \subseteq DOMAIN o.b.units
PosDigit(o) == {"temperature", "pressure"} \subseteq DOMAIN o.b.digits
TUnit(o) == "T(" \o o.b.units["temperature"] \o ")"
PUnit(o) == "P(" \o o.b.units["pressure"] \o ")"
PropUnit(o, p) == p \o "(" \o o.b.units[p] \o ")"
\* one row per symbol and condition
CsvCan(o) == PosUnit(o) /\ HasUnits(o) /\ (o.cells # <<>> => PosDigit(o)) /\ AllPrintable(o)
CsvOk(o, ls) ==
  /\ Len(ls) = Len(o.cells) + 1
  /\ ls[1] = <<"Symbol", TUnit(o), PUnit(o)>> \o [k \in DOMAIN o.props |-> PropUnit(o, o.props[k])]
  /\ LET ro == RowOrder(o.b, Len(o.tp), Len(o.syms)) IN
     \A i \in DOMAIN o.cells : LET l == ls[i + 1] IN
       /\ Len(l) = Len(o.props) + 3
       /\ l[1] = Safe(o, o.syms[ro[i][2]])
       /\ PosText(o, l[2], o.tp[ro[i][1]][1], "temperature")
       /\ \E p \in o.P[ro[i][1]] : PosText(o, l[3], p, "pressure")
       /\ \A k \in DOMAIN o.props : CellText(o, l[k + 3], o.props[k], o.cells[i][k])
\* one row per property and condition, a column for each symbol
RowAt(o, j, s) == IF o.b.prefs.pairsFirst THEN (s - 1) * Len(o.tp) + j ELSE (j - 1) * Len(o.syms) + s
TcsvOk(o, ls) ==
  LET n == Len(o.tp) m == Len(o.props)
      ro == [x \in 1..(n * m) |-> IF o.b.prefs.pairsFirst THEN <<((x - 1) % n) + 1, ((x - 1) \div n) + 1>> ELSE <<((x - 1) \div m) + 1, ((x - 1) % m) + 1>>]
  IN /\ Len(ls) = n * m + 1
     /\ ls[1] = <<"Property", TUnit(o), PUnit(o)>> \o [k \in DOMAIN o.syms |-> Safe(o, o.syms[k])]
     /\ \A i \in DOMAIN ro : LET l == ls[i + 1] j == ro[i][1] p == o.props[ro[i][2]] IN
          /\ Len(l) = Len(o.syms) + 3
          /\ l[1] = Safe(o, p) \o "(" \o o.b.units[p] \o ")"
          /\ PosText(o, l[2], o.tp[j][1], "temperature")
          /\ \E q \in o.P[j] : PosText(o, l[3], q, "pressure")
          /\ \A k \in DOMAIN o.syms : CellText(o, l[k + 3], p, o.cells[RowAt(o, j, k)][ro[i][2]])
TcsvCan(o) == PosUnit(o) /\ (o.tp # <<>> => HasUnits(o) /\ (o.props # <<>> => PosDigit(o)) /\ (o.syms # <<>> => AllPrintable(o)))
\* per property a table of temperatures and pressures
RECURSIVE Uniq(_, _)
Uniq(seq, i) == IF i = 0 THEN <<>> ELSE LET u == Uniq(seq, i - 1) IN IF \E j \in DOMAIN u : REq(u[j], seq[i]) THEN u ELSE Append(u, seq[i])
GridOk(o, p, k, ls) ==
  LET Ts == Uniq([i \in DOMAIN o.tp |-> o.tp[i][1]], Len(o.tp))
      Ps == Uniq([i \in DOMAIN o.tp |-> o.tp[i][2]], Len(o.tp))
      tf == o.b.prefs.Tfirst
      rows == IF tf THEN Ts ELSE Ps
      cols == IF tf THEN Ps ELSE Ts
      rn == IF tf THEN "temperature" ELSE "pressure"
      cn == IF tf THEN "pressure" ELSE "temperature"
      At(r, q) == LET t == IF tf THEN r ELSE q z == IF tf THEN q ELSE r IN {j \in DOMAIN o.tp : REq(o.tp[j][1], t) /\ REq(o.tp[j][2], z)}
      head == ls[1]
  IN /\ Len(head) = Len(cols) + 2
     /\ head[1] = "Symbol"
     /\ head[2] = IF tf THEN TUnit(o) \o "_" \o PUnit(o) ELSE PUnit(o) \o "_" \o TUnit(o)
     /\ \A i \in DOMAIN cols : PosText(o, head[i + 2], cols[i], cn)
     /\ IF ~o.b.prefs.pairsFirst THEN Len(ls) = 2 /\ ls[2] = <<"Only a loop over T-P pairs is possible when generating property grids">>
        ELSE /\ Len(ls) = Len(o.syms) * Len(rows) + 1
             /\ \A s \in DOMAIN o.syms : \A i \in DOMAIN rows :
                  LET l == ls[(s - 1) * Len(rows) + i + 1] IN
                  /\ Len(l) = Len(cols) + 2
                  /\ l[1] = Safe(o, o.syms[s])
                  /\ PosText(o, l[2], rows[i], rn)
                  /\ \A j \in DOMAIN cols : LET js == At(rows[i], cols[j]) IN
                       IF js = {} THEN l[j + 2] = "NaN" ELSE \E x \in js : CellText(o, l[j + 2], p, o.cells[RowAt(o, x, s)][k])
GridCan(o) == \A k \in DOMAIN o.props : PosUnit(o) /\ (o.tp # <<>> => PosDigit(o)) /\
                (o.b.prefs.pairsFirst => \A i \in DOMAIN o.cells : Printable(o, o.props[k], o.cells[i][k]))
\* ---------------------------------------------------------------- trace interface
BInit == Init0 @@ [bas |-> NoFcn, outs |-> NoFcn]
BReset(st) == BInit
IsOut(c) == StartsWith(c.op, "out_")
IsBatch(c) == StartsWith(c.op, "ba_")
BatchEngine(st, c) == IF Has(c, "en") THEN st.ens[c.en]
                      ELSE [db |-> IF Has(c, "db") THEN st.dbs[c.db] ELSE AddAll(NoContent, c.use), prefs |-> NoPrefs, conv |-> NoConv]
\* configuration without results (also for the generator)
BConf(st, c) ==
  CASE c.op = "ba_new" -> [st EXCEPT !.bas = Upd(@, c.ba, NewBatch(BatchEngine(st, c)))]
    [] c.op = "ba_del" -> [st EXCEPT !.bas = Del(@, c.ba)]
    [] IsSetting(c) -> [st EXCEPT !.bas[c.ba] = Settings(@, c)]
    [] OTHER -> Conf(st, c)
OutOk(st, e) ==
  LET c == e.c IN
  IF c.out \notin DOMAIN st.outs THEN Has(e.r, "none")
  ELSE LET o == st.outs[c.out] full == o.cells # <<>> /\ o.props # <<>> IN
       CASE c.op = "out_rows" -> e.ok /\ RowsOk(e.r.rows, o)
         [] c.op = "out_double" -> full => (e.ok /\ RClose(e.r.v, o.cells[1][1][1], o.tol, o.tol))
         [] c.op = "out_scalar" -> full => (e.ok /\ e.r.v[5] = o.cells[1][1][5] /\ RClose(e.r.v[1], o.cells[1][1][1], o.tol, o.tol))
         [] c.op = "out_csv" -> e.ok = CsvCan(o) /\ (e.ok => CsvOk(o, e.r.lines))
         [] c.op = "out_tcsv" -> e.ok = TcsvCan(o) /\ (e.ok => TcsvOk(o, e.r.lines))
         [] c.op = "out_grid" -> e.ok = GridCan(o) /\ (e.ok => \A k \in DOMAIN o.props : GridOk(o, o.props[k], k, e.r.files[k]))
         [] OTHER -> e.ok
GetOk(b, r) == r.units = b.units /\ r.digits = b.digits /\ \A x \in DOMAIN r.Tinc : RClose(r.Tinc[x], b.Tinc[CASE x = "Tmin" -> 1 [] x = "Tmax" -> 2 [] OTHER -> 3], "1e-15", "0")
               /\ \A y \in DOMAIN r.Pinc : RClose(r.Pinc[y], b.Pinc[CASE y = "Pmin" -> 1 [] y = "Pmax" -> 2 [] OTHER -> 3], "1e-15", "0")
BAllowed(st, e) ==
  LET c == e.c IN
  CASE c.op \in {"ba_new", "ba_del"} -> e.ok
    [] IsSetting(c) -> e.ok = SettingOk(st.bas[c.ba], c)
    [] c.op = "ba_get" -> e.ok /\ GetOk(st.bas[c.ba], e.r)
    [] c.op = "ba_calc" -> LET x == Calc(st, c) IN x.known /\ e.ok = x.ok /\ (x.ok => RowsOk(e.r.rows, x))
    [] IsOut(c) -> OutOk(st, e)
    [] OTHER -> (IsQuery(c) \/ e.ok)
\* an output keeps the values the calculation has shown
Kept(x, rows) == [x EXCEPT !.cells = [i \in DOMAIN @ |-> [k \in DOMAIN x.props |-> [x.cells[i][k] EXCEPT ![1] = rows[i][k]]]], !.tol = "1e-14"]
BStep(st, e) ==
  LET c == e.c IN
  CASE c.op = "ba_calc" -> IF e.ok THEN LET x == Calc(st, c) IN [st EXCEPT !.outs = Upd(@, c.out, Kept(x, e.r.rows))] ELSE st
    [] c.op = "out_del" -> [st EXCEPT !.outs = Del(@, c.out)]
    [] IsQuery(c) -> [st EXCEPT !.learn = Upd(@, Key(st, st.ens[c.en], c, c.P), Answer(e))]
    [] OTHER -> BConf(st, c)
BExpect(st, e) ==
  LET c == e.c IN
  CASE c.op = "ba_calc" -> LET x == Calc(st, c) IN IF x.known /\ x.ok THEN [rows |-> [i \in DOMAIN x.cells |-> [k \in DOMAIN x.props |-> x.cells[i][k][1]]], tp |-> x.tp] ELSE x
    [] IsOut(c) -> IF c.out \in DOMAIN st.outs THEN [o |-> st.outs[c.out], can |-> <<CsvCan(st.outs[c.out]), TcsvCan(st.outs[c.out]), GridCan(st.outs[c.out])>>] ELSE "nothing"
    [] c.op = "ba_get" -> st.bas[c.ba]
    [] IsSetting(c) -> SettingOk(st.bas[c.ba], c)
    [] OTHER -> "accepted"
=============================================================================
