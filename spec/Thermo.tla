------------------------------- MODULE Thermo -------------------------------
(* What engines answer: the thermodynamic properties of substances and reactions as functions of their records.  The models
   of Models.tla give the values (of minerals, gases, aqueous species and reactions; those of water and of real gases are
   learned from the answers); the laws of thermodynamics relate answers at one and at neighbouring temperatures and pressures.

   state: engine -> [d: content (as Database), conv, prefs, ans: <<op, s, T, P, conv, prefs>> -> answer];
          learn: <<objects a query depends on, query, configuration>> -> answer
   Commands: th_new (en, items [kind, rec [, api]] [, eqs] [, way] [, water]), en_conv (apparent, water), en_prefs (gas, fallback, solvent),
   en_sub, en_rea, en_rfr, en_solv, en_elec (s, T, P > 0)
   focus: 1 definitions of U and A, log K and G; 2 reference state; 3 derivatives; 4 values of substances; 5 conventions;
          6 models follow from the record; 7 properties of the solvent; 8 equations of state of fluids; 12 substances from reactions; 13 values of reactions; 14 missing reference data, 15 messages outside of limits, 0 all *)
EXTENDS Models, Fluids, WaterTriple
Focus == Param("focus", 0)
On(f) == Focus = 0 \/ Focus = f
\* ---------------------------------------------------------------- engines
Api(o, a) == [o EXCEPT !.eos = Get(a, "eos", @), !.mT = Get(a, "mT", @), !.mP = Get(a, "mP", @), !.lowP = Get(a, "lowP", @), !.upP = Get(a, "upP", @)] @@ [vc |-> Get(a, "vc", <<>>), bm |-> Get(a, "bm", <<>>)]
RECURSIVE WithApi(_, _)
WithApi(d, items) ==
  IF items = <<>> THEN d
  ELSE LET i == Head(items) s == i.rec.symbol
       IN WithApi(IF i.kind = "su" /\ s \in DOMAIN d.su THEN [d EXCEPT !.su[s] = Api(@, Get(i, "api", NoFcn))] ELSE d, Tail(items))
\* a reaction may be asked for by its equation: then it has no records and is the sum over its reactants
RECURSIVE WithEqs(_, _)
WithEqs(d, eqs) == IF eqs = <<>> THEN d ELSE WithEqs(Put(d, "re", Object("re", [symbol |-> Head(eqs), equation |-> Head(eqs)]).o), Tail(eqs))
Content(c) == LET x == PutAll([Empty EXCEPT !.water = Get(c, "water", @)], c.items) IN [ok |-> x.ok, d |-> WithEqs(WithApi(x.d, c.items), Get(c, "eqs", <<>>))]
NoConv == [apparent |-> "BENSON_HELGESON", water |-> "GEOCHEMICAL"]
NoPrefs == [gas |-> FALSE, fallback |-> FALSE, solvent |-> "H2O@"]
Engine(d) == [d |-> d, conv |-> NoConv, prefs |-> NoPrefs, ans |-> NoFcn]
Over(r, s) == [x \in DOMAIN r |-> IF x \in DOMAIN s THEN s[x] ELSE r[x]]
Solvents(d) == {s \in DOMAIN d.su : REq(d.su[s].class, "3")}
IsSolvent(o) == REq(o.class, "3")
\* the preferred solvent or, if it is not there, the last one
SolventOf(E) == IF E.prefs.solvent \in DOMAIN E.d.su THEN E.prefs.solvent ELSE IF Solvents(E.d) = {} THEN "" ELSE CHOOSE s \in Solvents(E.d) : \A t \in Solvents(E.d) \ {s} : StrLt(t, s)
Configuration(E) == <<E.conv, E.prefs>>
QKey(E, op, s, T, P) == <<op, s, T, P, Configuration(E)>>
Asked(E, op, s, T, P) == LET k == <<op, s, T, P, Configuration(E)>> IN k \in DOMAIN E.ans /\ E.ans[k].ok
Ans(E, op, s, T, P) == E.ans[<<op, s, T, P, Configuration(E)>>].p
IsQuery(c) == c.op \in {"en_sub", "en_rea", "en_rfr", "en_solv", "en_elec"}
\* ---------------------------------------------------------------- kinds of substances
WaterEos == {206, 221, 222, 223}
NoMethods(o) == o.eos = 0 /\ o.mT = 0 /\ o.mP = 0
ByReaction(o) == o.calc = 1 \/ NoMethods(o) \/ (o.eos = 0 /\ o.mT = 0 /\ o.mP = 305)
Vapour(o) == o.eos = 101 /\ o.mP = 300
Coefficient(r, s) == Get(r.stoich, s, "0")
Others(r, s) == DOMAIN r.stoich \ {s}
\* ---------------------------------------------------------------- properties with unknown values ""
Names == {"G", "H", "S", "V", "Cp", "U", "A"}
Lift2(a, b, v) == IF a = "" \/ b = "" \/ a = "any" \/ b = "any" THEN "" ELSE v
AddK(p, q, k) == [n \in Names |-> IF p[n] \in {"", "any"} \/ q[n] \in {"", "any"} THEN "" ELSE p[n] (+) (k (.) q[n])]
DivK(p, k) == [n \in Names |-> IF p[n] \in {"", "any"} THEN "" ELSE p[n] (/) k]
Nought == [n \in Names |-> "0"]
Unknown == [n \in Names |-> ""]
Part(p) == [n \in Names |-> p[n]]
Val(p) == [k |-> "val", p |-> p]
Unsure == [k |-> "any", p |-> Unknown]
Err == [k |-> "err", p |-> Unknown]
FromAnswer(a) == [n \in Names |-> a[n][1]]
Reference(o) == [G |-> o.ref.G[1], H |-> o.ref.H[1], S |-> o.ref.S[1], V |-> o.ref.V[1], Cp |-> o.ref.Cp[1], U |-> "", A |-> ""]
\* ---------------------------------------------------------------- conventions
TripleT == "273.16"
Triple(E) == LET t == WaterTriple[E.d.water] IN [n \in DOMAIN t |-> t[n] (.) Cal]
\* in the steam tables energies and entropy of the liquid at the triple point are zero
SteamZero(E, T) == LET t == Triple(E) d == (T (-) TripleT) (.) t.S IN [t EXCEPT !.G = @ (-) d, !.A = @ (-) d]
Steam(E, o, T, p) ==
  IF IsSolvent(o) /\ E.conv.water = "STEAM_TABLES" THEN LET t == SteamZero(E, T) IN [n \in Names |-> IF n \in DOMAIN t /\ p[n] \notin {"", "any"} THEN p[n] (-) t[n] ELSE p[n]]
  ELSE IF ~IsSolvent(o) /\ E.conv.apparent = "BERMAN_BROWN" THEN [p EXCEPT !.G = IF @ = "" THEN "" ELSE @ (-) (o.Tr (.) FEntropy(E.d, o.formula))]
  ELSE p
ConvOk(E, o) == IsSolvent(o) \/ E.conv.apparent # "BERMAN_BROWN" \/ FormulaOk(E.d, o.formula)
\* ---------------------------------------------------------------- solvent properties needed by a model, from the answers
SolvKnown(E, T, P) == LET s == SolventOf(E) IN s # "" /\ Asked(E, "en_solv", s, T, P)
ElecKnown(E, T, P) == LET s == SolventOf(E) IN s # "" /\ Asked(E, "en_elec", s, T, P) /\ \A n \in {"Z", "Y", "Q", "X"} : RFin(Ans(E, "en_elec", s, T, P)[n][1])   \* one model has no derivatives at 0 C
SolvOf(E, T, P) == LET a == Ans(E, "en_solv", SolventOf(E), T, P) IN [density |-> a.rho[1], Alpha |-> a.alpha[1], Beta |-> a.beta[1], dAldT |-> a.dAldT[1]]
ElecOf(E, T, P) == LET a == Ans(E, "en_elec", SolventOf(E), T, P) IN [Z |-> a.Z[1], Y |-> a.Y[1], Q |-> a.Q[1], X |-> a.X[1]]
\* ---------------------------------------------------------------- substances that are calculated by models
RealGas == {311, 312, 313, 314, 315, 316, 317}
Model(E, s, o, T, P, gas) ==
  LET Pb == Bar(P)
      learned == IF gas # E.prefs.gas /\ o.mP \in RealGas THEN Unsure ELSE IF Asked(E, "en_sub", s, T, P) THEN Val(FromAnswer(Ans(E, "en_sub", s, T, P))) ELSE Unsure
      base == IF o.eos = 100 THEN (IF CptOk(o, T) THEN Val(Cpt(o, T)) ELSE Err)
              ELSE IF o.eos \in {101, 119}
              THEN IF ~HkfOk(o) THEN Err
                   ELSE IF SolventOf(E) = "" THEN Err
                   ELSE IF ~SolvKnown(E, T, P) \/ ~ElecKnown(E, T, P) THEN Unsure
                   ELSE Val(IF o.eos = 101 THEN HkfGems(o, T, Pb, SolvOf(E, T, P), ElecOf(E, T, P)) ELSE HkfReaktoro(o, T, Pb, SolvOf(E, T, P), ElecOf(E, T, P)))
              ELSE IF o.eos = 99 THEN Val(Reference(o))
              ELSE IF o.eos \in {122, 123} THEN Unsure
              ELSE Val(Zero)
      temp == IF base.k # "val" \/ o.eos = 99 THEN base
              ELSE IF o.mT = 201 THEN (IF LandauOk(o) THEN Val(Landau(o, T, Pb, base.p)) ELSE Err)
              ELSE IF o.mT = 200 /\ o.eos # 100 THEN Val(ConstCp(o, T))
              ELSE base
      pres == IF temp.k # "val" \/ o.eos = 99 THEN temp
              ELSE IF o.mP = 305 THEN Val(ConstV(o, T, Pb, temp.p))
              ELSE IF o.mP = 309 THEN Val(Murnaghan(o, T, Pb, temp.p))
              ELSE IF o.mP = 307 THEN (IF BermanOk(o) THEN Val(Berman(o, T, Pb, temp.p)) ELSE Err)
              ELSE IF o.mP = 300 THEN Val(IdealGas(o, T, Pb, temp.p, gas))
              ELSE IF o.mP \in RealGas \cup {308, 320} THEN Unsure
              ELSE temp
  IN IF IsSolvent(o) \/ Vapour(o)
     THEN IF o.eos = 99 THEN Val(Steam(E, o, T, Reference(o)))
          ELSE IF o.mT \in WaterEos THEN learned
          ELSE IF o.eos = 100 THEN (IF CptOk(o, T) THEN Val(Steam(E, o, T, Cpt(o, T))) ELSE Err)
          ELSE Val(Steam(E, o, T, Zero))
     ELSE IF ~ConvOk(E, o) THEN Err
     ELSE IF pres.k = "val" THEN Val(Steam(E, o, T, pres.p)) ELSE IF pres.k = "any" THEN learned ELSE Err
ConstVK(o, T, P, p) ==
  IF ~Given(o.ref.V) THEN p
  ELSE LET v == o.ref.V[1] d == v (.) (P (-) Bar(o.Pr)) H == IF p.H = "" THEN "" ELSE p.H (+) d iu == IF H = "" THEN "" ELSE H (-) (P (.) v)
       IN [p EXCEPT !.G = IF @ = "" THEN "" ELSE @ (+) d, !.H = H, !.V = v, !.U = iu, !.A = IF iu = "" \/ p.S = "" THEN "" ELSE iu (-) (T (.) p.S)]
WithK(p, T) == p @@ [logK |-> IF p.G = "" THEN "" ELSE RNeg(p.G (/) (RLn10 (.) T))]
\* ---------------------------------------------------------------- substances and reactions
RECURSIVE Sub(_, _, _, _, _, _), Rea(_, _, _, _, _, _), SumOver(_, _, _, _, _, _, _)
\* sum over the substances S of the reaction: [k, p]
SumOver(E, r, S, T, P, act, gas) ==
  IF S = {} THEN Val(Nought)
  ELSE LET s == CHOOSE x \in S : TRUE
           rest == SumOver(E, r, S \ {s}, T, P, act, gas)
           this == Sub(E, s, T, P, act, gas)
       IN IF rest.k = "err" \/ this.k = "err" THEN Err
          ELSE [k |-> IF rest.k = "any" \/ this.k = "any" THEN "any" ELSE "val", p |-> AddK(rest.p, this.p, r.stoich[s])]
Sub(E, s, T, P, act, gas) ==
  IF s \notin DOMAIN E.d.su THEN Err
  ELSE LET o == E.d.su[s] IN
  IF s = "H+" THEN Val(Nought)
  ELSE IF ~ByReaction(o) THEN Model(E, s, o, T, P, gas)
  ELSE IF s \in act THEN Err
  ELSE IF o.reaction = "" THEN (IF ConvOk(E, o) THEN Val(Steam(E, o, T, Reference(o))) ELSE Err)
  ELSE IF o.reaction \notin DOMAIN E.d.re THEN Err
  ELSE LET r == E.d.re[o.reaction]
           R == Rea(E, r, T, P, act \cup {s}, TRUE)
           rest == SumOver(E, r, Others(r, s), T, P, act \cup {s}, TRUE)
           k == Coefficient(r, s)
       IN IF R.k = "err" \/ rest.k = "err" THEN Err
          ELSE IF REq(k, "0") THEN Unsure
          ELSE LET p == DivK(AddK(Part(R.p), rest.p, "-1"), k)
                   q == IF o.mP = 305 /\ r.mP \in {0, 300} THEN ConstVK(o, T, Bar(P), p) ELSE p
               IN [k |-> IF R.k = "any" \/ rest.k = "any" THEN "any" ELSE "val", p |-> q]
\* reactions: [k, p] where p has also logK; gas: the pressure correction of gases
Rea(E, r, T, P, act, gas) ==
  LET Pb == Bar(P)
      mT == IF r.eos = 102 THEN 208 ELSE r.mT
      base == IF r.eos = 99 THEN Unsure
              ELSE IF mT = 208 THEN (IF LogKOk(r) THEN Val(LogKFun(r, T)) ELSE Err)
              ELSE IF mT \in {209, 210, 211, 212} THEN Val(Extrapolate(r, T, CASE mT = 209 -> "EK0" [] mT = 210 -> "EK1" [] mT = 211 -> "EK2" [] OTHER -> "EK3"))
              ELSE IF mT \in {224, 214, 216}
              THEN IF ~(CASE mT = 224 -> DmOk(r) [] mT = 214 -> FmOk(r) [] OTHER -> RbOk(r)) THEN Err
                   ELSE IF SolventOf(E) = "" THEN Err
                   ELSE IF ~SolvKnown(E, T, P) THEN Unsure
                   ELSE Val(CASE mT = 224 -> Dolejs(r, T, SolvOf(E, T, P)) [] mT = 214 -> Frantz(r, T, SolvOf(E, T, P)) [] OTHER -> Ryzhenko(r, T, SolvOf(E, T, P)))
              ELSE IF mT = 213 THEN Unsure
              ELSE Val(RZero)
  IN IF r.eos = 0 /\ r.mT = 0 /\ r.mP = 0
     THEN IF \E s \in DOMAIN r.stoich : s \in DOMAIN E.d.su /\ NoMethods(E.d.su[s]) /\ E.d.su[s].reaction = r.symbol THEN Err
          ELSE LET x == SumOver(E, r, DOMAIN r.stoich, T, P, act, TRUE) IN [x EXCEPT !.p = WithK(@, T)]
     ELSE IF base.k # "val" THEN base
     ELSE IF mT = 216 THEN Val(REnergies(base.p, T, Pb))
     ELSE IF r.mP = 305 THEN Val(RConst(r, T, Pb, base.p))
     ELSE IF r.mP = 306 THEN Unsure
     ELSE IF mT # 0 THEN Val(REnergies(base.p, T, Pb)) ELSE base
\* the sum over the reactants, whatever the model of the reaction is
Rfr(E, r, T, P) ==
  IF \E s \in DOMAIN r.stoich : s \in DOMAIN E.d.su /\ NoMethods(E.d.su[s]) /\ E.d.su[s].reaction = r.symbol THEN Err
  ELSE LET x == SumOver(E, r, DOMAIN r.stoich, T, P, {}, TRUE) IN [x EXCEPT !.p = WithK(@, T)]
\* ---------------------------------------------------------------- tolerances
Mag(x) == IF x \in {"", "any"} THEN "0" ELSE RAbs(x)
Scale(p, T, P) == Mag(p.G) (+) Mag(p.H) (+) (T (.) (Mag(p.S) (+) Mag(p.Cp))) (+) (Bar(P) (.) Mag(p.V)) (+) "1"
\* the answer a agrees with the properties p
Wrong1(p, a, T, P, tol) ==
  LET s == Scale(p, T, P) e == (s (+) "100") (.) tol IN   \* (large terms may cancel)
  {n \in DOMAIN p : p[n] \notin {"", "any"} /\ ~((n \in {"U", "A"} /\ a[n][5] = 0)
     \/ RClose(a[n][1], p[n], "1e-9", CASE n \in {"S", "Cp"} -> e (/) T [] n = "V" -> "1e-9" [] n = "logK" -> e (/) (RLn10 (.) T) [] OTHER -> e))}
Differs(p, a, T, P) == Wrong1(p, a, T, P, "1e-8")
\* what is expected of a query
Expected(E, c) ==
  IF c.op = "en_sub" THEN Sub(E, c.s, c.T, c.P, {}, E.prefs.gas)
  ELSE IF c.op \in {"en_rea", "en_rfr"} THEN
    IF c.s \notin DOMAIN E.d.re THEN Err
    ELSE IF c.op = "en_rea" THEN Rea(E, E.d.re[c.s], c.T, c.P, {}, TRUE) ELSE Rfr(E, E.d.re[c.s], c.T, c.P)
  ELSE Unsure
Learnt(E, c) == c.op = "en_sub" /\ c.s \in DOMAIN E.d.su /\ ~ByReaction(E.d.su[c.s]) /\ Model([E EXCEPT !.ans = NoFcn], c.s, E.d.su[c.s], c.T, c.P, E.prefs.gas).k = "any"
ValuesOk(E, c, e) ==
  E.prefs.fallback \/
  LET x == Expected(E, c) IN
  /\ (x.k = "err" => ~e.ok)
  /\ (x.k = "val" => (e.ok /\ Differs(x.p, e.r.p, c.T, c.P) = {}))
  /\ (e.ok /\ c.op # "en_sub") => RClose(e.r.p.logK[1], e.r.p.lnK[1] (/) Ln10, "1e-8", "1e-12")
\* ---------------------------------------------------------------- 1: definitions of U and A, log K and G
\* offsets of U - (H - P V) and of A - (U - T S) of a substance: those of water come from its triple point
\* one model takes 273.15 K for the temperature of the triple point
Offsets(E, o) == LET t == Triple(E) dT == IF o.mT = 221 THEN "0.01" ELSE "0" a == RNeg(dT (.) t.S)
                 IN IF IsSolvent(o) /\ E.conv.water = "STEAM_TABLES" THEN [U |-> "0", A |-> a]
                    ELSE [U |-> t.U (-) t.H, A |-> (TripleT (.) t.S) (+) (t.A (-) t.U) (+) a]
NoOff == [U |-> "0", A |-> "0"]
RECURSIVE Off(_, _, _), OffR(_, _, _), OffSum(_, _, _, _)
OffSum(E, r, S, act) ==
  IF S = {} THEN [ok |-> TRUE, o |-> NoOff]
  ELSE LET s == CHOOSE x \in S : TRUE a == OffSum(E, r, S \ {s}, act) b == Off(E, s, act)
       IN [ok |-> a.ok /\ b.ok, o |-> [n \in {"U", "A"} |-> a.o[n] (+) (r.stoich[s] (.) b.o[n])]]
OffR(E, r, act) == IF r.eos = 0 /\ r.mT = 0 /\ r.mP = 0 THEN OffSum(E, r, DOMAIN r.stoich, act) ELSE [ok |-> r.mT # 213 /\ r.mP # 306 /\ (r.mT # 0 \/ r.mP = 305 \/ r.eos = 102), o |-> NoOff]
Off(E, s, act) ==
  LET o == E.d.su[s] IN
  IF s \notin DOMAIN E.d.su THEN [ok |-> FALSE, o |-> NoOff]
  ELSE IF s = "H+" THEN [ok |-> TRUE, o |-> NoOff]
  ELSE IF ~ByReaction(o)
  THEN IF (IsSolvent(o) \/ Vapour(o)) /\ o.mT \in {206, 221, 222} THEN [ok |-> TRUE, o |-> Offsets(E, o)]
       ELSE IF IsSolvent(o) \/ Vapour(o) THEN [ok |-> FALSE, o |-> NoOff]
       \* U and A are calculated together with the pressure dependence
       ELSE [ok |-> \/ o.eos \in {101, 119} \/ o.mP \in {308, 309} \/ (o.mP = 305 /\ Given(o.ref.V)), o |-> NoOff]
  ELSE IF s \in act \/ o.reaction \notin DOMAIN E.d.re THEN [ok |-> FALSE, o |-> NoOff]
  ELSE LET r == E.d.re[o.reaction] a == OffR(E, r, act \cup {s}) b == OffSum(E, r, Others(r, s), act \cup {s}) k == Coefficient(r, s)
       IN IF o.mP = 305 /\ r.mP \in {0, 300} /\ Given(o.ref.V) THEN [ok |-> TRUE, o |-> NoOff]
          ELSE IF REq(k, "0") THEN [ok |-> FALSE, o |-> NoOff]
          ELSE [ok |-> a.ok /\ b.ok, o |-> [n \in {"U", "A"} |-> (a.o[n] (-) b.o[n]) (/) k]]
\* U of a reaction or of a substance from a reaction is a sum of large terms: tolerance by the sizes of all terms
\* one model of water finds the density by iteration: its pressure is that of the question to 5 digits
Iterates(E) == \E s \in DOMAIN E.d.su : E.d.su[s].mT = 206
UAOk(E, o, a, T, P, more) ==
  LET p == FromAnswer(a) tol == ((Scale(p, T, P) (+) more) (.) "1e-9") (+) (Bar(P) (.) (Mag(p.V) (+) (IF more = "0" THEN "0" ELSE "40")) (.) "2e-6") (+) (IF Iterates(E) THEN Bar(P) (.) "2e-4" ELSE "0") IN
  /\ (a.U[5] # 0 => RClose(p.U, (p.H (-) (Bar(P) (.) p.V)) (+) o.U, "1e-9", tol))
  /\ (a.U[5] # 0 /\ a.A[5] # 0 => RClose(p.A, (p.U (-) (T (.) p.S)) (+) o.A, "1e-9", tol))
More(E, c) == IF c.op = "en_sub" /\ ~ByReaction(E.d.su[c.s]) THEN "0" ELSE "1e7"
DefinitionsOk(E, c, e) ==
  e.ok =>
  LET a == e.r.p x == IF c.op = "en_sub" THEN Off(E, c.s, {}) ELSE IF c.op = "en_rea" THEN OffR(E, E.d.re[c.s], {}) ELSE OffSum(E, E.d.re[c.s], DOMAIN E.d.re[c.s].stoich, {}) IN
  /\ ((x.ok /\ ~(Iterates(E) /\ RLt(c.T, "273.17"))) => UAOk(E, x.o, a, c.T, c.P, More(E, c)))
  /\ (c.op \in {"en_rea", "en_rfr"} =>
        LET r == E.d.re[c.s] k == a.lnK[1] IN
        /\ RClose(a.logK[1], k (/) Ln10, "1e-8", "1e-12")
        /\ ((c.op = "en_rfr" \/ (r.eos = 0 /\ r.mT = 0 /\ r.mP = 0) \/ (r.mT \in {208, 209, 210, 211, 212, 214, 216, 224} /\ (r.mP = 0 \/ (r.mP = 305 /\ Given(r.ref.V)))))
             => RClose(a.G[1], RNeg(RGas (.) c.T (.) k), "1e-7", ((Scale([FromAnswer(a) EXCEPT !.U = ""], c.T, c.P) (+) "1e3") (.) "1e-8"))))
\* ---------------------------------------------------------------- 2: reference state
StandardOk(E, c, e) ==
  (e.ok /\ c.op = "en_sub" /\ E.conv = NoConv /\ ~E.prefs.fallback) =>
  LET o == E.d.su[c.s] a == e.r.p IN
  (~ByReaction(o) /\ ~IsSolvent(o) /\ ~Vapour(o) /\ c.s # "H+" /\ REq(c.T, o.Tr) /\ REq(c.P, o.Pr) /\ (o.eos = 100 \/ (o.eos = 0 /\ o.mT = 200)) /\ o.mT \in {0, 200} /\ o.mP \in {0, 305, 307, 308, 309, 300}
    /\ (o.eos = 100 => Interval(o, c.T) = 1)) =>
  /\ \A n \in {"G", "H", "S"} : Given(o.ref[n]) => RClose(a[n][1], o.ref[n][1], "1e-10", "1e-7")
  /\ (o.eos # 100 /\ Given(o.ref.Cp)) => RClose(a.Cp[1], o.ref.Cp[1], "1e-10", "1e-7")
  /\ (o.mP \in {305, 307, 308, 309} /\ Given(o.ref.V)) => RClose(a.V[1], o.ref.V[1], "1e-9", "1e-9")
\* ---------------------------------------------------------------- 3: derivatives: GT dG/dT = -S, HT dH/dT = Cp, ST T dS/dT = Cp, GP dG/dP = V
AllLaws == {"GT", "HT", "ST", "GP"}
\* one dielectric model is not smooth near 0 C
Singular(E, T) == REq(T, "273.15") /\ \E s \in Solvents(E.d) : E.d.su[s].eos = 120
Rough(E, T) == \E s \in Solvents(E.d) : E.d.su[s].eos = 120 /\ RLt(T, "283.15")
\* exactly at the reference state a model may be left out
AtReference(o, T0, T1, P) == RLe(T0, o.Tr) /\ RLe(o.Tr, T1) /\ REq(P, Bar(o.Pr))
Mid(a, b) == (a (+) b) (/) "2"
RECURSIVE Laws(_, _, _, _, _, _, _), LawsSum(_, _, _, _, _, _, _)
LawsSum(E, r, S, T0, T1, P, act) == IF S = {} THEN AllLaws ELSE LET s == CHOOSE x \in S : TRUE IN LawsSum(E, r, S \ {s}, T0, T1, P, act) \cap Laws(E, s, T0, T1, P, act, TRUE)
LawsR(E, r, T0, T1, P, act) ==
  IF r.eos = 0 /\ r.mT = 0 /\ r.mP = 0 THEN LawsSum(E, r, DOMAIN r.stoich, T0, T1, P, act)
  ELSE IF r.mT = 213 \/ r.mP = 306 THEN {}
  ELSE IF (r.mT = 208 \/ r.eos = 102) /\ Len(r.logk) > 0 /\ Len(r.cp) > 0 THEN {"GT"}      \* Cp has coefficients of its own
  ELSE IF r.mT = 0 /\ r.eos # 102 THEN {}
  ELSE IF r.mP = 305 /\ r.mT \in {214, 224} THEN {}                                       \* the pressure is counted twice
  ELSE {"GT", "HT", "ST"} \cup (IF r.mT \in {214, 216, 224} \/ r.mP = 305 THEN {"GP"} ELSE {})
Laws(E, s, T0, T1, P, act, gas) ==
  IF s \notin DOMAIN E.d.su THEN {}
  ELSE IF s = "H+" THEN AllLaws
  ELSE LET o == E.d.su[s] IN
  IF ByReaction(o) THEN
    IF s \in act \/ o.reaction \notin DOMAIN E.d.re THEN {}
    ELSE LET r == E.d.re[o.reaction] IN (LawsR(E, r, T0, T1, P, act \cup {s}) \cap LawsSum(E, r, Others(r, s), T0, T1, P, act \cup {s})) \ (IF o.mP = 305 THEN {"GP"} ELSE {})
  ELSE IF IsSolvent(o) \/ Vapour(o) THEN (IF o.mT \in WaterEos \ {223} THEN AllLaws ELSE {})
  ELSE IF o.eos \in {101, 119} THEN (IF Rough(E, T0) THEN {} ELSE AllLaws)
  ELSE IF o.eos = 100 /\ (~CptOk(o, T0) \/ Interval(o, T0) # Interval(o, T1)) THEN {}
  ELSE IF ~(o.eos = 100 \/ (o.eos = 0 /\ o.mT = 200 /\ Given(o.ref.S))) THEN {}
  ELSE IF o.mT = 201 /\ (~LandauOk(o) \/ RLt(RAbs(LandauT(o, P) (-) Mid(T0, T1)), "40" (.) (T1 (-) T0))) THEN {}      \* Cp grows without bound at the transition
  ELSE CASE o.mT \notin {0, 200, 201} -> {}
         [] o.mT = 201 /\ o.mP \in {0, 305} /\ RLt("1000", P) -> {"GT"} \cup (IF o.mP = 0 THEN {"GP"} ELSE {})      \* Cp misses the change of the excess volume
         [] o.mP = 305 -> {"GT", "HT", "ST"} \cup (IF Given(o.ref.V) /\ o.mT # 201 THEN {"GP"} ELSE {})
         [] o.mP = 309 -> {"GT"} \cup (IF Len(o.ph) = 0 /\ ~(o.mT = 201 /\ (AtReference(o, T0, T1, P) \/ ~Elastic(o))) THEN {"GP"} ELSE {})
         [] o.mP = 307 -> AllLaws
         [] o.mP = 308 -> {"GT"} \cup (IF Len(o.ph) = 0 THEN {"GP"} ELSE {})
         [] o.mP = 0 -> {"GT", "HT", "ST"} \cup (IF o.mT = 201 THEN {"GP"} ELSE {})
         [] o.mP = 300 -> IF gas THEN {"ST"} ELSE {"GT", "HT", "ST"}
         [] OTHER -> {}
LawsOf(E, c) ==
  LET T0 == c.T (-) c.h T1 == c.T (+) c.h IN
  IF c.op = "en_sub" THEN Laws(E, c.s, T0, T1, Bar(c.P), {}, E.prefs.gas)
  ELSE IF c.op = "en_rea" THEN LawsR(E, E.d.re[c.s], T0, T1, Bar(c.P), {})
  ELSE LawsSum(E, E.d.re[c.s], DOMAIN E.d.re[c.s].stoich, T0, T1, Bar(c.P), {})
Neighbours(c) == <<[T |-> c.T (-) c.h, P |-> c.P], [T |-> c.T (+) c.h, P |-> c.P], [T |-> c.T, P |-> c.P (-) c.hp], [T |-> c.T, P |-> c.P (+) c.hp]>>
DTol == "1e-3"
Noise == "3e-9"
LawTable(E, c, a) ==
  LET n == Neighbours(c)
      At1(i, x) == Ans(E, c.op, c.s, n[i].T, n[i].P)[x][1]
      Slope(x, i, j, h) == (At1(j, x) (-) At1(i, x)) (/) ("2" (.) h)
      p == FromAnswer(a)
      big == IF c.op = "en_sub" /\ ~ByReaction(E.d.su[c.s]) THEN "0" ELSE "1e6"
      noise == (Scale(p, c.T, c.P) (+) big) (.) Noise (.) (IF Iterates(E) THEN "20" ELSE "1")
      \* heat capacities near zero
      curved == IF big = "0" THEN "0.02" ELSE "0.1"
      law(x) == CASE x = "GT" -> [l |-> Slope("G", 1, 2, c.h), r |-> RNeg(p.S), tol |-> ("3" (.) ((DTol (.) Mag(p.Cp)) (+) curved) (.) (c.h (/) c.T)) (+) (noise (/) c.h)]
                  [] x = "HT" -> [l |-> Slope("H", 1, 2, c.h), r |-> p.Cp, tol |-> curved (+) (noise (/) c.h)]
                  [] x = "ST" -> [l |-> c.T (.) Slope("S", 1, 2, c.h), r |-> p.Cp, tol |-> curved (+) (noise (/) c.h)]
                  [] x = "GP" -> [l |-> Slope("G", 3, 4, Bar(c.hp)), r |-> p.V, tol |-> noise (/) Bar(c.hp)]
  IN [x \in LawsOf(E, c) |-> law(x)]
BrokenLaw(x, y) == ~RClose(y.l, y.r, IF x = "GT" THEN "1e-4" ELSE DTol, y.tol)
Broken(E, c, a) == LET t == LawTable(E, c, a) IN {x \in DOMAIN t : BrokenLaw(x, t[x])}
DerivativesOk(E, c, e) ==
  (e.ok /\ Has(c, "h") /\ ~E.prefs.fallback /\ \A i \in 1..4 : Asked(E, c.op, c.s, Neighbours(c)[i].T, Neighbours(c)[i].P)) => Broken(E, c, e.r.p) = {}
\* ---------------------------------------------------------------- 7: properties of the solvent are derivatives of each other
\* <<property, of, over, unit>>: property = unit * change of "of" over T or P
RhoLaws(o) == {<<"rhoT", "rho", "T", "1">>, <<"rhoTT", "rhoT", "T", "1">>, <<"rhoP", "rho", "P", "1">>, <<"dAldT", "alpha", "T", "1">>}
              \cup (IF o.mT \in {221, 222} THEN {<<"rhoTP", "rhoT", "P", "1">>, <<"rhoTP", "rhoP", "T", "1">>, <<"rhoPP", "rhoP", "P", "1">>} ELSE {})
\* all but one of the dielectric models have pressure derivatives of the dielectric constant by bar
EpsLaws(o, P) ==
  LET u == IF o.eos = 117 THEN "1" ELSE "1e5" IN
  {<<"epsT", "eps", "T", "1">>, <<"epsP", "eps", "P", u>>, <<"Y", "Z", "T", "1">>, <<"Q", "Z", "P", "1">>}
  \* second derivatives need a density without noise
  \cup (IF o.mT = 206 /\ o.eos \in {120, 121} THEN {} ELSE {<<"epsTT", "epsT", "T", "1">>, <<"X", "Y", "T", "1">>})
  \cup (IF o.eos \in {120, 121} /\ o.mT \in {221, 222} /\ RLe("1e8", P) THEN {<<"epsPP", "epsP", "P", u>>} ELSE {})
  \cup (IF o.eos = 117 /\ o.mT \in {221, 222} THEN {<<"epsTP", "epsT", "P", "1">>, <<"epsTP", "epsP", "T", "1">>, <<"epsPP", "epsP", "P", "1">>, <<"N", "Q", "P", "1">>, <<"U", "Q", "T", "1">>} ELSE {})
SolvLaws(E, c) ==
  LET o == E.d.su[c.s] IN
  IF o.mT \notin WaterEos \/ o.eos \notin {117, 118, 120, 121} \/ (o.mT = 223 /\ RLt(c.P, "1e8")) THEN {}
  ELSE IF c.op = "en_solv" THEN RhoLaws(o) ELSE IF o.eos = 120 /\ RLt(c.T, "283.15") THEN {} ELSE EpsLaws(o, c.P)
SlopeOf(E, c, law) ==
  LET n == Neighbours(c) i == IF law[3] = "T" THEN 1 ELSE 3 h == IF law[3] = "T" THEN c.h ELSE c.hp
      at(j) == Ans(E, c.op, c.s, n[j].T, n[j].P)[law[2]][1]
  IN law[4] (.) ((at(i + 1) (-) at(i)) (/) ("2" (.) h))
SlopeTol(E, c, a, law) ==
  LET b == RAbs(a[law[2]][1]) h == IF law[3] = "T" THEN c.h ELSE c.hp x == IF law[3] = "T" THEN c.T ELSE c.P
  IN law[4] (.) b (.) (((IF E.d.su[c.s].mT = 206 THEN "3e-7" ELSE "2e-9") (/) h) (+) ("5e-4" (/) x))
BrokenSolv(E, c, a) == {law \in SolvLaws(E, c) : ~RClose(SlopeOf(E, c, law), a[law[1]][1], "3e-3", SlopeTol(E, c, a, law))}
\* definitions at one temperature and pressure; the molar mass of water in one of the models has less digits
SolvDefs(E, c, a) ==
  /\ (c.op = "en_solv" /\ E.d.su[c.s].mT \in WaterEos) =>
        /\ RClose(a.alpha[1] (.) a.rho[1], RNeg(a.rhoT[1]), "1e-9", "1e-15")
        /\ RClose(a.beta[1] (.) a.rho[1], a.rhoP[1], "1e-9", "1e-20")
        /\ (Asked(E, "en_sub", c.s, c.T, c.P) => RClose(Ans(E, "en_sub", c.s, c.T, c.P).V[1] (.) a.rho[1], "1801.5268", "1e-4", "0"))
  /\ ((c.op = "en_elec" /\ E.d.su[c.s].eos \in {117, 118, 120, 121}) => RClose(a.Z[1] (.) a.eps[1], "-1", "1e-9", "0"))
SolventOk(E, c, e) ==
  (e.ok /\ c.op \in {"en_solv", "en_elec"} /\ c.s \in DOMAIN E.d.su) =>
  /\ SolvDefs(E, c, e.r.p)
  /\ ((Has(c, "h") /\ \A i \in 1..4 : Asked(E, c.op, c.s, Neighbours(c)[i].T, Neighbours(c)[i].P)) => BrokenSolv(E, c, e.r.p) = {})
\* ---------------------------------------------------------------- 8: equations of state of water and gases, dielectric constant
\* the answered volume (density) is the witness: the equation of state has the asked pressure there, and the other properties follow
WaterOf(m) == m \in {206, 221, 222}
DensityTol(m) == IF m = 206 THEN "1e-4" ELSE "1e-6"
PresOf(m, T, rho) == IF m = 222 THEN Pres(WpA, T, rho) ELSE Pres(HgkA, T, rho)
PresRhoOf(m, T, rho) == IF m = 222 THEN PresRho(WpA, T, rho) ELSE PresRho(HgkA, T, rho)
DensityOk(m, T, P, rho) ==
  IF m = 223 THEN LET V == "1801.5268" (/) rho f(v) == ZdP(T, v) IN RClose(ZdP(T, V), P, "0", RAbs("1e-6" (.) V (.) Deriv(f, V)))
  ELSE LET k == PresRhoOf(m, T, rho) IN
       /\ RLt("0", k)
       /\ RClose(PresOf(m, T, rho), P, "0", DensityTol(m) (.) rho (.) k)
       /\ (RLt(T, "647.096") => RLt("322", rho))
\* energies of water at the triple point are those of the convention
WaterExpect(E, o, T, P, V) ==
  LET rho == "1801.5268" (/) V
      w == IF o.mT = 222 THEN WaterProps(WpA, T, P, V, rho) ELSE WaterProps(HgkA, T, P, V, rho)
      t == Triple(E) T0 == IF o.mT = 221 THEN "273.15" ELSE "273.16"
      S == w.S (+) t.S
      less == (T0 (.) t.S) (-) (T (.) S)
  IN Steam(E, o, T, [G |-> (w.H (+) less) (+) t.G, H |-> w.H (+) t.H, S |-> S, V |-> V, Cp |-> w.Cp, U |-> w.U (+) t.U, A |-> (w.U (+) less) (+) t.A])
Crit(o) == [i \in 1..6 |-> IF i <= Len(o.crit) THEN o.crit[i] ELSE "0"]
GasCubic == {312, 314, 316}
\* [ok] the volume solves the equation of state; [dep] departures
GasState(o, T, P, V) ==
  LET m == o.mP w == (Rg (.) T) (/) P
      c == IF m = 312 /\ RLe(Crit(o)[1], T) THEN [Crit(o) EXCEPT ![4] = "0", ![5] = "0", ![6] = "0"] ELSE Crit(o) IN
  IF m \in GasCubic THEN
    LET F(t, v) == CubicF(m, c, t, v) f(v) == CubicP(m, c, T, v) b == CubicB(m, c) IN
    IF ~RLt(b, V) THEN [ok |-> FALSE]
    ELSE LET l == LnPhi(F, T, P, V) IN
         [ok |-> /\ RClose(CubicP(m, c, T, V), P, "1e-9", (RAbs(Deriv(f, V)) (.) ("1e-7" (.) (w (+) V))) (+) ("1e-10" (.) ((Rg (.) T) (/) (V (-) b))))
                 /\ \A v \in CubicOther(m, c, T, P, V) : RLe(l, LnPhi(F, T, P, v) (+) "1e-5"),
          dep |-> Departure(F, T, P, V)]
  ELSE IF m = 315 THEN
    LET F(t, v) == StpF(o.formula, t, v) f(v) == GasPressure(F, T, v) IN
    [ok |-> RClose(GasPressure(F, T, V), P, "1e-8", RAbs(Deriv(f, V)) (.) V (.) "1e-9"), dep |-> Departure(F, T, P, V)]
  ELSE IF o.formula \in {"H2O", "CO2"} THEN
    LET h == o.formula v0 == V (-) CorkVirial(h, T, P) b == CorkB(h)
        sub == h = "H2O" /\ RLe(T, "695") liquid == sub /\ RLe(CorkPsat(T), P)
        F(t, v) == CorkF(h, t, v, liquid) f(v) == GasPressure(F, T, v)
    IN IF ~RLt(b, v0) THEN [ok |-> FALSE]
       ELSE [ok |-> RClose(GasPressure(F, T, v0), P, "1e-9", (RAbs(Deriv(f, v0)) (.) ("1e-7" (.) (w (+) v0))) (+) ("1e-10" (.) ((Rg (.) T) (/) (v0 (-) b)))),
             dep |-> IF liquid \/ RLt(CorkP0(h), P) THEN [H |-> "", S |-> ""] ELSE Departure(F, T, P, V)]
  ELSE
    LET f(p) == CorkMu(c, T, p) g(t) == CorkMu(c, t, P) s == RNeg(Deriv(g, T)) IN
    [ok |-> RClose(Deriv(f, P), V, "1e-9", "1e-12"), dep |-> [H |-> f(P) (+) (T (.) s), S |-> s (+) (Rg (.) RLn(P))]]
GasInRange(o, T, P) == RLe(o.tint[1][1], T) /\ RLe(T, IF o.mP = 315 THEN "2000" ELSE "9999") /\ (o.mP = 315 => RLe("200", T)) /\ RLe("1e-5", P) /\ RLt(P, "1e5")
GasExpect(E, o, T, P, V, dep) ==
  LET p == Cpt(o, T)
      x == IF E.prefs.gas THEN V (.) (P (-) Bar(o.Pr)) ELSE "0"
      q == [n \in Names |-> CASE n = "V" -> V [] n = "G" -> p.G (+) x [] n = "Cp" -> p.Cp
                              [] n = "H" -> IF dep.H = "" THEN "" ELSE p.H (+) dep.H (+) x [] n = "S" -> IF dep.S = "" THEN "" ELSE p.S (+) dep.S [] OTHER -> ""]
  IN Steam(E, o, T, q)
\* (the vapour pressure of CORK is negative below 250 K)
GasKnown(o) == o.mP \in RealGas \ {311} /\ o.eos = 100 /\ o.mT = 0 /\ ~ByReaction(o) /\ ~IsSolvent(o)
GasOk(E, c, e) ==
  LET o == E.d.su[c.s] T == c.T P == Bar(c.P) IN
  IF Len(o.crit) = 0 \/ Len(o.tint) = 0 \/ Len(o.tint[1]) = 0 \/ ~CptOk(o, T) \/ (o.mP = 315 /\ o.formula \notin {"H2O", "CO2"}) THEN ~e.ok
  ELSE e.ok /\ LET V == e.r.p.V[1] IN
       IF ~GasInRange(o, T, P) THEN RClose(V, (Rg (.) T) (/) P, "1e-12", "0") /\ Wrong1(GasExpect(E, o, T, P, V, [H |-> "0", S |-> "0"]), e.r.p, T, c.P, "1e-9") = {}
       ELSE IF o.mP = 313 THEN RLt("0", V)
       ELSE LET g == GasState(o, T, P, V) IN g.ok /\ Wrong1(GasExpect(E, o, T, P, V, g.dep), e.r.p, T, c.P, "1e-8") = {}
EpsOf(m, T, rho) == CASE m = 117 -> EpsJN91(T, rho) [] m = 120 -> EpsS14(T, rho) [] OTHER -> EpsF97(T, rho)
FluidOk(E, c, e) ==
  c.s \in DOMAIN E.d.su /\ ~E.prefs.fallback /\ ConvOk(E, E.d.su[c.s]) =>
  LET o == E.d.su[c.s] P == Bar(c.P) IN
  IF IsSolvent(o) /\ o.mT \in WaterEos /\ c.op = "en_sub" /\ e.ok
  THEN LET V == e.r.p.V[1] IN
       (o.mT = 206 /\ RLt(c.T, "273.16"))       \* taken as 273.16 K
       \/
       /\ DensityOk(o.mT, c.T, P, "1801.5268" (/) V)
       /\ (o.mT # 223 => Wrong1(WaterExpect(E, o, c.T, P, V), e.r.p, c.T, c.P, IF o.mT = 222 THEN "1e-8" ELSE IF o.mT = 221 THEN "1e-7" ELSE IF E.conv.water = "STEAM_TABLES" THEN "4e-5" ELSE "3e-6") = {})
  ELSE IF IsSolvent(o) /\ o.mT \in WaterEos /\ c.op = "en_solv" /\ e.ok THEN DensityOk(o.mT, c.T, P, e.r.p.rho[1])
  ELSE IF IsSolvent(o) /\ o.eos \in {117, 118, 120, 121} /\ c.op = "en_elec" /\ e.ok /\ Asked(E, "en_solv", c.s, c.T, c.P)
  THEN o.eos = 118 \/ (o.eos = 120 /\ RLe(c.T, "273.15")) \/ RClose(e.r.p.eps[1], EpsOf(o.eos, c.T, Ans(E, "en_solv", c.s, c.T, c.P).rho[1]), "1e-6", "0")
  ELSE IF c.op = "en_sub" /\ GasKnown(o) /\ ~(o.mP = 317 /\ o.formula = "H2O" /\ RLt(c.T, "250")) THEN GasOk(E, c, e)
  ELSE TRUE
FluidView(E, c, e) ==
  IF c.s \notin DOMAIN E.d.su \/ ~e.ok THEN "error" ELSE
  LET o == E.d.su[c.s] P == Bar(c.P) p == e.r.p IN
  IF c.op = "en_sub" /\ IsSolvent(o) /\ o.mT \in {206, 221, 222} THEN
    [P |-> PresOf(o.mT, c.T, "1801.5268" (/) p.V[1]), asked |-> P, expected |-> WaterExpect(E, o, c.T, P, p.V[1]), wrong |-> Wrong1(WaterExpect(E, o, c.T, P, p.V[1]), p, c.T, c.P, "1e-8")]
  ELSE IF c.op = "en_sub" /\ IsSolvent(o) /\ o.mT = 223 THEN [P |-> ZdP(c.T, p.V[1]), asked |-> P]
  ELSE IF c.op = "en_solv" THEN [P |-> IF o.mT = 223 THEN ZdP(c.T, "1801.5268" (/) p.rho[1]) ELSE PresOf(o.mT, c.T, p.rho[1]), asked |-> P]
  ELSE IF c.op = "en_elec" THEN (IF Asked(E, "en_solv", c.s, c.T, c.P) THEN [eps |-> EpsOf(o.eos, c.T, Ans(E, "en_solv", c.s, c.T, c.P).rho[1])] ELSE "")
  ELSE IF GasKnown(o) /\ Len(o.crit) > 0 /\ GasInRange(o, c.T, P) /\ o.mP # 313 THEN
    LET g == GasState(o, c.T, P, p.V[1]) IN [solves |-> g.ok, dep |-> IF Has(g, "dep") THEN g.dep ELSE "", expected |-> IF Has(g, "dep") THEN GasExpect(E, o, c.T, P, p.V[1], g.dep) ELSE ""]
  ELSE ""
\* ---------------------------------------------------------------- 5: conventions shift G, H, S, U and A
RECURSIVE Shift(_, _, _, _), ShiftR(_, _, _, _), ShiftSum(_, _, _, _, _)
NoShift == [ok |-> TRUE, p |-> Nought]
ShiftSum(E, r, S, T, act) ==
  IF S = {} THEN NoShift
  ELSE LET s == CHOOSE x \in S : TRUE a == ShiftSum(E, r, S \ {s}, T, act) b == Shift(E, s, T, act) IN [ok |-> a.ok /\ b.ok, p |-> AddK(a.p, b.p, r.stoich[s])]
ShiftR(E, r, T, act) == IF r.eos = 0 /\ r.mT = 0 /\ r.mP = 0 THEN ShiftSum(E, r, DOMAIN r.stoich, T, act) ELSE NoShift
Shift(E, s, T, act) ==
  IF s \notin DOMAIN E.d.su THEN [NoShift EXCEPT !.ok = FALSE]
  ELSE IF s = "H+" THEN NoShift
  ELSE LET o == E.d.su[s] IN
  IF ~ByReaction(o) \/ o.reaction = "" THEN (IF ConvOk(E, o) THEN [ok |-> TRUE, p |-> Steam(E, o, T, Nought)] ELSE [NoShift EXCEPT !.ok = FALSE])
  ELSE IF s \in act \/ o.reaction \notin DOMAIN E.d.re THEN [NoShift EXCEPT !.ok = FALSE]
  ELSE LET r == E.d.re[o.reaction] a == ShiftR(E, r, T, act \cup {s}) b == ShiftSum(E, r, Others(r, s), T, act \cup {s}) k == Coefficient(r, s) IN
       IF ~a.ok \/ ~b.ok \/ REq(k, "0") THEN [NoShift EXCEPT !.ok = FALSE]
       ELSE LET p == DivK(AddK(a.p, b.p, "-1"), k) IN
            [ok |-> TRUE, p |-> IF o.mP = 305 /\ r.mP \in {0, 300} /\ Given(o.ref.V) THEN [p EXCEPT !.U = p.H, !.A = p.H (-) (T (.) p.S)] ELSE p]
ShiftOf(E, c) == IF c.op = "en_sub" THEN Shift(E, c.s, c.T, {}) ELSE IF c.op = "en_rea" THEN ShiftR(E, E.d.re[c.s], c.T, {}) ELSE ShiftSum(E, E.d.re[c.s], DOMAIN E.d.re[c.s].stoich, c.T, {})
Plain(E) == [E EXCEPT !.conv = NoConv]
ConventionsOk(E, c, e) ==
  LET F == Plain(E) IN
  (E.conv # NoConv /\ ~E.prefs.fallback /\ <<c.op, c.s, c.T, c.P, Configuration(F)>> \in DOMAIN E.ans) =>
  LET b == E.ans[<<c.op, c.s, c.T, c.P, Configuration(F)>>] x == ShiftOf(E, c)
  IN IF ~x.ok THEN (e.ok => b.ok)
     ELSE /\ e.ok = b.ok
          /\ (e.ok => LET p == FromAnswer(b.p) q == AddK(p, x.p, "1") IN Wrong1([n \in Names |-> IF b.p[n][5] = 0 THEN "" ELSE q[n]], e.r.p, c.T, c.P, "1e-9") = {})
\* ---------------------------------------------------------------- 6: only the records a query depends on matter
RECURSIVE Reach(_, _, _)
Aqueous == {101, 119, 122, 123}
Uses(E, x) ==
  LET o == IF x[1] = "su" THEN E.d.su[x[2]] ELSE E.d.re[x[2]]
      s == SolventOf(E)
      w == IF s = "" THEN {} ELSE {<<"su", s>>}
  IN {y \in (IF x[1] = "su" THEN (IF ByReaction(o) /\ o.reaction # "" THEN {<<"re", o.reaction>>} ELSE {}) \cup (IF o.eos \in Aqueous \/ o.mP = 320 THEN w ELSE {})
              ELSE {<<"su", t>> : t \in DOMAIN o.stoich} \cup (IF o.mT \in {214, 216, 224} THEN w ELSE {})) : y[2] \in (IF y[1] = "su" THEN DOMAIN E.d.su ELSE DOMAIN E.d.re)}
Reach(E, done, todo) ==
  IF todo = {} THEN done ELSE LET x == CHOOSE y \in todo : TRUE IN Reach(E, done \cup {x}, (todo \cup Uses(E, x)) \ (done \cup {x}))
Closure(E, c) ==
  LET k == IF c.op \in {"en_rea", "en_rfr"} THEN "re" ELSE "su"
      start == IF c.s \in (IF k = "su" THEN DOMAIN E.d.su ELSE DOMAIN E.d.re) THEN {<<k, c.s>>} ELSE {}
      objects == {IF x[1] = "su" THEN E.d.su[x[2]] ELSE E.d.re[x[2]] : x \in Reach(E, {}, start)}
  IN ToString(<<objects, IF E.conv.apparent = "BERMAN_BROWN" THEN E.d.el ELSE <<>>, E.d.water, Configuration(E), c.op, c.s, c.T, c.P>>)
SameScalar(a, b) == a[5] = b[5] /\ RClose(a[1], b[1], "1e-10", "1e-9") /\ RClose(a[4], b[4], "1e-10", "1e-9")
SameAnswer(a, b) == a.ok = b.ok /\ (a.ok => DOMAIN a.p = DOMAIN b.p /\ \A n \in DOMAIN a.p : SameScalar(a.p[n], b.p[n]))
Answer(e) == IF e.ok THEN [ok |-> TRUE, p |-> e.r.p] ELSE [ok |-> FALSE, p |-> NoFcn]
SelectionOk(st, E, c, e) == LET k == Closure(E, c) IN k \in DOMAIN st.learn => SameAnswer(Answer(e), st.learn[k])
\* ---------------------------------------------------------------- 12: the sum over the reactants is the defining reaction
\* two reactions with the same reactants, one with a model and the definition of one of the reactants, the other without model
ConsistentOk(E, c, e) ==
  (e.ok /\ c.op = "en_rfr") =>
  LET r == E.d.re[c.s]
      D == {s \in DOMAIN r.stoich : s \in DOMAIN E.d.su /\ s # "H+" /\ LET o == E.d.su[s] IN
              /\ ByReaction(o) /\ o.reaction \in DOMAIN E.d.re /\ o.mP # 305
              /\ LET q == E.d.re[o.reaction] IN DOMAIN q.stoich = DOMAIN r.stoich /\ \A t \in DOMAIN r.stoich : REq(q.stoich[t], r.stoich[t])}
  IN \A s \in D : Asked(E, "en_rea", E.d.su[s].reaction, c.T, c.P) =>
       LET q == Ans(E, "en_rea", E.d.su[s].reaction, c.T, c.P) tol == "1e-2" (/) c.T IN
       \A n \in Names : (n \in {"U", "A"} /\ q[n][5] = 0) \/ RClose(e.r.p[n][1], q[n][1], "1e-9", IF n \in {"S", "Cp"} THEN "1e-6" ELSE IF n = "V" THEN "1e-8" ELSE "1e-4")
\* ---------------------------------------------------------------- 14: reference properties take the place of undefined ones if the preference allows it
FallbackOk(E, c, e) ==
  LET F == [E EXCEPT !.prefs.fallback = FALSE] k == <<c.op, c.s, c.T, c.P, Configuration(F)>> IN
  (E.prefs.fallback /\ c.op = "en_sub" /\ k \in DOMAIN E.ans /\ c.s \in DOMAIN E.d.su /\ ~ByReaction(E.d.su[c.s]) /\ E.d.su[c.s].mP # 320) =>
  LET b == E.ans[k] o == E.d.su[c.s] IN
  /\ e.ok = b.ok
  /\ (e.ok => \A n \in Names : IF b.p[n][5] # 0 THEN SameScalar(e.r.p[n], b.p[n])
                              ELSE IF n \in {"U", "A"} THEN e.r.p[n][5] = 0
                              ELSE RClose(e.r.p[n][1], o.ref[n][1], "1e-12", "1e-12") /\ e.r.p[n][5] = o.ref[n][5])
\* ---------------------------------------------------------------- trace interface
ThInit == [en |-> NoFcn, learn |-> NoFcn]
ThReset(st) == ThInit
Conf(st, c) ==
  CASE c.op = "th_new" -> [st EXCEPT !.en = Upd(@, c.en, Engine(Content(c).d))]
    [] c.op = "en_conv" -> [st EXCEPT !.en[c.en].conv = Over(@, c)]
    [] c.op = "en_prefs" -> [st EXCEPT !.en[c.en].prefs = Over(@, c.set)]
    [] OTHER -> st
IsRea(r) == r.mT # 0 \/ r.eos # 0
\* ---------------------------------------------------------------- 15: answers outside of the limits say so
\* a limit that is not given is 0; nothing is said of an answer exactly at a limit of the intervals
OutOf(o, T, P) == RLt(T, o.lowT) \/ RLt(P, o.lowP) \/ (~REq(o.upT, "0") /\ RLt(o.upT, T)) \/ (~REq(o.upP, "0") /\ RLt(o.upP, P))
Limited(o) == o.eos \in {101, 119} \/ (o.eos # 99 /\ (o.mT = 201 \/ o.mP \in {307, 309} \/ (o.mP \in RealGas \ {311})))
InInterval(t, T) == RLe(t[1], T) /\ RLt(T, t[2])
Intervalled(o) == o.eos = 100 /\ o.tint # <<>> /\ (\A i \in DOMAIN o.tint : Whole(o.tint[i])) /\ Len(o.cp) > 0
\* the marks that an answer must have (must) and may have (may)
Marks(E, o, T, P) ==
  LET d == IF o.eos \in {101, 119} /\ SolvKnown(E, T, P) THEN SolvOf(E, T, P).density ELSE "1000"
      edge == Intervalled(o) /\ \E i \in DOMAIN o.tint : REq(o.tint[i][2], T)
      a == IF Limited(o) /\ OutOf(o, T, P) THEN {"record"} ELSE {}
      b == IF Intervalled(o) /\ ~(\E i \in DOMAIN o.tint : InInterval(o.tint[i], T)) THEN {"intervals"} ELSE {}
      g == IF o.eos \in {101, 119} /\ SolvKnown(E, T, P) /\ (RLe(d, "600") \/ RLe("1400", d)) THEN {"density"} ELSE {}
      \* arithmetic forgets messages: a second model that changes the heat capacity
      twice == o.mT # 0 \/ o.mP \in RealGas \cup {300, 307, 308, 309}
  IN [must |-> (IF o.mP \in RealGas /\ ~E.prefs.gas THEN {} ELSE a) \cup (IF edge \/ twice THEN {} ELSE b) \cup g,
      may |-> a \cup b \cup g \cup (IF o.eos \in {101, 119} /\ ~SolvKnown(E, T, P) THEN {"density"} ELSE {})]
Calculated == 2
MarksOk(E, c, e) ==
  (c.op = "en_sub" /\ e.ok /\ Has(e.r, "m") /\ c.s \in DOMAIN E.d.su /\ ~E.prefs.fallback) =>
    LET o == E.d.su[c.s] m == Marks(E, o, c.T, c.P) IN
    (ByReaction(o) \/ IsSolvent(o) \/ Vapour(o)) \/
    LET k == UNION {ToSet(e.r.m[n]) : n \in DOMAIN e.r.m} IN k \subseteq m.may /\ ((\A n \in DOMAIN e.r.m : e.r.p[n][5] = Calculated) => m.must \subseteq k)
\* values of substances (4), of reactions with a model (13); both with any focus where they are the subject
Subject(E, c) == IF c.op = "en_sub" THEN On(4) \/ On(6) \/ (On(12) /\ c.s \in DOMAIN E.d.su /\ ByReaction(E.d.su[c.s])) ELSE On(13) \/ On(14) \/ On(12)
QueryOk(st, e) ==
  LET c == e.c E == st.en[c.en] IN
  Singular(E, c.T) \/
  /\ (c.op \in {"en_sub", "en_rea", "en_rfr"} =>
        /\ (Subject(E, c) => ValuesOk(E, c, e))
        /\ (On(1) => DefinitionsOk(E, c, e))
        /\ (On(2) => StandardOk(E, c, e))
        /\ (On(3) => DerivativesOk(E, c, e))
        /\ (On(5) => ConventionsOk(E, c, e))
        /\ (On(12) => ConsistentOk(E, c, e))
        /\ (On(14) => FallbackOk(E, c, e))
        /\ (On(15) => MarksOk(E, c, e)))
  /\ ((On(5) \/ On(6)) => SelectionOk(st, E, c, e))
  /\ (On(7) => SolventOk(E, c, e))
  /\ (On(8) => FluidOk(E, c, e))
ThAllowed(st, e) ==
  LET c == e.c IN
  IF IsQuery(c) THEN QueryOk(st, e)
  ELSE IF c.op = "th_new" THEN e.ok = Content(c).ok ELSE e.ok
ThStep(st, e) ==
  LET c == e.c IN
  IF ~IsQuery(c) THEN (IF e.ok THEN Conf(st, c) ELSE st)
  ELSE LET E == st.en[c.en] IN
       [st EXCEPT !.en[c.en].ans = Upd(@, QKey(E, c.op, c.s, c.T, c.P), Answer(e)),
                  !.learn = IF On(5) \/ On(6) THEN Upd(@, Closure(E, c), Answer(e)) ELSE @]
ThExpect(st, e) ==
  LET c == e.c IN
  IF ~IsQuery(c) THEN "accepted"
  ELSE IF Focus = 8 THEN FluidView(st.en[c.en], c, e)
  ELSE IF c.op \in {"en_solv", "en_elec"} THEN (IF e.ok /\ On(7) THEN [definitions |-> SolvDefs(st.en[c.en], c, e.r.p), laws |-> IF SolventOk(st.en[c.en], c, e) \/ ~Has(c, "h") THEN {} ELSE {<<law, SlopeOf(st.en[c.en], c, law), e.r.p[law[1]][1], SlopeTol(st.en[c.en], c, e.r.p, law)>> : law \in BrokenSolv(st.en[c.en], c, e.r.p)}] ELSE "accepted")
  ELSE LET E == st.en[c.en] x == Expected(E, c) IN
       [expected |-> x, wrong |-> IF e.ok /\ x.k = "val" THEN Differs(x.p, e.r.p, c.T, c.P) ELSE {},
        values |-> ~Subject(E, c) \/ ValuesOk(E, c, e), definitions |-> DefinitionsOk(E, c, e), standard |-> StandardOk(E, c, e), derivatives |-> DerivativesOk(E, c, e), laws |-> IF DerivativesOk(E, c, e) THEN {} ELSE LET t == LawTable(E, c, e.r.p) IN {<<law, t[law]>> : law \in Broken(E, c, e.r.p)},
        conventions |-> ConventionsOk(E, c, e), consistent |-> ConsistentOk(E, c, e), fallback |-> FallbackOk(E, c, e), marks |-> IF c.op = "en_sub" /\ On(15) /\ c.s \in DOMAIN E.d.su THEN Marks(E, E.d.su[c.s], c.T, c.P) ELSE [must |-> {}, may |-> {}], selection |-> ~(On(5) \/ On(6)) \/ SelectionOk(st, E, c, e)]
=============================================================================
