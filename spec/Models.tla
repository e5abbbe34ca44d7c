------------------------------- MODULE Models -------------------------------
(* The thermodynamic models: what the properties of a substance or reaction are, given its record (an object as Records
   reads it), temperature T (K) and pressure P (bar).  Properties [G, H, S, V, Cp, U, A] (J, K, bar, mol); U and A are ""
   where the model does not calculate them.                                                                           *)
EXTENDS Database
RGas == "8.31451"
Ln10 == RLn("10")
RLn10 == RGas (.) Ln10
Kelvin == "273.15"
Bar(P) == P (/) "1e5"
At(a, i) == IF i <= Len(a) THEN a[i] ELSE "0"
Given(t) == t[5] # 0
Sq(x) == x (.) x
Half(x) == RSqrt(x)
Zero == [G |-> "0", H |-> "0", S |-> "0", V |-> "0", Cp |-> "0", U |-> "", A |-> ""]
Energies(p, T, P) == LET iu == p.H (-) (P (.) p.V) IN [p EXCEPT !.U = iu, !.A = iu (-) (T (.) p.S)]
Plus4(p, dG, dH, dS) == [p EXCEPT !.G = @ (+) dG, !.H = @ (+) dH, !.S = @ (+) dS]
\* ---------------------------------------------------------------- heat capacity polynomials: powers of the terms
Powers == <<"0", "1", "-2", "-0.5", "2", "3", "4", "-3", "-1", "0.5">>
\* integral of T^p from T0 to T1
IntPow(p, T0, T1) == IF REq(p, "-1") THEN RLn(T1 (/) T0) ELSE LET q == p (+) "1" IN (RPow(T1, q) (-) RPow(T0, q)) (/) q
RECURSIVE Terms2(_, _)
Terms2(a, F) == IF Len(a) = 0 THEN "0" ELSE RSum([i \in 1..(IF Len(a) > 10 THEN 10 ELSE Len(a)) |-> IF REq(a[i], "0") THEN "0" ELSE a[i] (.) F[i]])
CpAt(a, T) == Terms2(a, [i \in 1..10 |-> RPow(T, Powers[i])])
IntCp(a, T0, T1) == Terms2(a, [i \in 1..10 |-> IntPow(Powers[i], T0, T1)])
IntCpT(a, T0, T1) == Terms2(a, [i \in 1..10 |-> IntPow(Powers[i] (-) "1", T0, T1)])
\* ---------------------------------------------------------------- integration over intervals and transitions
\* the interval of a temperature: the one it is in, else the last that begins below it, else the first
Whole(t) == Len(t) > 1
Interval(o, T) ==
  LET is == DOMAIN o.tint
      inside == {i \in is : Whole(o.tint[i]) /\ RLe(o.tint[i][1], T) /\ RLt(T, o.tint[i][2])}
      below == {i \in is : Whole(o.tint[i]) /\ RLe(o.tint[i][1], T)}
      k == IF inside # {} THEN CHOOSE i \in inside : \A j \in inside : i <= j
           ELSE IF \E i \in is : ~Whole(o.tint[i]) THEN 1
           ELSE IF below # {} THEN CHOOSE i \in below : \A j \in below : j <= i ELSE 1
  IN IF k > Len(o.cp) THEN Len(o.cp) ELSE k
RECURSIVE March(_, _, _, _, _, _)
March(o, T, k, j, ft, p) ==          \* through the intervals j .. k, the next transition is ft
  IF j > k THEN p
  ELSE LET T0 == IF j = 1 THEN o.Tr ELSE o.tint[j][1]
           T1 == IF j = k THEN T ELSE o.tint[j][2]
           pass == j > 1 /\ ft <= Len(o.ph) /\ RLe(At(o.ph[IF ft <= Len(o.ph) THEN ft ELSE 1], 1), T0)
           S0 == IF pass THEN p.S (+) At(o.ph[ft], 2) ELSE p.S
           H0 == IF pass THEN p.H (+) At(o.ph[ft], 3) ELSE p.H
           V0 == IF pass THEN p.V (+) At(o.ph[ft], 4) ELSE p.V
           dH == IntCp(o.cp[j], T0, T1)
           dS == IntCpT(o.cp[j], T0, T1)
       IN March(o, T, k, j + 1, IF pass THEN ft + 1 ELSE ft,
                [p EXCEPT !.S = S0 (+) dS, !.H = H0 (+) dH, !.V = V0, !.G = @ (-) (S0 (.) (T1 (-) T0)) (-) ((T1 (.) dS) (-) dH)])
CptOk(o, T) == Len(o.cp) > 0 /\ (Interval(o, T) = 1 \/ Len(o.ph) > 0)
Cpt(o, T) ==
  LET k == Interval(o, T) IN
  March(o, T, k, 1, 1, [Zero EXCEPT !.G = o.ref.G[1], !.H = o.ref.H[1], !.S = o.ref.S[1], !.Cp = CpAt(o.cp[k], T)])
\* constant heat capacity
ConstCp(o, T) ==
  LET S == o.ref.S[1] c == IF Given(o.ref.Cp) THEN o.ref.Cp[1] ELSE "0" x == RLn(T (/) o.Tr) d == T (-) o.Tr IN
  [Zero EXCEPT !.G = o.ref.G[1] (-) (IF Given(o.ref.S) THEN S (.) d ELSE "0") (-) (c (.) ((T (.) x) (-) d)),
               !.H = o.ref.H[1] (+) (c (.) d), !.S = S (+) (c (.) x), !.Cp = o.ref.Cp[1]]
\* ---------------------------------------------------------------- pressure: constant volume
ConstV(o, T, P, p) ==
  IF ~Given(o.ref.V) THEN p
  ELSE LET v == o.ref.V[1] d == v (.) (P (-) Bar(o.Pr)) IN Energies([Plus4(p, d, d, "0") EXCEPT !.V = v], T, P)
\* ---------------------------------------------------------------- Holland and Powell (1998): bulk modulus and expansion
Aexp == "1e-5"
Ktemp == "1.5e-4"
KT(o, T) == o.compr (.) ("1" (-) (Ktemp (.) (T (-) o.Tr)))
Expansion(o, T) == LET a == o.expans (.) Aexp IN ("1" (+) (a (.) (T (-) o.Tr))) (-) ("20" (.) a (.) (Half(T) (-) Half(o.Tr)))
\* volume at T and 1 bar, V0 at Tr; dVdT its derivative
\* integral of V dP from 0 (kbar): V kT/3 ((1 + 4P/kT)^(3/4) - 1) * 1000
Mur(V, kT, P) == LET x == "1" (+) (("4" (.) (P (/) "1000")) (/) kT) IN ((V (.) kT) (/) "3") (.) (RPow(x, "0.75") (-) "1") (.) "1000"
\* its derivative with temperature, dV = dV/dT, dk = dkT/dT
MurT(V, dV, kT, dk, P) ==
  LET p == P (/) "1000" x == "1" (+) (("4" (.) p) (/) kT) y == RPow(x, "0.75") (-) "1"
  IN ((((dV (.) kT) (/) "3") (.) y) (+) (((V (.) dk) (/) "3") (.) y) (-) ((((V (.) dk) (.) p) (/) kT) (.) RPow(x, "-0.25"))) (.) "1000"
Elastic(o) == RLt("1e-9", RAbs(o.ref.V[1])) /\ RLt("1e-9", RAbs(o.expans (.) Aexp)) /\ RLt("1e-9", RAbs(o.compr))
Murnaghan(o, T, P, p) ==
  LET V0 == o.ref.V[1] a == o.expans (.) Aexp
      used == ~(REq(P, Bar(o.Pr)) /\ REq(T, o.Tr)) /\ Elastic(o)
  IN IF ~used THEN LET d == V0 (.) (P (-) Bar(o.Pr)) IN Energies([Plus4(p, d, d, "0") EXCEPT !.V = V0], T, P)
     ELSE LET V == V0 (.) Expansion(o, T)
              dV == V0 (.) (a (-) (("10" (.) a) (/) Half(T)))
              kT == KT(o, T)
              dG == Mur(V, kT, P)
              dS == RNeg(MurT(V, dV, kT, RNeg(o.compr (.) Ktemp), P))
              x == "1" (+) (("4" (.) (P (/) "1000")) (/) kT)
          IN Energies([Plus4(p, dG, dG (+) (T (.) dS), dS) EXCEPT !.V = @ (+) (V (.) RPow(x, "-0.25")), !.Cp = "any"], T, P)
\* ---------------------------------------------------------------- Landau transition (Holland and Powell, 1998)
Landau(o, T, P, p) ==
  LET Smax == IF RLe(o.landau[2], "0") THEN "1e-20" ELSE o.landau[2]
      Vmax == o.landau[3]
      Tc0 == o.landau[1] (+) Kelvin
      Tc == Tc0 (+) ((Vmax (/) Smax) (.) P)
      Q2r == Half("1" (-) (o.Tr (/) Tc0)) Q6r == RPow(Q2r, "3")
      low == RLt(T, Tc)
      Q2 == IF low THEN Half("1" (-) (T (/) Tc)) ELSE "0" Q6 == IF low THEN RPow(Q2, "3") ELSE "0"
      a == o.expans (.) Aexp
      kT == KT(o, T)
      V0 == Vmax (.) Q2r
      V == V0 (.) Expansion(o, T)
      dV == V0 (.) (a (-) (("10" (.) a) (/) Half(T)))
      I == Mur(V, kT, P)
      IT == MurT(V, dV, kT, RNeg(o.compr (.) Ktemp), P)
      h == Smax (.) Tc0 (.) (Q2r (-) (Q6r (/) "3"))
      dG == h (-) (T (.) Smax (.) Q2r) (+) I (+) (Smax (.) (((T (-) Tc) (.) Q2) (+) ((Tc (.) Q6) (/) "3")))
      dS == (Smax (.) (Q2r (-) Q2)) (-) IT
      dH == h (-) (Smax (.) Tc (.) (Q2 (-) (Q6 (/) "3"))) (+) I (-) (T (.) IT)
      x == "1" (+) (("4" (.) (P (/) "1000")) (/) kT)
  IN Energies([Plus4(p, dG, dH, dS) EXCEPT !.V = (V (.) RPow(x, "-0.25")) (-) (Vmax (.) (Q2 (-) (Q6 (/) "3"))),
                                            !.Cp = @ (+) (IF low THEN (T (.) Smax) (/) ("2" (.) Half(Tc) (.) Half(Tc (-) T)) ELSE "0")], T, P)
LandauT(o, P) == (o.landau[1] (+) Kelvin) (+) ((o.landau[3] (/) (IF RLe(o.landau[2], "0") THEN "1e-20" ELSE o.landau[2])) (.) P)
LandauOk(o) == Len(o.landau) >= 3
\* ---------------------------------------------------------------- Berman (1988): V/V0 = 1 + v1 t + v2 t^2 + v3 t^3 + v4 p + v5 p^2
BermanOk(o) == Len(o.vc) = 5
Berman(o, T, P, p) ==
  LET t == T (-) o.Tr q == P (-) Bar(o.Pr) V0 == o.ref.V[1] c == o.vc
      f == (c[1] (.) t) (+) (c[2] (.) Sq(t)) (+) (c[3] (.) t (.) Sq(t))                       \* thermal part of the volume
      fT == c[1] (+) ("2" (.) c[2] (.) t) (+) ("3" (.) c[3] (.) Sq(t))
      fTT == ("2" (.) c[2]) (+) ("6" (.) c[3] (.) t)
      VP == V0 (.) q
      dG == VP (.) ("1" (+) f (+) ((c[4] (.) q) (/) "2") (+) ((c[5] (.) Sq(q)) (/) "3"))
      dS == RNeg(VP (.) fT)
      r == [Plus4(p, dG, dG (+) (T (.) dS), dS) EXCEPT !.V = V0 (.) ("1" (+) f (+) (c[4] (.) q) (+) (c[5] (.) Sq(q))), !.Cp = @ (-) (T (.) VP (.) fTT)]
  IN IF REq(t, "0") /\ REq(q, "0") THEN [p EXCEPT !.V = V0] ELSE Energies(r, T, P)
\* ---------------------------------------------------------------- ideal gas
IdealGas(o, T, P, p, corr) ==
  LET q == IF REq(o.class, "1") /\ RLt("0", P) THEN [p EXCEPT !.V = (RGas (.) T) (/) P] ELSE p d == q.V (.) (P (-) Bar(o.Pr)) IN
  IF corr THEN Energies(Plus4(q, d, d, "0"), T, P) ELSE q
\* ---------------------------------------------------------------- aqueous species: Helgeson-Kirkham-Flowers
\* solvent w: density (kg/m3), Alpha (1/K), Beta (1/Pa), dAldT (1/K2); e: born Z, Y (1/K), Q (1/Pa), X (1/K2)
HkfOk(o) == Len(o.hkf) >= 7
Cal == "4.184"
HkfT == "298.15"
Theta == "228"
Psi == "2600"
Eta == "1.66027e5"
G3 == "3.082"
Hkf(o, T, P, om, e, ref) ==
  LET h == o.hkf
      t == T (-) Theta tr == HkfT (-) Theta
      p == P (-) ref.P
      lp == RLn((Psi (+) P) (/) (Psi (+) ref.P))
      lt == RLn((HkfT (.) t) (/) (T (.) tr))
      inv == ("1" (/) t) (-) ("1" (/) tr)
      x == (h[3] (.) p) (+) (h[4] (.) lp)
      Z1 == e.Z (+) "1"
      Gf == o.ref.G[1] (/) Cal Hf == o.ref.H[1] (/) Cal Sr == o.ref.S[1] (/) Cal
      c1 == h[5] c2 == h[6] wr == h[7]
      Q == e.Q (.) "1e5" wP == om.P (.) "1e5"
      V == (h[1] (+) (h[2] (/) (Psi (+) P)) (+) ((h[3] (+) (h[4] (/) (Psi (+) P))) (/) t)) (-) (om.w (.) Q) (-) (Z1 (.) wP)   \* cal/bar
      S == Sr (+) (c1 (.) RLn(T (/) HkfT)) (-) ((c2 (/) Theta) (.) (inv (+) (lt (/) Theta))) (+) (x (/) Sq(t)) (+) (om.w (.) e.Y) (+) (Z1 (.) om.T) (-) (wr (.) ref.Y)
      Cp == c1 (+) (c2 (/) Sq(t)) (-) ((("2" (.) T) (.) x) (/) (t (.) Sq(t))) (+) (om.w (.) T (.) e.X) (+) ("2" (.) T (.) e.Y (.) om.T) (+) (T (.) Z1 (.) om.TT)
      G == Gf (-) (Sr (.) (T (-) HkfT)) (-) (c1 (.) ((T (.) RLn(T (/) HkfT)) (-) (T (-) HkfT))) (+) (h[1] (.) p) (+) (h[2] (.) lp)
           (-) (c2 (.) ((inv (.) (RNeg(t) (/) Theta)) (-) ((T (/) Sq(Theta)) (.) lt))) (+) (x (/) t) (-) (om.w (.) Z1) (+) (wr (.) (ref.Z (+) "1")) (+) (wr (.) ref.Y (.) (T (-) HkfT))
      H == Hf (+) (c1 (.) (T (-) HkfT)) (-) (c2 (.) inv) (+) (h[1] (.) p) (+) (h[2] (.) lp) (+) ((x (.) (("2" (.) T) (-) Theta)) (/) Sq(t))
           (-) (om.w (.) Z1) (+) (om.w (.) T (.) e.Y) (+) (T (.) Z1 (.) om.T) (+) (wr (.) (ref.Z (+) "1")) (-) (wr (.) HkfT (.) ref.Y)
      r == [G |-> G (.) Cal, H |-> H (.) Cal, S |-> S (.) Cal, V |-> V (.) "4.184004", Cp |-> Cp (.) Cal, U |-> "", A |-> ""]
      iu == r.H (-) (((P (.) r.V) (/) "4.184004") (.) Cal)
  IN [r EXCEPT !.U = iu, !.A = iu (-) (T (.) r.S)]
\* the g function of Shock et al. (1992) and its derivatives (per K and per bar)
ShockA == <<"-2.037662", "5.747e-3", "-6.557892e-6">>
ShockB == <<"6.107361", "-1.074377e-2", "1.268348e-5">>
Quad(c, t) == c[1] (+) (c[2] (.) t) (+) (c[3] (.) Sq(t))
Quad1(c, t) == c[2] (+) ("2" (.) c[3] (.) t)
Quad2(c) == "2" (.) c[3]
\* x = |1 - density|; xT, xTT, xP its derivatives
GFun(T, P, w, af) ==
  LET t == T (-) Kelvin
      D == w.density (/) "1000"
      s == IF RLt("1", D) THEN "-1" ELSE "1"
      x == s (.) ("1" (-) D)
      xT == s (.) D (.) w.Alpha
      xTT == s (.) D (.) (w.dAldT (-) Sq(w.Alpha))
      xP == RNeg(s (.) D (.) w.Beta (.) "1e5")
      a == Quad(ShockA, t) aT == Quad1(ShockA, t) aTT == Quad2(ShockA)
      b == Quad(ShockB, t) bT == Quad1(ShockB, t) bTT == Quad2(ShockB)
      \* y = x^b = exp(b ln x)
      y == RPow(x, b)
      l == RLn(x)
      uT == (bT (.) l) (+) ((b (.) xT) (/) x)
      uTT == (bTT (.) l) (+) ((("2" (.) bT) (.) xT) (/) x) (+) (b (.) ((xTT (/) x) (-) Sq(xT (/) x)))
      yT == y (.) uT
      yTT == y (.) (uTT (+) Sq(uT))
      yP == ((y (.) b) (.) xP) (/) x
      corr == RLt("155", t) /\ RLt(P, "1000")
      z == (t (-) "155") (/) "300"
      f == RPow(z, "4.8") (+) (af[1] (.) RPow(z, "16"))
      fT == (("4.8" (.) RPow(z, "3.8")) (+) ("16" (.) af[1] (.) RPow(z, "15"))) (/) "300"
      fTT == (("18.24" (.) RPow(z, "2.8")) (+) ("240" (.) af[1] (.) RPow(z, "14"))) (/) "9e4"
      q == "1000" (-) P
      g == (af[2] (.) RPow(q, "3")) (+) (af[3] (.) RPow(q, "4"))
      gP == RNeg(("3" (.) af[2] (.) Sq(q)) (+) ("4" (.) af[3] (.) RPow(q, "3")))
      base == [g |-> a (.) y, T |-> (a (.) yT) (+) (aT (.) y), TT |-> (a (.) yTT) (+) ("2" (.) aT (.) yT) (+) (aTT (.) y), P |-> a (.) yP]
  IN IF REq(x, "0") THEN [g |-> "0", T |-> "0", TT |-> "0", P |-> "0"]
     ELSE IF corr THEN [g |-> base.g (-) (f (.) g), T |-> base.T (-) (fT (.) g), TT |-> base.TT (-) (fTT (.) g), P |-> base.P (-) (f (.) gP)]
     ELSE base
\* Born coefficient of a species of charge z (per K and per Pa)
Omega(o, g) ==
  LET z == o.charge wr == o.hkf[7]
      rr == Sq(z) (/) ((wr (/) Eta) (+) (z (/) G3))
      r == rr (+) (RAbs(z) (.) g.g)
      d == G3 (+) g.g
      w == Eta (.) ((Sq(z) (/) r) (-) (z (/) d))
      w1 == Eta (.) (RNeg((RAbs(z) (.) Sq(z)) (/) Sq(r)) (+) (z (/) Sq(d)))
      w2 == "2" (.) Eta (.) ((Sq(Sq(z)) (/) (r (.) Sq(r))) (-) (z (/) (d (.) Sq(d))))
  IN IF REq(z, "0") THEN [w |-> wr, T |-> "0", TT |-> "0", P |-> "0"]
     ELSE [w |-> w, T |-> w1 (.) g.T, TT |-> (w1 (.) g.TT) (+) (w2 (.) Sq(g.T)), P |-> (w1 (.) g.P) (/) "1e5"]
NoG == [g |-> "0", T |-> "0", TT |-> "0", P |-> "0"]
RefGems == [P |-> "1", Z |-> "-0.01278034682", Y |-> "-5.798650444e-5"]
AfGems == <<"36.66666", "-1.504956e-10", "5.017997e-14">>
RefReak == [P |-> "1", Z |-> "-1.278055636e-02", Y |-> "-5.795424563e-05"]
AfReak == <<"36.6666", "-1.504956e-10", "5.01799e-14">>
HkfReaktoro(o, T, P, w, e) == Hkf(o, T, P, Omega(o, IF RLt("1000", w.density) THEN NoG ELSE GFun(T, P, w, AfReak)), e, RefReak)
HkfGems(o, T, P, w, e) == Hkf(o, T, P, Omega(o, GFun(T, P, w, AfGems)), e, RefGems)
\* ---------------------------------------------------------------- reactions: [logK, G, H, S, V, Cp, U, A]
RZero == [logK |-> "0", G |-> "0", H |-> "0", S |-> "0", V |-> "0", Cp |-> "0", U |-> "", A |-> ""]
FromLogK(r, T) == [r EXCEPT !.G = RNeg(RLn10 (.) T (.) r.logK)]
\* completion of the reference properties: values and which of them are known
Complete(o) ==
  LET r == o.ref Tr == o.Tr
      hasK == Given(r.logK) hasG == Given(r.G) \/ hasK
      G == IF Given(r.G) THEN r.G[1] ELSE IF hasK THEN RNeg(r.logK[1] (.) RLn10 (.) Tr) ELSE r.G[1]
      K == IF hasK THEN r.logK[1] ELSE IF hasG THEN RNeg(G (/) (RLn10 (.) Tr)) ELSE r.logK[1]
      H == IF Given(r.H) THEN r.H[1] ELSE IF Given(r.S) /\ hasG THEN G (+) (r.S[1] (.) Tr) ELSE r.H[1]
      S == IF Given(r.S) THEN r.S[1] ELSE IF Given(r.H) /\ hasG THEN (r.H[1] (-) G) (/) Tr ELSE r.S[1]
  IN [logK |-> K, G |-> G, H |-> H, S |-> S, Cp |-> r.Cp[1], hasK |-> hasK \/ hasG, hasG |-> hasG,
      hasH |-> Given(r.H) \/ (Given(r.S) /\ hasG), hasS |-> Given(r.S) \/ (Given(r.H) /\ hasG), hasCp |-> Given(r.Cp)]
\* number of terms of the extrapolation the data allow
Extrapolation(c) ==
  IF c.hasH /\ c.hasS THEN (IF c.hasCp THEN "EK3" ELSE "EK2")
  ELSE IF (c.hasH /\ REq(c.H, "0")) \/ (c.hasS /\ REq(c.S, "0")) THEN "EK1" ELSE "EK0"
Extrapolate(o, T, kind) ==
  LET c == Complete(o) Tr == o.Tr V == o.ref.V[1]
      n == IF kind = "EK3" THEN Extrapolation(c) ELSE kind
      lnr == RLn(T (/) Tr)
      H == IF n = "EK0" THEN "0" ELSE IF n = "EK1" THEN c.G ELSE IF n = "EK2" THEN c.H ELSE c.H (+) (c.Cp (.) (T (-) Tr))
      S == IF n = "EK0" THEN c.logK (.) RLn10 ELSE IF n = "EK1" THEN "0" ELSE IF n = "EK2" THEN c.S ELSE c.S (+) (c.Cp (.) lnr)
      G == H (-) (T (.) S)
  IN [RZero EXCEPT !.logK = RNeg(G (/) (RLn10 (.) T)), !.G = G, !.H = H, !.S = S, !.V = V, !.Cp = IF n = "EK3" THEN c.Cp ELSE "0"]
\* log K = sum of A_i T^p_i, or from the heat capacity of the reaction
KPowers == <<"0", "1", "-1", "ln", "-2", "2", "-0.5">>
LogKOk(o) == Len(o.logk) > 0 \/ Len(o.cp) > 0
TermK(i, T) == IF i = 4 THEN RLn(T) ELSE RPow(T, KPowers[i])
TermK1(i, T) == IF i = 4 THEN "1" (/) T ELSE KPowers[i] (.) RPow(T, KPowers[i] (-) "1")           \* first and second derivative
TermK2(i, T) == IF i = 4 THEN RNeg("1" (/) Sq(T)) ELSE KPowers[i] (.) (KPowers[i] (-) "1") (.) RPow(T, KPowers[i] (-) "2")
SumK(a, F) == RSum([i \in 1..(IF Len(a) > 7 THEN 7 ELSE Len(a)) |-> a[i] (.) F[i]])
First5(a) == IF Len(a) > 5 THEN SubSeq(a, 1, 5) ELSE a
LogKFun(o, T) ==
  LET V == o.ref.V[1] Tr == o.Tr c == Complete(o) a == First5(o.cp)
      K == SumK(o.logk, [i \in 1..7 |-> TermK(i, T)])
      K1 == SumK(o.logk, [i \in 1..7 |-> TermK1(i, T)])
      K2 == SumK(o.logk, [i \in 1..7 |-> TermK2(i, T)])
      H == IF Len(o.logk) > 0 THEN RLn10 (.) Sq(T) (.) K1 ELSE c.H (+) IntCp(a, Tr, T)
      S == IF Len(o.logk) > 0 THEN RLn10 (.) (K (+) (T (.) K1)) ELSE c.S (+) IntCpT(a, Tr, T)
      G == H (-) (T (.) S)
      Cp == IF Len(a) > 0 THEN CpAt(a, T) ELSE RLn10 (.) (("2" (.) T (.) K1) (+) (Sq(T) (.) K2))
  IN [RZero EXCEPT !.logK = RNeg(G (/) (RLn10 (.) T)), !.G = G, !.H = H, !.S = S, !.V = V, !.Cp = Cp]
\* density models; rho g/cm3, al 1/K, be 1/bar, dal 1/K2
Rho(w) == w.density (/) "1000"
DmOk(o) == Len(o.dm) >= 5
Dolejs(o, T, w) ==
  LET d == o.dm lr == RLn(Rho(w)) be == w.Beta (.) "1e5"
      G == d[1] (+) (d[2] (.) T) (+) (d[3] (.) T (.) RLn(T)) (+) (d[4] (.) Sq(T)) (+) (d[5] (.) T (.) lr)
      S == RNeg(d[2] (+) (d[3] (.) ("1" (+) RLn(T))) (+) ("2" (.) d[4] (.) T) (+) (d[5] (.) lr) (-) (d[5] (.) T (.) w.Alpha))
      Cp == RNeg(d[3] (+) ("2" (.) d[4] (.) T) (-) ("2" (.) d[5] (.) T (.) w.Alpha) (-) (d[5] (.) Sq(T) (.) w.dAldT))
  IN [RZero EXCEPT !.logK = RNeg(G (/) (RLn10 (.) T)), !.G = G, !.H = G (+) (T (.) S), !.S = S, !.V = d[5] (.) T (.) be, !.Cp = Cp]
FmOk(o) == Len(o.fm) >= 7
Frantz(o, T, w) ==
  LET m == o.fm i1 == "1" (/) T i2 == Sq(i1) i3 == i1 (.) i2 i4 == Sq(i2)
      lr == RLn(Rho(w)) (/) Ln10 lT == RNeg(w.Alpha (/) Ln10) lTT == RNeg(w.dAldT (/) Ln10) lP == (w.Beta (.) "1e5") (/) Ln10
      k == m[5] (+) (m[6] (.) i1) (+) (m[7] (.) i2) k1 == RNeg((m[6] (.) i2) (+) ("2" (.) m[7] (.) i3)) k2 == ("2" (.) m[6] (.) i3) (+) ("6" (.) m[7] (.) i4)
      K == m[1] (+) (m[2] (.) i1) (+) (m[3] (.) i2) (+) (m[4] (.) i3) (+) (k (.) lr)
      K1 == RNeg((m[2] (.) i2) (+) ("2" (.) m[3] (.) i3) (+) ("3" (.) m[4] (.) i4)) (+) (k1 (.) lr) (+) (k (.) lT)
      K2 == ("2" (.) m[2] (.) i3) (+) ("6" (.) m[3] (.) i4) (+) ("12" (.) m[4] (.) i4 (.) i1) (+) (k2 (.) lr) (+) ("2" (.) k1 (.) lT) (+) (k (.) lTT)
      G == RNeg(RLn10 (.) T (.) K) S == RLn10 (.) (K (+) (T (.) K1))
  IN [RZero EXCEPT !.logK = K, !.G = G, !.H = G (+) (T (.) S), !.S = S, !.V = RNeg(RLn10 (.) T (.) k (.) lP), !.Cp = RLn10 (.) T (.) (("2" (.) K1) (+) (T (.) K2))]
\* Marshall and Franck (1981): ion product of water; Ryzhenko-Bryzgalin: pK = pK(298) 298.15/T + (A + B/T) BB
MarFr == <<"-4.098", "-3245.2", "2.2362e5", "-3.984e7", "13.957", "-1262.3", "8.5641e5">>
RbOk(o) == Len(o.rb) >= 3
Ryzhenko(o, T, w) ==
  LET kw == Frantz([fm |-> MarFr], T, w)
      kr == Frantz([fm |-> MarFr], "298.15", [w EXCEPT !.density = "997.061"])
      pk == o.rb[1] A == o.rb[2] B == o.rb[3] zz == "1.0107"
      \* I = T (pKr 298.15/T - pKw) = -(T log K) + ..., J = A + B/T: G = ln10 R (pk 298.15 - I J / zz)
      I == (T (.) kw.logK) (-) ("298.15" (.) kr.logK)
      I1 == kw.S (/) RLn10                     \* d(T log K)/dT
      I2 == kw.Cp (/) (T (.) RLn10)
      J == A (+) (B (/) T) J1 == RNeg(B (/) Sq(T)) J2 == ("2" (.) B) (/) (T (.) Sq(T))
      G == RLn10 (.) ((pk (.) "298.15") (-) ((I (.) J) (/) zz))
      S == (RLn10 (/) zz) (.) ((I1 (.) J) (+) (I (.) J1))
      Cp == ((RLn10 (/) zz) (.) T) (.) ((I2 (.) J) (+) ("2" (.) I1 (.) J1) (+) (I (.) J2))
      V == (kw.V (.) J) (/) zz
  IN [RZero EXCEPT !.logK = RNeg(G (/) (RLn10 (.) T)), !.G = G, !.H = G (+) (T (.) S), !.S = S, !.V = V, !.Cp = Cp]
\* pressure correction with the volume of the reaction
REnergies(r, T, P) == LET iu == r.H (-) (P (.) r.V) IN [r EXCEPT !.U = iu, !.A = iu (-) (T (.) r.S)]
RConst(o, T, P, r) ==
  LET q == P (-) Bar(o.Pr) d == r.V (.) q
      s == [r EXCEPT !.G = @ (+) d, !.H = @ (+) d, !.logK = @ (-) (d (/) (RLn10 (.) T))]
  IN REnergies(s, T, P)
=============================================================================
