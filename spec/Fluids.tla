------------------------------- MODULE Fluids -------------------------------
(* Equations of state of water and gases and models of the dielectric constant of water.  Each equation of state is one
   thermodynamic potential, the Helmholtz energy as a function of temperature and density (or volume); pressure, entropy,
   energies, heat capacity and compressibility follow by differentiation.                                             *)
EXTENDS RealArith
\* ---------------------------------------------------------------- differentiation
Deriv(F(_), x) == LET h == x (.) "1e-11" IN (F(x (+) h) (-) F(x (-) h)) (/) ("2" (.) h)
Deriv2(F(_), x) == LET h == x (.) "1e-8" IN ((F(x (+) h) (+) F(x (-) h)) (-) ("2" (.) F(x))) (/) (h (.) h)
Diff11(F(_, _), x, y) == LET g(u) == LET f(v) == F(u, v) IN Deriv(f, y) IN Deriv(g, x)
Sqr(x) == x (.) x
\* ---------------------------------------------------------------- water: Wagner and Pruss (1995), J/kg, K, kg/m3
Wp0 == [n |-> <<"0.12533547935523e-01", "0.78957634722828e01", "-0.87803203303561e01", "0.31802509345418", "-0.26145533859358", "-0.78199751687981e-02", "0.88089493102134e-02">>,
         d |-> <<"1", "1", "1", "2", "2", "3", "4">>, t |-> <<"-0.5", "0.875", "1", "0.5", "0.75", "0.375", "1">>]
Wp1 == [n |-> <<"-0.66856572307965", "0.20433810950965", "-0.66212605039687e-04", "-0.19232721156002", "-0.25709043003438", "0.16074868486251", "-0.40092828925807e-01", "0.39343422603254e-06", "-0.75941377088144e-05", "0.56250979351888e-03", "-0.15608652257135e-04", "0.11537996422951e-08", "0.36582165144204e-06", "-0.13251180074668e-11", "-0.62639586912454e-09">>,
         d |-> <<"1", "1", "1", "2", "2", "3", "4", "4", "5", "7", "9", "10", "11", "13", "15">>, t |-> <<"4", "6", "12", "1", "5", "4", "2", "13", "9", "3", "4", "11", "4", "13", "1">>]
Wp2 == [n |-> <<"-0.10793600908932", "0.17611491008752e-01", "0.22132295167546", "-0.40247669763528", "0.58083399985759", "0.49969146990806e-02", "-0.31358700712549e-01", "-0.74315929710341", "0.47807329915480", "0.20527940895948e-01", "-0.13636435110343", "0.14180634400617e-01", "0.83326504880713e-02", "-0.29052336009585e-01", "0.38615085574206e-01", "-0.20393486513704e-01", "-0.16554050063734e-02", "0.19955571979541e-02", "0.15870308324157e-03", "-0.16388568342530e-04">>,
         d |-> <<"1", "2", "2", "2", "3", "4", "4", "4", "5", "6", "6", "7", "9", "9", "9", "9", "9", "10", "10", "12">>, t |-> <<"7", "1", "9", "10", "10", "3", "7", "10", "10", "6", "10", "10", "1", "2", "3", "4", "8", "6", "9", "8">>]
Wp3 == [n |-> <<"0.43613615723811e-01", "0.34994005463765e-01", "-0.76788197844621e-01", "0.22446277332006e-01">>,
         d |-> <<"3", "4", "4", "5">>, t |-> <<"16", "22", "23", "23">>]
Wp4 == [n |-> <<"-0.62689710414685e-04">>,
         d |-> <<"14">>, t |-> <<"10">>]
Wp6 == [n |-> <<"-0.55711118565645e-09", "-0.19905718354408", "0.31777497330738", "-0.11841182425981">>,
         d |-> <<"3", "6", "6", "6">>, t |-> <<"50", "44", "46", "50">>]
WpG == [n |-> <<"-0.31306260323435e02", "0.31546140237781e02", "-0.25213154341695e04">>, t |-> <<"0", "1", "4">>, b |-> <<"150", "150", "250">>, g |-> <<"1.21", "1.21", "1.25">>]
WpN == [n |-> <<"-0.14874640856724", "0.31806110878444">>, b |-> <<"0.85", "0.95">>, C |-> <<"28", "32">>, D |-> <<"700", "800">>]
WpI == [n |-> <<"0.012436", "0.97315", "1.27950", "0.96956", "0.24873">>, g |-> <<"1.28728967", "3.53734222", "7.74073708", "9.24437796", "27.5075105">>]
Hg0 == <<"0.765192919131e-2", "-0.620600116069e0", "-0.106924329402e2", "-0.280671377296e1", "0.119843634845e3", "-0.823907389256e2", "0.555864146443e2", "-0.310698122980e2", "0.136200239305e2", "-0.457116129409e1", "0.115382128188e1", "-0.214242224683e0", "0.282800597384e-1", "-0.250384152737e-2", "0.132952679669e-3", "-0.319277411208e-5">>
Hg0T == <<"-2", "-1", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13">>
Hg1 == <<"0.15383053e1", "-0.81048367e0", "-0.68305748e1", "0.00000000e0", "0.86756271e0">>
Hg3 == [n |-> <<"-0.76221190138079e1", "0.32661493707555e2", "0.11305763156821e2", "-0.10015404767712e1", "0.12830064355028e3", "-0.28371416789846e3", "0.24256279839182e3", "-0.99357645626725e2", "-0.12275453013171e4", "0.23077622506234e4", "-0.16352219929859e4", "0.58436648297764e3", "0.42365441415641e4", "-0.78027526961828e4", "0.38855645739589e4", "-0.91225112529381e3", "-0.90143895703666e4", "0.15196214817734e5", "-0.39616651358508e4", "-0.72027511617558e3", "0.11147126705990e5", "-0.17412065252210e5", "0.99918281207782e3", "0.33504807153854e4", "-0.64752644922631e4", "0.98323730907847e4", "0.83877854108422e3", "-0.27919349903103e4", "0.11112410081192e4", "-0.17287587261807e4", "-0.36233262795423e3", "0.61139429010144e3", "0.32968064728562e2", "0.10411239605066e3", "-0.38225874712590e2", "-0.20307478607599e3">>,
        k |-> <<"1", "1", "1", "1", "2", "2", "2", "2", "3", "3", "3", "3", "4", "4", "4", "4", "5", "5", "5", "5", "6", "6", "6", "6", "7", "7", "7", "7", "9", "9", "9", "9", "3", "3", "1", "5">>, l |-> <<"-1", "-2", "-4", "-6", "-1", "-2", "-4", "-6", "-1", "-2", "-4", "-6", "-1", "-2", "-4", "-6", "-1", "-2", "-4", "-6", "-1", "-2", "-4", "-6", "-1", "-2", "-4", "-6", "-1", "-2", "-4", "-6", "0", "-3", "-3", "-3">>]
Hg4 == [A |-> <<"-0.32329494e-2", "-0.24139355e-1", "0.79027651e-3", "-0.13362857e1">>, m |-> <<"2", "2", "2", "4">>, n |-> <<"0", "2", "0", "0">>, a |-> <<"34", "40", "30", "1050">>, b |-> <<"20000", "20000", "40000", "25">>, r |-> <<"0.10038928e1", "0.10038928e1", "0.10038928e1", "0.48778492e1">>, t |-> <<"0.98876821e0", "0.98876821e0", "0.99124013e0", "0.41713659e0">>]
WpT(t, tau, del) == RTerms(t.n, del, t.d, tau, t.t)
WpIdeal(tau, del) ==
  RLn(del) (-) "8.32044648201" (+) ("6.6832105268" (.) tau) (+) ("3.00632" (.) RLn(tau))
  (+) RSum([i \in DOMAIN WpI.n |-> WpI.n[i] (.) RLn("1" (-) RExp(RNeg(WpI.g[i] (.) tau)))])
WpRes(tau, del) ==
  LET d2 == Sqr(del) d3 == d2 (.) del d4 == Sqr(d2) x == Sqr(del (-) "1") u == Sqr(tau (-) "1") IN
  WpT(Wp0, tau, del) (+) (WpT(Wp1, tau, del) (.) RExp(RNeg(del))) (+) (WpT(Wp2, tau, del) (.) RExp(RNeg(d2)))
  (+) (WpT(Wp3, tau, del) (.) RExp(RNeg(d3))) (+) (WpT(Wp4, tau, del) (.) RExp(RNeg(d4))) (+) (WpT(Wp6, tau, del) (.) RExp(RNeg(Sqr(d3))))
  (+) RSum([i \in 1..3 |-> WpG.n[i] (.) d3 (.) RPow(tau, WpG.t[i]) (.) RExp(RNeg(("20" (.) x) (+) (WpG.b[i] (.) Sqr(tau (-) WpG.g[i]))))])
  (+) (IF REq(del, "1") THEN "0"
       ELSE RSum([i \in 1..2 |-> LET th == ("1" (-) tau) (+) ("0.32" (.) RPow(x, "1" (/) "0.6")) D == Sqr(th) (+) ("0.2" (.) RPow(x, "3.5"))
                             IN WpN.n[i] (.) RPow(D, WpN.b[i]) (.) del (.) RExp(RNeg((WpN.C[i] (.) x) (+) (WpN.D[i] (.) u)))]))
WpA(T, rho) == LET tau == "647.096" (/) T del == rho (/) "322" IN "461.51805" (.) T (.) (WpIdeal(tau, del) (+) WpRes(tau, del))
\* ---------------------------------------------------------------- water: Haar, Gallagher and Kell (1984)
HgkA(T, rho) ==
  LET t == T (/) "647.27" r == rho (/) "317.763" lt == RLn(t)
      y == r (.) ("0.059402227" (+) ("-0.028128238" (.) lt) (+) ("0.00056826674" (.) RPow(t, "-3")) (+) ("-0.00027987451" (.) RPow(t, "-5")))
      x == "1" (/) ("1" (-) y)
      z == "1" (-) RExp("-0.317763" (.) r)
      a0 == (("-0.130840393653e2" (+) ("-0.857020420940e2" (.) t)) (.) lt) (+) RTerms(Hg0, t, Hg0T, "1", Hg0T)
      a1 == r (.) RTerms(Hg1, t, <<"1", "0", "-1", "-2", "-3">>, "1", <<"0", "0", "0", "0", "0">>)
      a2 == "4.2923415" (.) t (.) ((RLn(r (.) x) (-) (("130" (/) "3") (.) x)) (+) (("169" (/) "6") (.) x (.) x) (-) ("14" (.) y))
      a3 == RTerms(Hg3.n, z, Hg3.k, t, Hg3.l)
      part(i) == LET d == (r (-) Hg4.r[i]) (/) Hg4.r[i] u == (t (-) Hg4.t[i]) (/) Hg4.t[i] IN
                 Hg4.A[i] (.) RPow(d, Hg4.n[i]) (.) RExp(RNeg((Hg4.a[i] (.) RPow(d, Hg4.m[i])) (+) (Hg4.b[i] (.) Sqr(u))))
  IN "69595.89" (.) (a0 (+) a1 (+) a2 (+) a3 (+) part(1) (+) part(2) (+) part(3) (+) part(4))
\* ---------------------------------------------------------------- water: Zhang and Duan (2005); pressure (bar) at a molar volume (J/bar)
ZdP(T, V) ==
  LET u == "55.9480373" v == (V (.) "10") (/) u t == T (/) "647.25" q == Sqr(v)
      poly(a, b, c) == a (+) (b (/) Sqr(t)) (+) (c (/) (Sqr(t) (.) t))
      B == poly("0.349824207", "-2.91046273", "2.00914688") CC == poly("0.112819964", "0.748997714", "-0.87320704")
      D == poly("0.0170609505", "-0.0146355822", "0.0579768283") EE == poly("-0.000841246372", "0.00495186474", "-0.00916248538")
      F == "-0.100358152" (/) t GG == "-0.00182674744" (.) t
  IN (("83.14467" (.) T) (/) (v (.) u)) (.) ("1" (+) (B (/) v) (+) (CC (/) q) (+) (D (/) Sqr(q)) (+) (EE (/) (Sqr(q) (.) v)) (+) (((F (/) q) (+) (GG (/) Sqr(q))) (.) RExp(RNeg("0.0105999998" (/) q))))
\* ---------------------------------------------------------------- properties from a Helmholtz energy of water
MolarMass == "0.018015268"
Pres(A(_, _), T, rho) == LET f(r) == A(T, r) IN (Sqr(rho) (.) Deriv(f, rho)) (/) "1e5"        \* bar
PresRho(A(_, _), T, rho) == LET p(r) == Pres(A, T, r) IN Deriv(p, rho)
WaterProps(A(_, _), T, P, V, rho) ==
  LET f(t) == A(t, rho) a == A(T, rho)
      s == RNeg(Deriv(f, T)) u == a (+) (T (.) s)
      aTT == Deriv2(f, T) p(t) == Pres(A, t, rho) PT == Deriv(p, T) PR == PresRho(A, T, rho)
      cp == (((T (.) Sqr(PT)) (.) "1e5") (/) (Sqr(rho) (.) PR)) (-) (T (.) aTT)
  IN [S |-> MolarMass (.) s, U |-> MolarMass (.) u, H |-> (MolarMass (.) u) (+) (P (.) V), Cp |-> MolarMass (.) cp]
\* ---------------------------------------------------------------- dielectric constant of water
EpsF97(T, rho) ==
  LET d == rho (/) "322" t == "647.096" (/) T
      g == "1" (+) RTerms(<<"0.978224486826", "-0.957771379375", "0.237511794148", "0.714692244396", "-0.298217036956", "-0.108863472196", "0.0949327488264", "-0.00980469816509", "0.000016516763497", "0.0000937359795772", "-0.00000000012317921872">>,
                          d, <<"1", "1", "1", "2", "3", "3", "4", "5", "6", "7", "10">>, t, <<"0.25", "1", "2.5", "1.5", "1.5", "2.5", "2", "2", "5", "0.5", "10">>)
             (+) ("0.00196096504426" (.) d (.) RPow((T (/) "228") (-) "1", "-1.2"))
      NM == ("6.0221367e23" (.) rho) (/) ("0.018015268" (.) "8.854187817e-12")
      a == ((NM (.) Sqr("6.138e-30")) (.) g) (/) ("1.380658e-23" (.) T)
      b == (NM (.) "1.636e-40") (/) "3"
      root == RSqrt("9" (+) ("2" (.) a) (+) ("18" (.) b) (+) Sqr(a) (+) ("10" (.) a (.) b) (+) ("9" (.) Sqr(b)))
  IN ("1" (+) a (+) ("5" (.) b) (+) root) (/) ("4" (.) ("1" (-) b))
EpsS14(T, rho) ==
  LET t == T (-) "273.15" q == RSqrt(t) r == rho (/) "1000"
  IN RExp(("-8.016651e-5" (.) t) (+) ("-6.871618e-2" (.) q) (+) "4.747973") (.) RPow(r, ("-1.576377e-3" (.) t) (+) ("6.810288e-2" (.) q) (+) "0.7548755")
EpsJN91(T, rho) ==
  LET t == T (/) "298.15" r == rho (/) "1000" r2 == Sqr(r)
      k1 == "14.70333593" (/) t
      k2 == ("212.8462733" (/) t) (+) "-115.4445173" (+) ("19.55210915" (.) t)
      k3 == ("-83.30347980" (/) t) (+) ("32.13240048" (.) t) (+) ("-6.694098645" (.) Sqr(t))
      k4 == ("-37.86202045" (/) Sqr(t)) (+) ("68.87359646" (/) t) (+) "-27.29401652"
  IN "1" (+) (k1 (.) r) (+) (k2 (.) r2) (+) (k3 (.) r2 (.) r) (+) (k4 (.) Sqr(r2))
\* ---------------------------------------------------------------- gases; R T and P V in J/mol with P in bar, V in J/bar
Rg == "8.31451"
\* residual Helmholtz energies at a temperature and volume
PengRobinson(T, V, a, b) ==
  LET q == RSqrt("2") IN (Rg (.) T (.) RLn(V (/) (V (-) b))) (-) ((a (/) ("2" (.) q (.) b)) (.) RLn((V (+) (("1" (+) q) (.) b)) (/) (V (+) (("1" (-) q) (.) b))))
RedlichKwong(T, V, a, b) == (Rg (.) T (.) RLn(V (/) (V (-) b))) (-) ((a (/) b) (.) RLn("1" (+) (b (/) V)))
Alpha(k, Tr) == Sqr("1" (+) (k (.) ("1" (-) RSqrt(Tr))))
Poly(w, c) == LET RECURSIVE p(_) p(s) == IF s = <<>> THEN "0" ELSE Head(s) (+) (w (.) p(Tail(s))) IN p(c)
KPrsv(c, T) ==
  LET Tr == T (/) c[1] k0 == Poly(c[3], <<"0.378893", "1.4897153", "-0.17131848", "0.0196554">>) q == RSqrt(Tr) IN
  k0 (+) ((c[4] (+) (c[5] (.) (c[6] (-) Tr) (.) ("1" (-) q))) (.) ("1" (+) q) (.) ("0.7" (-) Tr))
KPr78(c) == IF RLe(c[3], "0.491") THEN Poly(c[3], <<"0.37464", "1.54226", "-0.26992">>) ELSE Poly(c[3], <<"0.379642", "1.48503", "-0.164423", "0.0166666">>)
KSrk(c) == Poly(c[3], <<"0.48", "1.574", "-0.176">>)
\* attraction and covolume of the cubic equations; c: Tc, Pc, acentric factor, k1, k2, k3 (zero above Tc)
CubicA(m, c, T) ==
  LET Tr == T (/) c[1] f == Sqr(Rg (.) c[1]) (/) c[2] IN
  CASE m = 312 -> "0.457235" (.) f (.) Alpha(KPrsv(c, T), Tr)
    [] m = 316 -> "0.457235529" (.) f (.) Alpha(KPr78(c), Tr)
    [] OTHER -> "0.42747" (.) f (.) Alpha(KSrk(c), Tr)
CubicB(m, c) == (((CASE m = 312 -> "0.077796" [] m = 316 -> "0.0777960739" [] OTHER -> "0.08664") (.) Rg) (.) c[1]) (/) c[2]
CubicF(m, c, T, V) == IF m = 314 THEN RedlichKwong(T, V, CubicA(m, c, T), CubicB(m, c)) ELSE PengRobinson(T, V, CubicA(m, c, T), CubicB(m, c))
CubicP(m, c, T, V) ==
  LET a == CubicA(m, c, T) b == CubicB(m, c) IN
  ((Rg (.) T) (/) (V (-) b)) (-) (a (/) (IF m = 314 THEN V (.) (V (+) b) ELSE (V (.) (V (+) b)) (+) (b (.) (V (-) b))))
\* the other volumes the cubic has at this pressure: V^3 + c2 V^2 + c1 V + c0 divided by the known root
CubicOther(m, c, T, P, V) ==
  LET a == CubicA(m, c, T) b == CubicB(m, c) w == (Rg (.) T) (/) P
      c2 == IF m = 314 THEN RNeg(w) ELSE b (-) w
      c1 == IF m = 314 THEN ((a (/) P) (-) Sqr(b)) (-) (b (.) w) ELSE ((a (/) P) (-) ("3" (.) Sqr(b))) (-) ("2" (.) b (.) w)
      p == c2 (+) V q == c1 (+) (V (.) p)
      D == Sqr(p) (-) ("4" (.) q)
  IN IF RLt(D, "0") THEN {} ELSE {v \in {"0.5" (.) (RSqrt(D) (-) p), "0.5" (.) (RNeg(p) (-) RSqrt(D))} : RLt(b, v)}
\* Sterner and Pitzer (1994); density in mol/cm3
StpH2O == <<<<"0.0", "0.0", "0.24657688e6", "0.51359951e2", "0.0", "0.0">>,
           <<"0.0", "0.0", "0.58638965", "-0.28646939e-2", "0.31375577e-4", "0.0">>,
           <<"0.0", "0.0", "-0.62783840e1", "0.14791599e-1", "0.35779579e-3", "0.15432925e-7">>,
           <<"0.0", "0.0", "0.0", "-0.42719875", "-0.16325155e-4", "0.0">>,
           <<"0.0", "0.0", "0.56654978e4", "-0.16580167e2", "0.76560762e-1", "0.0">>,
           <<"0.0", "0.0", "0.0", "0.10917883", "0.0", "0.0">>,
           <<"0.38878656e13", "-0.13494878e9", "0.30916564e6", "0.75591105e1", "0.0", "0.0">>,
           <<"0.0", "0.0", "-0.65537898e5", "0.18810675e3", "0.0", "0.0">>,
           <<"-0.14182435e14", "0.18165390e9", "-0.19769068e6", "-0.23530318e2", "0.0", "0.0">>,
           <<"0.0", "0.0", "0.92093375e5", "0.12246777e3", "0.0", "0.0">>>>
StpCO2 == <<<<"0.0", "0.0", "0.18261340e7", "0.79224365e2", "0.0", "0.0">>,
           <<"0.0", "0.0", "0.0", "0.66560660e-4", "0.57152798e-5", "0.30222363e-9">>,
           <<"0.0", "0.0", "0.0", "0.59957845e-2", "0.71669631e-4", "0.62416103e-8">>,
           <<"0.0", "0.0", "-0.13270279e1", "-0.15210731", "0.53654244e-3", "-0.71115142e-7">>,
           <<"0.0", "0.0", "0.12456776", "0.49045367e1", "0.98220560e-2", "0.55962121e-5">>,
           <<"0.0", "0.0", "0.0", "0.75522299", "0.0", "0.0">>,
           <<"-0.39344644e12", "0.90918237e8", "0.42776716e6", "-0.22347856e2", "0.0", "0.0">>,
           <<"0.0", "0.0", "0.40282608e3", "0.11971627e3", "0.0", "0.0">>,
           <<"0.0", "0.22995650e8", "-0.78971817e5", "-0.63376456e2", "0.0", "0.0">>,
           <<"0.0", "0.0", "0.95029765e5", "0.18038071e2", "0.0", "0.0">>>>
StpF(f, T, V) ==
  LET t == IF f = "H2O" THEN StpH2O ELSE StpCO2 r == "1" (/) ("10" (.) V)
      c == [i \in 1..10 |-> RTerms(t[i], T, <<"-4", "-2", "-1", "0", "1", "2">>, "1", <<"0", "0", "0", "0", "0", "0">>)]
      term(a, b) == (a (/) b) (.) (RExp(RNeg(b (.) r)) (-) "1")
  IN Rg (.) T (.) (((c[1] (.) r) (+) ("1" (/) Poly(r, SubSeq(c, 2, 6)))) (-) ("1" (/) c[2]) (-) term(c[7], c[8]) (-) term(c[9], c[10]))
\* compensated Redlich-Kwong (Holland and Powell 1991); a in kJ2 kbar-1 K1/2, here in J and bar: 1 kJ2/kbar = 1000 J2/bar
CorkAH2O(T, liquid) ==
  LET x == "673" (-) T y == T (-) "673" IN
  "1000" (.) (IF RLt(T, "673") THEN (IF liquid THEN Poly(x, <<"1113.4", "-0.88517", "4.53e-3", "-1.3183e-5">>) ELSE Poly(x, <<"1113.4", "5.8487", "-2.1370e-2", "6.8133e-5">>))
              ELSE Poly(y, <<"1113.4", "-0.22291", "-3.8022e-4", "1.7791e-7">>))
CorkA(f, T, liquid) == IF f = "H2O" THEN CorkAH2O(T, liquid) ELSE "1000" (.) Poly(T, <<"659.8", "0.21078", "-6.3976e-4">>)
CorkB(f) == IF f = "H2O" THEN "1.465" ELSE "3.057"
CorkF(f, T, V, liquid) == RedlichKwong(T, V, CorkA(f, T, liquid) (/) RSqrt(T), CorkB(f))
CorkPsat(T) == "1000" (.) ("-13.627e-3" (+) ("7.29395e-7" (.) RPow(T, "2")) (-) ("2.34622e-9" (.) RPow(T, "3")) (+) ("4.83607e-15" (.) RPow(T, "5")))
CorkP0(f) == IF f = "H2O" THEN "2000" ELSE "5000"
CorkVirial(f, T, P) ==
  LET x == (P (-) CorkP0(f)) (/) "1000" IN
  IF RLe(x, "0") THEN "0"
  ELSE IF f = "H2O" THEN ("-8.909e-2" (.) RSqrt(x)) (+) ("1.9853e-3" (.) x) (+) ("8.0331e-2" (.) RSqrt(RSqrt(x)))
  ELSE (("-1.78198e-1" (+) ("2.45317e-5" (.) T)) (.) RSqrt(x)) (+) (("5.40776e-3" (-) ("1.59046e-6" (.) T)) (.) x)
\* corresponding states: the chemical potential (above the ideal gas at 1 bar) as a function of pressure, J and bar
CorkMu(c, T, P) ==
  LET k == "0.00831451" p == P (/) "1000" pc == c[2] (/) "1000" s == RSqrt(c[1])
      a == ((("5.45963e-5" (.) Sqr(c[1])) (.) s) (/) pc) (+) (((("-8.6392e-6" (.) c[1]) (.) s) (.) T) (/) pc)
      b == ("9.18301e-4" (.) c[1]) (/) pc
      cc == (("-3.30558e-5" (.) c[1]) (+) ("2.30524e-6" (.) T)) (/) (pc (.) RSqrt(pc))
      d == (("6.93054e-7" (.) c[1]) (+) ("-8.38293e-8" (.) T)) (/) Sqr(pc)
      x == k (.) T
  IN "1000" (.) ((x (.) RLn(P)) (+) (b (.) p) (+) ((a (/) (b (.) RSqrt(T))) (.) (RLn(x (+) (b (.) p)) (-) RLn(x (+) ("2" (.) b (.) p))))
                 (+) (("2" (/) "3") (.) cc (.) p (.) RSqrt(p)) (+) ("0.5" (.) d (.) Sqr(p)))
\* departures at a temperature, pressure and volume from the residual Helmholtz energy F(T, V)
GasPressure(F(_, _), T, V) == LET f(v) == F(T, v) IN ((Rg (.) T) (/) V) (-) Deriv(f, V)
LnPhi(F(_, _), T, P, V) == LET z == (P (.) V) (/) (Rg (.) T) IN (F(T, V) (/) (Rg (.) T)) (+) (z (-) "1") (-) RLn(z)
Departure(F(_, _), T, P, V) ==
  LET f(t) == F(t, V) aT == Deriv(f, T) z == (P (.) V) (/) (Rg (.) T) IN
  [H |-> (F(T, V) (-) (T (.) aT)) (+) (P (.) V) (-) (Rg (.) T), S |-> (Rg (.) RLn(z)) (-) aT]
=============================================================================
