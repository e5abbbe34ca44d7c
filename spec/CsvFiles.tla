----------------------------- MODULE CsvFiles ------------------------------
(* The manager of the three files of calculated properties (kinds th, so, el).  The state has, for every file name, the
   lines it contains, and for every manager and kind the file that is open and whether its header was written.

   Commands: csv_new, csv_del, csv_open, csv_close, csv_write (values base+1, base+2, ...), csv_read, csv_unlink      *)
EXTENDS VF, RealArith

Headers == [th |-> <<"Substance", "T(C)", "P(bar)", "G0(J/mol)", "H0(J/mol)", "S0(J/molK)", "Cp0(J/molK)", "Cv0(J/molK)", "V0(J/bar)", "A0(J/mol)", "U0(J/mol)">>,
            so |-> <<"Substance", "T(C)", "P(bar)", "Rho(kg/m3)", "Rho_dT((kg/m3)/K)", "Rho_dP((kg/m3)/Pa)", "Rho_d2T((kg/m3)/K2)", "Rho_dTdP((kg/m3)/KPa)",
                      "Rho_d2P((kg/m3)/Pa2", "Aplha(1/K)", "Alpha_dT", "Beta(1/Pa)">>,
            el |-> <<"Substance", "T(C)", "P(bar)", "bornN(Pa-2)", "bornQ(Pa-1)", "bornU(Pa-1K-1)", "bornX(K-2)", "bornY(K-1)", "bornZ", "eps", "eps_dP", "eps_d2P",
                      "eps_dT", "eps_dTdP", "eps_d2T">>]
Kinds == {"th", "so", "el"}
Closed == [f |-> "", header |-> FALSE]
Init0 == [files |-> NoFcn, open |-> NoFcn]
Reset(st) == Init0
\* ----------------------------------------------------------------------------------------------------------------
Line(c) == [i \in 1..Len(Headers[c.kind]) |->
              IF i = 1 THEN <<"text", c.s>> ELSE IF i = 2 THEN <<"num", c.T>> ELSE IF i = 3 THEN <<"num", c.P>> ELSE <<"num", RAdd(c.base, RNum(i - 3))>>]
HeaderLine(k) == [i \in 1..Len(Headers[k]) |-> <<"text", Headers[k][i]>>]
Step1(s, c) ==
  CASE c.op = "csv_new" -> [s EXCEPT !.open = Upd(@, c.h, [k \in Kinds |-> Closed])]
    [] c.op = "csv_del" -> [s EXCEPT !.open = Del(@, c.h)]
    [] c.op = "csv_open" -> [s EXCEPT !.open[c.h][c.kind] = [f |-> c.f, header |-> FALSE], !.files = Upd(@, c.f, <<>>)]
    [] c.op = "csv_close" -> [s EXCEPT !.open[c.h][c.kind] = Closed]
    [] c.op = "csv_write" ->
         LET o == s.open[c.h][c.kind] IN
         IF o.f = "" THEN s      \* nothing is open: the row goes nowhere, and the header of the next file is not touched
         ELSE [s EXCEPT !.files[o.f] = @ \o (IF o.header THEN <<>> ELSE <<HeaderLine(c.kind)>>) \o <<Line(c)>>,
                        !.open[c.h][c.kind].header = TRUE]
    [] c.op = "csv_unlink" -> [s EXCEPT !.files = Del(@, c.f)]
    [] OTHER -> s
\* a file that is open in no manager
Free(s, f) == \A h \in DOMAIN s.open : \A k \in Kinds : s.open[h][k].f # f
CellOk(t, x) == IF x[1] = "text" THEN t = x[2] ELSE GenText(t, x[2], 6, "1e-12")
LinesOk(ls, xs) == Len(ls) = Len(xs) /\ \A i \in DOMAIN ls : Len(ls[i]) = Len(xs[i]) /\ \A j \in DOMAIN ls[i] : CellOk(ls[i][j], xs[i][j])

Expect(s, e) == IF e.c.op = "csv_read" THEN [exists |-> e.c.f \in DOMAIN s.files, lines |-> Get(s.files, e.c.f, <<>>)] ELSE e.c
Allowed(s, e) ==
  LET c == e.c IN
  /\ e.ok
  /\ (c.op = "csv_new" => e.r.folder)
  /\ (c.op = "csv_open" => e.r.name = c.f)
  /\ (c.op = "csv_read" => (e.r.exists = (c.f \in DOMAIN s.files)) /\ LinesOk(e.r.lines, Get(s.files, c.f, <<>>)))
Step(s, e) == Step1(s, e.c)
=============================================================================
