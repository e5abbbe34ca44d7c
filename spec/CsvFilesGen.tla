---------------------------- MODULE CsvFilesGen ----------------------------
(* Random histories of two managers over a few files.  Each file belongs to one manager and kind, so that no file is
   open twice.                                                                                                       *)
EXTENDS CsvFiles, TLC
VARIABLES w, st, hist
Hs == <<"a", "b">>
Ks == <<"th", "so", "el">>
Num(x) == CASE Rnd(4) = 1 -> Pick(<<"0", "1e5", "25", "-1", "1000000", "123456", "0.0001">>) [] OTHER -> RndReal("-2000", "200000", 3)
File(h, k) == h \o k \o Pick(<<"1.csv", "2.csv">>)
Cmd(s) ==
  LET h == Pick(Hs) k == Pick(Ks) f == File(h, k) d == Rnd(100) IN
  IF h \notin DOMAIN s.open THEN [op |-> "csv_new", h |-> h]
  ELSE IF d <= 15 THEN [op |-> "csv_open", h |-> h, kind |-> k, f |-> f]
  ELSE IF d <= 25 THEN [op |-> "csv_close", h |-> h, kind |-> k]
  ELSE IF d <= 28 THEN [op |-> "csv_del", h |-> h]
  ELSE IF d <= 30 /\ Free(s, f) THEN [op |-> "csv_unlink", f |-> f]
  ELSE IF d <= 50 THEN [op |-> "csv_read", f |-> f]
  ELSE [op |-> "csv_write", h |-> h, kind |-> k, s |-> Pick(<<"H2O@", "Ca+2", "x">>), T |-> Num(0), P |-> Num(0), base |-> Num(0)]
Do(s, c) == Step1(s, c)
W == INSTANCE WalkBase WITH Start <- Init0
WInit == W!WInit
WNext == W!WNext
=============================================================================
