---------------------------- MODULE WaterTriple ----------------------------
(* Properties of liquid water at the triple point (cal/mol, cal/(mol K)) by their source. *)
WaterTriple == [HKF_HGK_1974 |-> [S |-> "15.1320", G |-> "-56290", H |-> "-68767", U |-> "-67887", A |-> "-55415"],
                NEA_HGK |-> [S |-> "15.1386", G |-> "-56279.9", H |-> "-68766.44", U |-> "-67921.9", A |-> "-55434.49"],
                NEA_IAPWS |-> [S |-> "15.1374", G |-> "-56279.9", H |-> "-68766.76", U |-> "-67922.22", A |-> "-55434.49"]]
=============================================================================
