------------------------------ MODULE MemoGen ------------------------------
(* Random walks over several memoised functions at once. *)
EXTENDS Memo
VARIABLES w, st, hist
Kind(sig) == CASE sig = "ref" -> Pick(<<"all", "N", "N">>) [] sig = "val" -> Pick(<<"all", "last", "lastptr", "N", "N">>) [] OTHER -> Pick(<<"all", "last", "N", "N">>)
NewCmd(h, s) == [op |-> "memo_new", h |-> h, sig |-> s, kind |-> Kind(s), n |-> Pick(<<0, 1, 2, 3, 4, 7>>)]
RT(x) == Pick(<<"1", "2", "3", "4.25", "0", "-1", "nan", "inf">>)
RS(x) == Pick(<<"", "a", "b", "ab", "ba", "abc">>)
Call(h, sig) == [op |-> "memo_call", h |-> h] @@ [fail |-> Chance(12)] @@
  (CASE sig = "one" -> [k |-> Rnd(6)] [] sig = "val" -> [T |-> RT(0), s |-> RS(0)] [] OTHER -> [T |-> RT(0), P |-> Pick(<<"0", "1.5", "3">>), s |-> RS(0)])
Cmd(s) == LET h == Pick(<<"f", "g", "h">>) IN
          IF h \notin DOMAIN s \/ Chance(3) THEN NewCmd(h, Pick(<<"one", "val", "ref">>)) ELSE Call(h, s[h].sig)
W == INSTANCE WalkBase WITH Start <- Init0
WInit == W!WInit
WNext == W!WNext
=============================================================================
