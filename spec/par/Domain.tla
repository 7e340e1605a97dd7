------------------------------ MODULE Domain ------------------------------
(* Which parameter values each pixel-level function takes. A value is [t: type, n: number in thousandths]; the types:  *)
(* "int", "npint" (integers), "real", "npreal" (not integers), "bool", "nan", "none", "str", "list".                  *)
EXTENDS Integers, Sequences, FiniteSets
Far == 2000000
Whole(v) == v.t \in {"int", "npint"}
Number(v) == v.t \in {"int", "npint", "real", "npreal"}
\* bounds in thousandths; open: the bound itself is outside
Domain == [
  t_cg |-> [kind |-> "real", lo |-> 0, loopen |-> TRUE],
  pos |-> [kind |-> "whole", lo |-> 0, loopen |-> TRUE],
  conse |-> [kind |-> "whole", lo |-> 0, loopen |-> TRUE, hi |-> 12000, hiopen |-> TRUE],
  b_output_cm |-> [kind |-> "flag"],
  starting_date |-> [kind |-> "whole", lo |-> 0, loopen |-> FALSE],
  n_cm |-> [kind |-> "whole", lo |-> 0, loopen |-> FALSE],
  cm_output_interval |-> [kind |-> "whole", lo |-> 0, loopen |-> FALSE],
  b_c2 |-> [kind |-> "flag"],
  gap_days |-> [kind |-> "real", lo |-> 0, loopen |-> FALSE],
  b_pinpoint |-> [kind |-> "flag"],
  gate_tcg |-> [kind |-> "real", lo |-> 0, loopen |-> TRUE],
  b_monitor_init |-> [kind |-> "flag"],
  predictability_tcg |-> [kind |-> "real", lo |-> 0, loopen |-> TRUE],
  dist_conse |-> [kind |-> "whole", lo |-> 0, loopen |-> TRUE, hi |-> 6000, hiopen |-> FALSE],
  t_cg_scale100 |-> [kind |-> "real", lo |-> 0, loopen |-> TRUE],
  t_cg_singleband_scale1000 |-> [kind |-> "real"],
  t_angle_scale100 |-> [kind |-> "whole", lo |-> 0, loopen |-> TRUE, hi |-> 18000000, hiopen |-> TRUE],
  transform_mode |-> [kind |-> "flag"]]
Params == [
  cold_detect |-> <<"t_cg", "pos", "conse", "b_output_cm", "starting_date", "n_cm", "cm_output_interval", "b_c2", "gap_days">>,
  obcold_reconstruct |-> <<"pos", "conse", "b_c2">>,
  sccd_detect |-> <<"t_cg", "pos", "conse", "b_c2", "b_pinpoint", "gate_tcg", "b_monitor_init">>,
  sccd_update |-> <<"t_cg", "pos", "conse", "b_c2", "gate_tcg", "predictability_tcg">>,
  sccd_identify |-> <<"dist_conse", "t_cg_scale100", "t_cg_singleband_scale1000", "t_angle_scale100", "transform_mode">>]
Functions == DOMAIN Params
MaxConse == 8000                     \* of the stochastic functions
Above(d, n) == "lo" \notin DOMAIN d \/ n > d.lo \/ (n = d.lo /\ ~d.loopen)
Below(d, n) == "hi" \notin DOMAIN d \/ n < d.hi \/ (n = d.hi /\ ~d.hiopen)
\* "in", "out", or "either" where the documentation is silent (truth values as numbers and the reverse)
Within(f, p, v) ==
  LET d == Domain[p] IN
  CASE d.kind = "flag" -> IF v.t = "bool" THEN "in" ELSE IF Whole(v) THEN "either" ELSE "out"
    [] OTHER -> IF v.t = "bool" THEN "either"
                ELSE IF ~(IF d.kind = "whole" THEN Whole(v) ELSE Number(v)) THEN "out"
                ELSE IF ~Above(d, v.n) \/ ~Below(d, v.n) THEN "out"
                ELSE IF p = "conse" /\ f \in {"sccd_detect", "sccd_update"} /\ v.n > MaxConse THEN "out"
                ELSE "in"
\* a call: a partial function from parameters to values; the others have their defaults
Verdict(f, call) == IF \E p \in DOMAIN call : Within(f, p, call[p]) = "out" THEN "reject"
                    ELSE IF \E p \in DOMAIN call : Within(f, p, call[p]) = "either" THEN "either" ELSE "accept"
\* ---- series: dims[i] is the shape of the i-th ----
ShapeVerdict(dims) == IF \A i \in 1..Len(dims) : Len(dims[i]) = 1 /\ dims[i][1] = dims[1][1] THEN "accept" ELSE "reject"
BreakVerdict(shape) == IF Len(shape) = 1 THEN "accept" ELSE "reject"          \* any number of break dates
=============================================================================
