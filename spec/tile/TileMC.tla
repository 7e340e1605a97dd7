------------------------------- MODULE TileMC -------------------------------
EXTENDS Tile, IOUtils
Env(n) == atoi(IOEnv[n])
cC == [n |-> Env("T_N"), m |-> Env("T_M"), y |-> Env("T_Y"), object |-> IOEnv["T_OBJECT"] = "1"]
cWs == Env("T_W1")..Env("T_W2")   cK == Env("T_K")
cComplete == IOEnv["T_COMPLETE"] = "1"
cTolerant == IOEnv["T_TOLERANT"] = "1"
cDateRank(v) == IF IOEnv["T_RANK16"] = "1" THEN 16 ELSE IF v < 16 THEN v ELSE 16
==============================================================================
