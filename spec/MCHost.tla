------------------------------- MODULE MCHost -------------------------------
(* Host with the guard that the environment names left out.                  *)
EXTENDS Naturals, Sequences, TLC, IOUtils
VARIABLES st, at, depth, spin, used, hist
M == <<IOEnv.ZV_G, IOEnv.ZV_S>>
INSTANCE Host WITH Missing <- M
=============================================================================
