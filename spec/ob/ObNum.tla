------------------------------- MODULE ObNum -------------------------------
(* Numeric operators, overridden in Java (java/ObNum.java). *)
EXTENDS Integers, Sequences
\* Gaussian smoothing (sigma 1) of an h*w map in row-major order over the places that have a value; -1: no value.
\* Places beyond the edge repeat the edge.
NumSmooth(h, w, v) == v
\* 10000 * log10(n)
NumLog(n) == 0
=============================================================================
