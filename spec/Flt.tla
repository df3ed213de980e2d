-------------------------------- MODULE Flt --------------------------------
(* Real-number arithmetic for the physical quantities of the specification. *)
(* TLC's integers are 32 bits wide and it has no reals, so every operator   *)
(* here is overridden by spec/java/Flt.java (IEEE-754 doubles).  The TLA+   *)
(* definitions below only give the arities; the overrides are the meaning.  *)
LOCAL INSTANCE Naturals
F(a) == CHOOSE x : TRUE            \* the float denoted by a string / integer
FAdd(a, b) == CHOOSE x : TRUE
FSub(a, b) == CHOOSE x : TRUE
FMul(a, b) == CHOOSE x : TRUE
FDiv(a, b) == CHOOSE x : TRUE
FMod(a, b) == CHOOSE x : TRUE      \* result in [0, b)
FNeg(a) == CHOOSE x : TRUE
FAbs(a) == CHOOSE x : TRUE
FMin(a, b) == CHOOSE x : TRUE
FMax(a, b) == CHOOSE x : TRUE
FSqrt(a) == CHOOSE x : TRUE
FExp(a) == CHOOSE x : TRUE
FLn(a) == CHOOSE x : TRUE
FPow(a, b) == CHOOSE x : TRUE
FSin(a) == CHOOSE x : TRUE
FCos(a) == CHOOSE x : TRUE
FTan(a) == CHOOSE x : TRUE
FAsin(a) == CHOOSE x : TRUE
FAcos(a) == CHOOSE x : TRUE
FAtan2(a, b) == CHOOSE x : TRUE
FFloor(a) == CHOOSE n \in Nat : TRUE  \* integers
FCeil(a) == CHOOSE n \in Nat : TRUE
FRound(a) == CHOOSE n \in Nat : TRUE
FLt(a, b) == CHOOSE x \in BOOLEAN : TRUE
FLe(a, b) == CHOOSE x \in BOOLEAN : TRUE
FEq(a, b) == CHOOSE x \in BOOLEAN : TRUE
FIsNaN(a) == CHOOSE x \in BOOLEAN : TRUE
FIsFinite(a) == CHOOSE x \in BOOLEAN : TRUE
FClose(a, b, rel, abs) == CHOOSE x \in BOOLEAN : TRUE
FSum(s) == CHOOSE x : TRUE         \* sum of a sequence
FDot(s, t) == CHOOSE x : TRUE      \* scalar product of two sequences
FStr(a) == CHOOSE x \in STRING : TRUE
FPi == "3.141592653589793"
FNear(a, b) == FClose(a, b, "1e-9", "1e-9")
=============================================================================
