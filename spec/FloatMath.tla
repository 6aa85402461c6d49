------------------------------ MODULE FloatMath ------------------------------
(***************************************************************************)
(* Real arithmetic for the channel specification, evaluated by TLC through *)
(* the Java class FloatMath (java/FloatMath.java) with IEEE-754 binary64.  *)
(*                                                                         *)
(* A number is an integer, a decimal string such as "32.45" (a constant of *)
(* the standard written in the specification), or the normal form          *)
(* <<hi, lo>>, the two halves of a binary64 number.  All operators accept  *)
(* all three.  The definitions below are only placeholders: TLC replaces   *)
(* every one of them by the Java method of the same name.                  *)
(***************************************************************************)
LOCAL Override == CHOOSE x \in {} : TRUE

F(a) == Override            \* normal form of a number
FAdd(a, b) == Override
FSub(a, b) == Override
FMul(a, b) == Override
FDiv(a, b) == Override
FNeg(a) == Override
FAbs(a) == Override
FSqrt(a) == Override
FSqr(a) == Override
FExp(a) == Override
FLn(a) == Override
FLog10(a) == Override
FPow(a, b) == Override
FSin(a) == Override         \* all angles in radian
FCos(a) == Override
FTan(a) == Override
FAsin(a) == Override
FAcos(a) == Override
FAtan(a) == Override
FAtan2(y, x) == Override
FFloor(a) == Override
FRint(a) == Override        \* nearest integer (as a number)
FMod(a, b) == Override      \* a - b*floor(a/b)
FMin(a, b) == Override
FMax(a, b) == Override
FLt(a, b) == Override       \* comparisons are FALSE on NaN
FLe(a, b) == Override
FEq(a, b) == Override
FIsFinite(a) == Override
FIsNaN(a) == Override
FToInt(a) == Override       \* TLC integer
FToStr(a) == Override
FSingle(a) == Override      \* rounded to binary32
FNear(a, b, abs, rel) == Override    \* |a-b| <= abs + rel*max(|a|,|b|)
FSum(s) == Override
FMaxSeq(s) == Override
FMinSeq(s) == Override
FDot(s, t) == Override
CSum(s) == Override         \* sum of a sequence of complex numbers <<re, im>>
CSumAll(s) == Override      \* the same over nested sequences
CMul(a, b) == Override
FIsNull(a) == Override      \* JSON null
CExpI(a) == Override        \* e^(j a)
CDot(s, t) == Override      \* sum of products, no conjugation
FBesselJ1(a) == Override
FArgSort(s) == Override     \* indices in stable ascending order
FNearAll(a, b, abs, rel) == Override \* leaf by leaf over nested sequences
FAllFinite(a) == Override
FFlatten(a) == Override
FLoadJson(path) == Override
FLoadNdJson(path) == Override
=============================================================================
