---------------------------------- MODULE Lsp ----------------------------------
(***************************************************************************)
(* Large-scale parameters: joint distribution (TR 38.901 7.5 step 4 with   *)
(* the tables of TR 38.811).                                               *)
(***************************************************************************)
EXTENDS Tables, TLC

(* Lower-triangular Cholesky factor of the n x n matrix A(_, _); rows are   *)
(* sequences.  Undefined (NaN) entries if A is not positive definite.       *)
RECURSIVE CholRow(_, _, _, _, _)
CholRow(A(_, _), i, j, row, L) ==      \* row: entries 1..j-1 of row i
    IF j > i THEN row
    ELSE LET other == IF j = i THEN row ELSE L[j]
             s == FSub(A(i, j), FSum([k \in 1..(j - 1) |-> FMul(row[k], other[k])]))
             v == IF j = i THEN FSqrt(s) ELSE FDiv(s, L[j][j])
         IN CholRow(A, i, j + 1, Append(row, v), L)
RECURSIVE CholFrom(_, _, _, _)
CholFrom(A(_, _), n, i, L) ==
    IF i > n THEN L ELSE CholFrom(A, n, i + 1, Append(L, CholRow(A, i, 1, <<>>, L)))
Cholesky(A(_, _), n) == CholFrom(A, n, 1, <<>>)

CrossCholesky(cfg, los) ==
    LET C(i, j) == CrossCorr(cfg, los, i, j) IN Cholesky(C, 7)

(* Correlation of the same parameter i of two UTs at distance d, seen from  *)
(* the same BS, with LoS states s1, s2                                       *)
SpatialCorr(cfg, i, same, d, s1, s2) ==
    IF same THEN 1
    ELSE IF s1 # s2 THEN 0 ELSE FExp(FNeg(FDiv(d, CorrDist(cfg, s1, i))))

(* Upper limits of the spreads [deg] *)
Cap(i) == CASE i \in {2, 3} -> 104 [] i \in {6, 7} -> 52 [] OTHER -> "inf"
Vanishing(m) == FEq(m, "-inf")
===============================================================================
