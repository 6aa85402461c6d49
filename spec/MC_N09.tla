-------------------------------- MODULE MC_N09 --------------------------------
(***************************************************************************)
(* Layout: the pipeline of axis permutations between the stages, as an     *)
(* explicit machine over tagged entries.  Stage tensors hold the tag       *)
(* <<batch, bs, ut>> of the link each entry belongs to; the machine walks  *)
(* through the stages and the final output must be indexed                 *)
(* [b][rx][tx] with the tag of exactly that pair, in both directions.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS MaxB, MaxN
VARIABLES stage, up, dim, t, swapped

Dims == [b : 1..MaxB, nb : 1..MaxN, nu : 1..MaxN]
Init == /\ stage = "rays" /\ up \in BOOLEAN /\ dim \in Dims /\ swapped = FALSE
        /\ t = [b \in 1..dim.b |-> [n \in 1..dim.nb |-> [u \in 1..dim.nu |-> <<b, n, u>>]]]
T12(x) == [b \in 1..Len(x) |-> [j \in 1..Len(x[1][1]) |-> [i \in 1..Len(x[1]) |-> x[b][i][j]]]]
(* BS x UT -> TX x RX *)
ToLinkEnds == /\ stage = "rays" /\ stage' = "coef"
              /\ t' = IF up THEN T12(t) ELSE t
              /\ swapped' = up          \* angles of arrival and departure exchanged
              /\ UNCHANGED <<up, dim>>
(* TX x RX -> RX x TX *)
ToOutput == /\ stage = "coef" /\ stage' = "out" /\ t' = T12(t) /\ UNCHANGED <<up, dim, swapped>>
Next == ToLinkEnds \/ ToOutput

Aligned == stage = "out" =>
    LET NRX == IF up THEN dim.nb ELSE dim.nu NTX == IF up THEN dim.nu ELSE dim.nb
    IN /\ Len(t) = dim.b /\ \A b \in 1..dim.b : Len(t[b]) = NRX /\ \A r \in 1..NRX : Len(t[b][r]) = NTX
       /\ \A b \in 1..dim.b : \A r \in 1..NRX : \A x \in 1..NTX :
             t[b][r][x] = <<b, IF up THEN r ELSE x, IF up THEN x ELSE r>>
ExchangedInUplink == stage # "rays" => (swapped <=> up)
===============================================================================
