CONSTANTS Quick = TRUE
INIT Init
NEXT Next
INVARIANTS Confluent Served
