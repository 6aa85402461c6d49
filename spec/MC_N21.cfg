INIT Init
NEXT Next
INVARIANTS Consistent Complete SingleByDefault
