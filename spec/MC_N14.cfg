CONSTANT Quick = TRUE
INIT Init
NEXT Next
INVARIANT None
INVARIANT Overhead
INVARIANT Falls
INVARIANT Bounded
INVARIANT Wavelength
INVARIANT Along
