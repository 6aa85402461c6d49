CONSTANT Quick = FALSE
INIT Init
NEXT Next
INVARIANT None
INVARIANT Overhead
INVARIANT Falls
INVARIANT Bounded
INVARIANT Wavelength
INVARIANT Along
