SPECIFICATION Spec
CONSTANTS
  Kinds = {"outdoor", "space", "ambient", "ground", "adiabatic"}
  Rays = 4
  Temps = {"-5", "22"}
  Rows <- Coefs
  Skies <- S
  Initial = {"0", "300"}
  Steps = 3
INVARIANTS Whole Bounded NoExchange DarkNight Shade Positive
PROPERTIES Left Halves
CHECK_DEADLOCK FALSE
