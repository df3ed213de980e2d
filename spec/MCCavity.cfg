SPECIFICATION Spec
CONSTANTS Temps = {0, 5, 20, 40}
CONSTANTS Cavities <- MCCavities
INVARIANTS Sound Symmetric Stratified Unstable
PROPERTIES Approach Energy
CHECK_DEADLOCK FALSE
