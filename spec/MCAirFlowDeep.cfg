SPECIFICATION Spec
CONSTANTS Spaces = {1, 2} Temps = {0, 10, 20} Winds = {0, 3, 7}
CONSTANTS Configs <- MCConfigs Buildings <- MCBuildings
INVARIANTS NonNegative Untouched
PROPERTIES Calm Memoryless
