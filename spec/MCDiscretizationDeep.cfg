SPECIFICATION Spec
CONSTANTS Catalogue <- MCCatalogue
 Steps <- MCSteps
 MaxLayers = 4
 MaxDx = "0.05"
 MinDt = 60
INVARIANTS Minimal MassKept ResistanceKept Fine Shape Stable
CHECK_DEADLOCK FALSE
