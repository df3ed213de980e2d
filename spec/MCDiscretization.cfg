SPECIFICATION Spec
CONSTANTS Catalogue <- MCCatalogue
 Steps <- MCSteps
 MaxLayers = 3
 MaxDx = "0.05"
 MinDt = 60
INVARIANTS Minimal MassKept ResistanceKept Fine Shape Stable
PROPERTY Ends
CHECK_DEADLOCK FALSE
