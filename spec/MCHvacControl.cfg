SPECIFICATION Spec
CONSTANTS Temps = {"17", "20", "25"} Devices <- MCDevices
INVARIANTS NeverHeatsAbove NeverCoolsBelow DeadBandOff FullPower Unmanaged HeatersOnlyHeat
