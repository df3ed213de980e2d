SPECIFICATION Spec
CONSTANTS Temps = {"17", "18", "19", "20", "22", "24", "25"} Devices <- MCDevices
INVARIANTS NeverHeatsAbove NeverCoolsBelow DeadBandOff FullPower Unmanaged HeatersOnlyHeat
