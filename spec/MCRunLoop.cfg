SPECIFICATION Spec
CONSTANTS
 Houses <- MCHouses
 Weathers <- MCWeathers
 Scripts <- MCScripts
 Ns <- MCNs
 Fails <- MCFails
 Initial <- MCInitial
INVARIANTS Paced Complete Failed Nothing Aware Dated Inside Weatherly Thermostat NoAlarm
PROPERTIES Devices Passive Ordered Terminates
CHECK_DEADLOCK FALSE
