---- MODULE MCAirFlow ----
EXTENDS AirFlow
MCConfigs == {[type |-> "none"], [type |-> "Constant", flow |-> "0.1"], [type |-> "Blast", flow |-> 2], [type |-> "Doe2", flow |-> 1],
              [type |-> "Design", phi |-> 1, a |-> 1, b |-> 0, c |-> 2, d |-> 1], [type |-> "Leakage", area |-> 3]}
MCBuildings == {[state |-> "ok", stack |-> "none", wind |-> "none", storeys |-> 2, shelter |-> "Urban"],
                [state |-> "none", stack |-> "none", wind |-> "none", storeys |-> -1, shelter |-> "none"]}
====
