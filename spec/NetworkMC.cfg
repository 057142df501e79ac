SPECIFICATION Spec
INVARIANTS LabelsRight FlowRight
CHECK_DEADLOCK FALSE
CONSTANTS N = 3 Costs <- CostsDef Caps = {0, 1, 2}
