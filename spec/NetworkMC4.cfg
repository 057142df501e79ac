SPECIFICATION Spec
INVARIANTS LabelsRight FlowRight
CHECK_DEADLOCK FALSE
CONSTANTS N = 4 Costs <- CostsFew Caps = {0, 1}
