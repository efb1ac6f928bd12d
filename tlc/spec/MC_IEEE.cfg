CONSTANTS EW = 3
P = 3
WithFma = FALSE
INIT Init
NEXT Next
INVARIANTS AddOk SubOk MulOk DivOk SqrtOk SpecialOk OrdOk ConvOk IntegralOk ToIntOk
CHECK_DEADLOCK FALSE
