CONSTANTS EW = 3 P = 3 MaxLen = 6
INIT Init
NEXT Next
INVARIANTS ErrorsAgree Bracket Negated LeadingZero Nearest Flags RoundTrip
CHECK_DEADLOCK FALSE
