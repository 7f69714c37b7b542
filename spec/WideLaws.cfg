INIT Init
NEXT Next
INVARIANTS GroupsOk FromGroupsOk VarintOk ZigZagOk AddOk I16Ok
CHECK_DEADLOCK FALSE
