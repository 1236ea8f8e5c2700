INIT Init
NEXT Next
