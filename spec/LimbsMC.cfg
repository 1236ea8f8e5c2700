INIT Init
NEXT Next
INVARIANT LimbLaws
INVARIANT ToyLaws
INVARIANT Kinds
