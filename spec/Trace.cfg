INIT Init
NEXT Next
CONSTANT
  Root <- RootOf
  TooBig <- VTooBig
  Sorted <- SortedKeys
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
