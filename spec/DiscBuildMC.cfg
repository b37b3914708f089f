SPECIFICATION Spec
CONSTANTS
  MaxAdds = 3
  MaxGroups = 2
  Fails = {"fst", "file2"}
  Faults = 1
  MidFinish = TRUE
CONSTRAINT Bounded
INVARIANTS NeverIncomplete Exact Reported Disjoint
CHECK_DEADLOCK FALSE
