SPECIFICATION Spec
CONSTANTS
  MaxAdds = 3
  MaxGroups = 2
  Fails = {"names", "hdr", "app", "file1", "file2", "notmd"}
  Faults = 0
  MidFinish = TRUE
  Lens = {3}
CONSTRAINT Wanted
INVARIANTS NeverIncomplete Exact Disjoint Emit
CHECK_DEADLOCK FALSE
