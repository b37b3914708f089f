SPECIFICATION Spec
CONSTANTS
  MaxAdds = 2
  MaxGroups = 2
  Fails = {"fst", "names", "hdr", "bi2", "bigbi2", "app", "dol", "file1", "file2", "notmd", "bigtmd"}
  Faults = 0
  MidFinish = TRUE
  Lens = {1, 2}
CONSTRAINT Wanted
INVARIANTS NeverIncomplete Exact Disjoint Emit
CHECK_DEADLOCK FALSE
