SPECIFICATION MCSpec
CONSTANTS
  Formats = {"ASCIILogger"}
  Fields = {"u", "u_1"}
  Steps = {1}
  Ranks = {0, 1}
  Values = {"a", "b"}
INVARIANTS ReadsLatest FilesInjective OnePerKey
PROPERTY OnlySaveChanges
CHECK_DEADLOCK FALSE
