SPECIFICATION TSpec
CONSTANTS
  BytesOf <- TBytes
  Focus = "all"
  CompareErrors = FALSE
INVARIANTS TypeOK Nested AcceptsWhole
CHECK_DEADLOCK FALSE
