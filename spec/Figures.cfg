SPECIFICATION FSpec
CONSTANTS
  Quantities = {1, 2, 3}
  Formats = {"png", "pdf", "pgf"}
  MaxCalls = 2
INVARIANTS SettingsBack NothingLeftOpen Complete EachOnce ShownWithOwnSettings
CHECK_DEADLOCK FALSE
