SPECIFICATION FSpec
CONSTANTS
  Blocks = {"b1", "b10"}
  Keys = {"q1", "q2"}
  Shapes <- ShapesC
  MaxEntries = 2
  TimeLens = {1, 2}
INVARIANTS RoundTrip TimeSlices Covers
CHECK_DEADLOCK FALSE
