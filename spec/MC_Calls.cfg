SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Bounded Silent Tidy Unhindered
PROPERTIES Steadfast Answered
CONSTANTS
  ProbeLimit = 4
  Callers = {1, 2}
  Questions = {"collides", "penetrates", "sdfv"}
  Answers = {1, 2}
