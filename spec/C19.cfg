SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC19
