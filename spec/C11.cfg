SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC11
