SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC25
