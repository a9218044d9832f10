SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC18
