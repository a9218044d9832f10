SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC07
