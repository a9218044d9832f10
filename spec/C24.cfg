SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC24
