SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC06
