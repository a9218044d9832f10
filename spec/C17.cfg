SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC17
