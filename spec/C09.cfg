SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC09
