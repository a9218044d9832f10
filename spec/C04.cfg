SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC04
