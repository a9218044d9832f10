SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC15
