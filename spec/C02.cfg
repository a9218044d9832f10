SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC02
