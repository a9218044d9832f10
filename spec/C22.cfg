SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC22
