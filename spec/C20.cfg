SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC20
