SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC03
