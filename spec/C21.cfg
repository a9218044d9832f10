SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC21
