SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC23
