SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC27
