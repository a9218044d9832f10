SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC16
