SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC12
