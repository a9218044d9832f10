SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC08
