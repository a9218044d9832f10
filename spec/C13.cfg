SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC13
