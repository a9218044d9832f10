SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC14
