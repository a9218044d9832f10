SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC10
