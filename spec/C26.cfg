SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC26
