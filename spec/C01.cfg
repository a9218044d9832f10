SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC01
