SPECIFICATION TraceSpec
CONSTANT Judge <- JudgeC05
