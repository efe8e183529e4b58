from loops import LoopSpec
SPECS = {}
