import glob
from .core import REPO, HARNESS
PINC = REPO + "/palm/include"
def src(*names):
    return [REPO + "/palm/src/" + n for n in names]
def all_src(exclude=()):
    return [f for f in sorted(glob.glob(REPO + "/palm/src/*.c")) if f.rsplit("/", 1)[1] not in exclude]
MODELS = [HARNESS + "/models/libc.c"]
FMT = [HARNESS + "/models/fmt.c"]
SPLIT = [HARNESS + "/models/splitmalloc.c"]
SPLIT_FLAGS = ["-Dmalloc=vf_malloc"]
SPLIT_UNWIND = ["vf_malloc.0:18"]
