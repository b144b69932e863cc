"""Builds the current cocogen, generates code from specifications with it, and describes how to compile it."""
import glob
import os
import re
import shutil
from .core import REPO, VERIF, Inconclusive, sh, shq
from . import palm

COPRA = [REPO + "/copra/src/dynamic_core.c", REPO + "/copra/src/phase_driver.c"]


def copra_src():
    return sorted(glob.glob(REPO + "/copra/src/*.c"))


def build_cocogen(ctx):
    if getattr(ctx, "cocogen", None):
        return ctx.cocogen
    b = os.path.join(ctx.scratch, "build")
    env = dict(os.environ, CC="/usr/bin/gcc", LC_ALL="C")
    for v in ("CFLAGS", "LDFLAGS", "MAKEFLAGS"):
        env.pop(v, None)
    rc, o, e = sh(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo"], timeout=120, env=env)
    if rc == 0:
        rc, o, e = sh(["ninja", "-C", b, "cocogen/cocogen"], timeout=400, env=env)
        if rc != 0:
            rc, o, e = sh(["ninja", "-C", b], timeout=400, env=env)
    exe = b + "/cocogen/cocogen"
    if rc != 0 or not os.path.exists(exe):
        raise Inconclusive("cocogen does not build: " + (o + e)[-800:])
    ctx.cocogen = exe
    return exe


class Gen:
    """generated code of one specification"""

    def __init__(self, spec, dir, user_types):
        self.spec, self.dir = spec, dir
        self.includes = [dir + "/gen", dir + "/gen/ccngen", REPO + "/copra", palm.PINC, dir]
        self.user_types = user_types

    def src(self, exclude=("user",), only=None):
        out = sorted(glob.glob(self.dir + "/gen/*.c"))
        return [f for f in out if only is None or os.path.basename(f) in only]


def generate(ctx, spec, user_types=None, expect_ok=True):
    """Runs cocogen on the specification; a crash, hang or rejection of a valid one is a violation."""
    exe = build_cocogen(ctx)
    d = os.path.join(ctx.scratch, "gen-" + spec.name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    f = d + "/" + spec.name + ".ccn"
    with open(f, "w") as h:
        h.write(spec.render())
    with open(d + "/user_types.h", "w") as h:
        h.write("#pragma once\n#define CCN_USES_UNSAFE_ACKNOWLEDGE\n" + (user_types or "") + "\n")
    rc, o, e = sh([exe, "--gen-dir", d + "/gen/", f], timeout=30, cwd=d)
    if rc != 0 and expect_ok:
        what = "cocogen %s on a valid specification" % (
            "does not finish" if rc == "timeout" else "crashes (status %s)" % rc if rc not in (1,) else "reports errors")
        spec_violation(ctx, spec, what, (o + e)[-1500:])
        return None
    g = Gen(spec, d, user_types)
    g.status, g.log = rc, (o + e)[-1500:]
    return g


def spec_violation(ctx, spec, what, log, body=None):
    """A violation shown by running the current cocogen (no solver input involved)."""
    d = os.path.join(VERIF, "evidence", "replay", ctx.prop, "spec_" + re.sub(r"\W", "_", spec.name))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + "/spec.ccn", "w") as h:
        h.write(spec.render())
    with open(d + "/run.sh", "w") as h:
        h.write("#!/bin/bash\n# %s\nset -e\ncd \"$(dirname \"$0\")\"\nw=$(mktemp -d)\ntrap 'rm -rf \"$w\"' EXIT\n"
                "cmake -S %s -B $w/b -G Ninja >/dev/null\nninja -C $w/b >/dev/null\n"
                "timeout 30 $w/b/cocogen/cocogen --gen-dir $w/gen/ spec.ccn\n%s" % (what, shq(REPO), body or ""))
    with open(d + "/log.txt", "w") as h:
        h.write(log)
    ctx.violation("spec " + spec.name, what, d + "/run.sh", log)


def compiles(ctx, g, extra_flags=(), user=True):
    """The generated code must compile (it is what a user builds); otherwise a violation."""
    srcs = sorted(glob.glob(g.dir + "/gen/*.c") + (glob.glob(g.dir + "/gen/user/*.c") if user else []))
    import concurrent.futures as cf
    bad = []

    def one(s):
        rc, o, e = sh(["gcc", "-fsyntax-only", "-Werror=implicit-function-declaration"]
                      + ["-I" + i for i in g.includes] + [s], timeout=60)
        return s, rc, o + e
    with cf.ThreadPoolExecutor(8) as ex:
        for s, rc, log in ex.map(one, srcs):
            if rc != 0:
                bad.append((s, log))
    if bad:
        inc = "-I$w/gen -I$w/gen/ccngen -I%s/copra -I%s" % (REPO, palm.PINC)
        spec_violation(ctx, g.spec, "the generated code does not compile", bad[0][1][-1500:],
                       "for f in $w/gen/*.c; do gcc -fsyntax-only -Werror=implicit-function-declaration %s $f; done\n" % inc)
        return False
    return True
