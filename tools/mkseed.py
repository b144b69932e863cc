"""mkseed(id, prop, [(file, old, new)...], demo_text, needs, breaks, extra_files): write a seeded bug folder."""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mkseed(i, prop, edits, demo, needs, breaks, files=None):
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=n commit -qm x" % (t, t), shell=True)
        for f, old, new in edits:
            s = open(t + "/" + f).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(t + "/" + f, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.check_output("git -C %s diff" % t, shell=True, text=True))
    finally:
        shutil.rmtree(t)
    open(d + "/demo.sh", "w").write(demo)
    for n, c in (files or {}).items():
        open(d + "/" + n, "w").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
