import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import instrument
instrument.make(sys.argv[1], sys.argv[2], "math/rand", "gxrand")

# the generators as the template gives them, with the configuration beside it
import re, shutil
import gogp
repo, src = sys.argv[1], sys.argv[2]
there, dest = repo + "/math/rand", os.path.join(src, "tpl/gprand")
os.makedirs(dest, exist_ok=True)
shutil.copy(there + "/rand.go", dest)
section = None
cfgs = {}
for line in open(there + "/rand.gpg"):
    line = line.strip()
    m = re.match(r"\[(.*)\]$", line)
    if m:
        section = cfgs.setdefault(m.group(1).strip(), {})
    elif "=" in line and not line.startswith(("#", ";", "//")) and section is not None:
        k, v = line.split("=", 1)
        section[k.strip()] = v.strip()
for name in ("32", "64"):
    with open(os.path.join(dest, "gp_%s_.go" % name), "w") as f:
        f.write(gogp.expand(open(there + "/rand.gp").read(), cfgs[name], {"once": set(), "todo": []}))
