"""Generates the lock-free containers from both forms of their templates, plain and with scheduling points."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gogp, instrument

repo, src = sys.argv[1], sys.argv[2]
for ext, more in ((".gp", ""), (".gp.go", "_go")):
    name = "lf" + more
    cfg = dict(PACKAGE="package " + name, VALUE_TYPE="int", GLOBAL_NAME_PREFIX="Lf", sections={})
    tpls = ["lfqueue", "lfdeque"]
    if ext == ".gp.go":
        tpls.append("ringbuffer")
    gogp.package([repo + "/stl/gp"], ext, {t: cfg for t in tpls}, os.path.join(src, "tpl", name))
    instrument.make(src, src, "tpl/" + name, name, time=True)
