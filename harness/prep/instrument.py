"""Makes the instrumented copy of a package of the repository."""
import os, shutil, subprocess, sys


def make(repo, src, pkg, name, time=False):
    """/repo/<pkg> -> import path instr/<name> under src; time: sleeping is a scheduling point too"""
    tool = os.path.join(os.path.dirname(src), "instr-tool")
    r = subprocess.run(["go", "build", "-o", tool, "vgx/cmd/instr"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.exit(r.stdout)
    dst = os.path.join(src, "instr", name)
    for level in (("2t", "2", "1") if time else ("2", "1")):
        shutil.rmtree(dst, ignore_errors=True)
        r = subprocess.run([tool, level, os.path.join(repo, pkg), dst], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            r = subprocess.run(["go", "build", "instr/" + name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return
    sys.exit(r.stdout)
