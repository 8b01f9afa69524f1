#!/usr/bin/env python3
"""mk.py [id...]: (re)make /verif/seeded/<id>/ from tools/seeds/<batch>.py; demo kit = tools/seedkit"""
import sys, os, json, shutil, subprocess, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.environ.get("SEEDED", "/verif/seeded")
HEAD = "#![allow(dead_code, unused_imports, unused_mut, unused_variables)]\nmod kit;\nmod names;\nmod svm;\nmod world;\nuse kit::*;\n"
def load():
    out = []
    for f in sorted(glob.glob(HERE + "/batch*.py")):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        out += m.SEEDS
    return out
def make(s):
    d = f"{SEEDED}/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    scratch = f"/tmp/seedwt"
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(f"git clone -q /repo {scratch}", shell=True, check=True)
    for f, old, new in s["edits"]:
        p = f"{scratch}/{f}"; t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", scratch, "diff"], capture_output=True, text=True, check=True).stdout
    shutil.rmtree(scratch)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    kit = s.get("kit", "seedkit")
    if kit == "netkit":
        for f in ["node.py", "demo.sh"]:
            shutil.copy(f"/verif/tools/netkit/{f}", d)
        open(d + "/main.py", "w").write("from node import *\n" + s["main"] + "done()\n")
        return
    src = f"/verif/tools/{kit}"
    for f in ["Cargo.toml", "Cargo.lock", "demo.sh"]:
        shutil.copy(f"{src}/{f}", d)
    shutil.copytree(f"{src}/src", d + "/src")
    open(d + "/src/main.rs", "w").write(s.get("head", HEAD) + s["main"])
if __name__ == "__main__":
    want = sys.argv[1:]
    for s in load():
        if not want or s["id"] in want:
            make(s); print("made", s["id"])
