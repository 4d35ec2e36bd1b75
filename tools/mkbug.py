"""mkbug.py FILE.. : makes /verif/seeded/<id>/ from bug descriptions (python dicts), patch taken against /repo HEAD."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SCR = "/tmp/mkbug_scratch"
def sh(*a, **k): return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout
def make(b):
    shutil.rmtree(SCR, ignore_errors=True)
    sh("git", "clone", "-q", "/repo", SCR)
    for i, (f, old, new) in enumerate(b["edits"]):
        p = os.path.join(SCR, f); s = open(p).read()
        n = s.count(old)
        want = b.get("counts", {}).get(i, b.get("count", 1))
        if n != want: return print(f"{b['id']}: {n} matches (want {want}) in {f} for:\n{old}")
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(OUT, b["id"]); os.makedirs(d, exist_ok=True)
    diff = sh("git", "-C", SCR, "diff")
    shutil.rmtree(SCR)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if b["prop"] == "C17":
        lib = open(os.path.join(HERE, "../josekit/src/lib.rs")).read().replace("//!", "//")
        open(os.path.join(d, "josekit.rs"), "w").write("#![allow(dead_code, unused_imports)]\n" + lib)
        shutil.copy(os.path.join(HERE, "demo-jwe.sh"), os.path.join(d, "demo.sh"))
    else:
        for f in ("support.rs", "demo.sh"): shutil.copy(os.path.join(HERE, f), os.path.join(d, f))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(b["demo"].lstrip("\n"))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("made", b["id"])
for f in sys.argv[1:]:
    ns = {}; exec(open(f).read(), ns)
    for b in ns["BUGS"]: make(b)
