"""Sensitivity and quietness test of the checks (development tool, not a check).
tools/mutants.txt holds entries:
  == <id> <property> [<property> ...]        (or  == <id> quiet <property> ...)
  file <path>
  <<<<
  old text
  ====
  new text
  >>>>
Usage: mutate.py [-j N] [id-or-property ...]"""
import sys, os, re, subprocess, tempfile, shutil, multiprocessing
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FSTRM_REPO", "/repo")

def load():
    out = []
    for src in (os.path.join(ROOT, "tools", "mutants.txt"),):
        cur = None; mode = None
        for l in open(src):
            if mode is None:
                m = re.match(r"== (\S+) (.*)", l)
                if m:
                    cur = {"id": m.group(1), "props": m.group(2).split(), "edits": []}; out.append(cur); continue
                m = re.match(r"file (\S+)", l)
                if m: f = m.group(1)
                elif l.startswith("<<<<"): mode = "old"; old = ""
            elif mode == "old":
                if l.startswith("===="): mode = "new"; new = ""
                else: old += l
            elif mode == "new":
                if l.startswith(">>>>"): cur["edits"].append((f, old, new)); mode = None
                else: new += l
    return out

def one(m):
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree(REPO, r, symlinks=True, ignore=shutil.ignore_patterns(".git", "tmp", "*.a", "*.so*", "t", "*.o", "*.lo", ".libs"))
        for f, old, new in m["edits"]:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) < 1: return m, None, "edit does not apply to %s: %r" % (f, old[:60])
            open(p, "w").write(s.replace(old, new, 1))
        res = []
        quiet = m["props"][0] == "quiet"
        for p in m["props"][1 if quiet else 0:]:
            x = subprocess.run(["python3", os.path.join(ROOT, "sa", "run.py", ), p], env=dict(os.environ, FSTRM_REPO=r, SA_OUT=d, VERIF_TIER="quick"), capture_output=True, text=True, timeout=1500)
            ok = (x.returncode == 0) if quiet else (x.returncode == 1 and "VIOLATION" in x.stdout)
            res.append((p, ok, x.returncode, x.stdout.strip().split("\n")[0][:230] + (x.stderr[-300:] if x.returncode not in (0, 1) else "")))
        return m, res, None
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    a = sys.argv[1:]; j = 4
    if a and a[0] == "-j": j = int(a[1]); a = a[2:]
    ms = [m for m in load() if not a or m["id"] in a or any(p in a for p in m["props"]) or any(m["id"].startswith(x) for x in a)]
    bad = 0
    with multiprocessing.Pool(j) as pool:
        for m, res, err in pool.imap_unordered(one, ms):
            if err: print("!!", m["id"], err, flush=True); bad += 1; continue
            for p, ok, rc, first in res:
                bad += not ok
                print("%s %s %s rc=%d %s" % ("ok  " if ok else "MISS", m["id"], p, rc, first), flush=True)
    print("%d problem(s)" % bad)
