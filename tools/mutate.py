"""Sensitivity and quietness corpus: tools/mutants.txt (edits a check has to report) and tools/refactors.txt (edits it has to stay quiet on).

    python3 tools/mutate.py [mutants|refactors] [-k substring] [-p PROPERTY]

Entry format:   === PROPERTY file
                <old text>
                --- 
                <new text>
An entry may hold several edits (further "+++ file" blocks). Edits are applied to a scratch copy of /repo's sources, the property's
check runs on it (quick tier), and the copy is removed.
"""
import argparse, concurrent.futures as cf, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def entries(path):
    out = []
    for blk in re.split(r"^=== ", open(path).read(), flags=re.M)[1:]:
        head, rest = blk.split("\n", 1)
        prop, file = head.split()[:2]
        edits = []
        for i, part in enumerate(re.split(r"^\+\+\+ ", rest, flags=re.M)):
            if i:
                file, part = part.split("\n", 1)
                file = file.strip()
            a, b = re.split(r"^---[ ]*\n", part, maxsplit=1, flags=re.M)
            edits.append((file, a.rstrip("\n"), b.rstrip("\n")))
        out.append((prop, edits))
    return out


def run(args):
    k, prop, edits, kind = args
    d = tempfile.mkdtemp(prefix="kdamut.")
    try:
        for p in ("solver", "solver_lqr", "momentumopt"):
            shutil.copytree("/repo/" + p, d + "/" + p, ignore=shutil.ignore_patterns("build", ".git"), symlinks=True)
        for f, a, b in edits:
            s = open(d + "/" + f, newline="").read()
            if "\r\n" in s:
                a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
            if s.count(a) < 1:
                return k, prop, edits, "STALE", "text not found in " + f + ": " + a[:80]
            if s.count(a) > 1:
                return k, prop, edits, "STALE", "text ambiguous in " + f + ": " + a[:80]
            open(d + "/" + f, "w", newline="").write(s.replace(a, b))
        env = dict(os.environ, KDA_REPO=d, KDA_EVIDENCE=d)
        r = subprocess.run([sys.executable, os.path.join(HERE, "..", "bin", "check.py"), prop], env=env, capture_output=True, text=True)
        first = next((l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "violated" in l), r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr.strip()[-300:])
        want = 1 if kind == "mutants" else 0
        return k, prop, edits, "ok" if r.returncode == want else "BAD rc=%d" % r.returncode, first
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("kind", nargs="?", default="mutants")
    ap.add_argument("-k", default="")
    ap.add_argument("-p", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--from", type=int, default=0, dest="start")
    a = ap.parse_args()
    es = [(i, p, e, a.kind) for i, (p, e) in enumerate(entries(os.path.join(HERE, a.kind + ".txt"))) if a.p in p and i >= a.start and any(a.k in x for y in e for x in y)]
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for k, prop, edits, res, msg in ex.map(run, es):
            if res != "ok" or a.v:
                print("#%d %s %s: %s | %s -> %s | %s" % (k, prop, res, edits[0][0].split("/")[-1], edits[0][1].strip()[:90].replace("\n", "\\n"), edits[0][2].strip()[:90].replace("\n", "\\n"), msg[:400]))
            bad += res != "ok"
    print("%d entries, %d not as expected" % (len(es), bad))


main()
