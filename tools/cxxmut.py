"""Sensitivity and quietness of the C++ checks: textual edits of the given files, analysed in scratch copies.

  tools/cxxmut.py CHECK FILE[,FILE...] mut|ref [-k substr] [-n max] [-j jobs] [-f function substr]
mut: edits that change what the code does (some are equivalent by accident, some do not compile) - should be reported
ref: edits that keep it - must stay quiet
CHECK is a property id or module:function."""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SWAPS = [("lmom_", "amom_"), ("lmomd_", "amomd_"), ("ub_var_", "lb_var_"), ("+", "-"), ("*", "+"), ("==", "!="), ("&&", "||"), ("<", "<="), (">", ">="), (">=", ">"), ("<=", "<"), ("!=", "=="), ("||", "&&"),
         ("true", "false"), ("std::min", "std::max"), ("std::max", "std::min"), ("sin", "cos"), ("cos", "sin"), ("push_back", "resize"), ("first", "second"), ("X", "Y"), ("UB", "LB")]


def strip(line):
    return re.sub(r'"[^"]*"', lambda m: '"' + "~" * (len(m.group(0)) - 2) + '"', re.sub(r"//.*", lambda m: " " * len(m.group(0)), line))


def muts(lines):
    depth, incom = 0, False
    for n, raw in enumerate(lines):
        if "/*" in raw:
            incom = True
        if incom:
            if "*/" in raw:
                incom = False
            continue
        l = strip(raw)
        if l.lstrip().startswith(("#", "using", "namespace", "template", "class", "struct", "typedef", "case", "public", "private", "protected")) or not l.strip():
            continue
        for a, b in SWAPS:
            pat = r"(?<![\w])" + re.escape(a) + r"(?![\w])" if a[0].isalpha() else r"(?<![-+*<>=!&|/\[(,]) *(" + re.escape(a) + r")(?![-+<>=&|*]) *"
            for m in re.finditer(pat, l):
                s, e = m.span(1) if m.groups() else m.span()
                if a == "<" and re.search(r"(vector|Matrix|shared_ptr|unique_ptr|cast|array|Ref|Map|get|map|Array|head|segment|block|tail|list|pair|include|queue|deque)\s*$", l[:s]):
                    continue
                yield n, "%s->%s" % (a, b), raw[:s] + b + raw[e:]
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", l):
            yield n, "const", raw[:m.start()] + str(int(m.group(1)) + 1) + raw[m.end():]
        for m in re.finditer(r"(?<![\w])(\d+\.\d*)(?!\w)", l):
            yield n, "fconst", raw[:m.start()] + str(float(m.group(1)) + 0.5) + raw[m.end():]
        for m in re.finditer(r"\b(\w*(?:_id|_ind|idx))\b(?=[\]),])", l):
            yield n, "index", raw[:m.end()] + "-1" + raw[m.end():]
        s = l.strip()
        if s.endswith(";") and not re.match(r"(return|break|continue|[\w:<>, ]+[&*]? \w+( = .*|\(.*\))?;$|\w[\w:<>, ]* \w+,)", s) and s.count("(") == s.count(")") and not s.startswith(("}", "for")):
            yield n, "delete", ""
        if s in ("break;", "continue;"):
            yield n, "delete", ";"
        m = re.match(r"(\s*)if \((.*)\)( \{.*| *)$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            yield n, "negate", m.group(1) + "if (!(" + raw[m.start(2):m.end(2)] + "))" + raw[m.start(3):]
            yield n, "always", m.group(1) + "if (true)" + raw[m.start(3):]


def refs(lines):
    for n, raw in enumerate(lines):
        l = strip(raw)
        if l.lstrip().startswith(("#", "using", "namespace", "template", "class", "struct", "typedef", "case")) or not l.strip():
            continue
        s = l.strip()
        ind = raw[:len(raw) - len(raw.lstrip())]
        if s.endswith(";") and s.count("(") == s.count(")") and not s.startswith(("return", "break", "continue", "throw", "}", "for", "else", "if")) and raw.startswith("    "):
            yield n, "noop", raw + " { int unused_local = 0; (void)unused_local; }"
        for m in re.finditer(r"\b(\w+)\+\+(?=\))", l):
            yield n, "preinc", raw[:m.start()] + "++" + m.group(1) + raw[m.end():]
        m = re.match(r"(\s*)([\w.\[\]()>-]+) ([-+*])= ([^;]*);$", l)
        if m and m.group(2).count("(") == m.group(2).count(")") and not m.group(2).startswith("auto"):
            yield n, "assignop", "%s%s = %s %s (%s);" % (m.group(1), m.group(2), m.group(2), m.group(3), raw[m.start(4):m.end(4)])
        for m in re.finditer(r"\(([\w.\[\]]+) (==|!=) ([\w.\[\]:]+)\)", l):
            yield n, "flipeq", raw[:m.start()] + "(%s %s %s)" % (m.group(3), m.group(2), m.group(1)) + raw[m.end():]
        for m in re.finditer(r"([ (])([\w.]+) (<|>|<=|>=) ([\w.]+)([;)])", l):
            yield n, "fliplt", raw[:m.start()] + "%s%s %s %s%s" % (m.group(1), m.group(4), {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[m.group(3)], m.group(2), m.group(5)) + raw[m.end():]
        m = re.match(r"(\s*)if \((.*)\) \{\s*$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            yield n, "dneg", m.group(1) + "if (!!(" + raw[m.start(2):m.end(2)] + ")) {"
        m = re.match(r"(\s*)for \((?:int|auto) (\w+) ?= ?0; ?(.*)\) ?\{?", l)
        if m and raw.count(m.group(2)) > 2:
            body = []
            d = 0
            for k in range(n, min(n + 200, len(lines))):
                t = strip(lines[k])
                d += t.count("{") - t.count("}")
                body.append(k)
                if d <= 0 and (k > n or "{" in t):
                    break
            else:
                continue
            if d == 0 and "{" in l:
                yield n, "rename", ("multi", {k: re.sub(r"(?<![\w.])%s\b" % m.group(2), m.group(2) + "_renamed", lines[k]) for k in body})
        m = re.match(r"(\s*)(\S.*?) = ([^=;]+);$", l)
        if m and re.fullmatch(r"[\w.\[\]()]+", m.group(2)) and m.group(2).count("(") == m.group(2).count(")") and m.group(3).count("(") == m.group(3).count(")") and re.match(r"^[^{]*$", m.group(3)):
            yield n, "paren", "%s%s = (%s);" % (m.group(1), raw[m.start(2):m.end(2)], raw[m.start(3):m.end(3)])


def main():
    a = sys.argv[1:]
    opt = {}
    for o, d in (("-k", ""), ("-n", "100000"), ("-j", "7"), ("-f", ""), ("-l", "")):
        if o in a:
            i = a.index(o)
            opt[o] = a[i + 1]
            del a[i:i + 2]
        else:
            opt[o] = d
    check, files, mode = a
    jobs = []
    for f in files.split(","):
        text = open("/repo/" + f).read()
        lines = text.split("\n")
        lo, hi = (int(x) for x in opt["-l"].split("-")) if opt["-l"] else (1, 10 ** 9)
        for n, what, new in (muts if mode == "mut" else refs)(lines):
            if not lo <= n + 1 <= hi:
                continue
            ls = list(lines)
            if isinstance(new, tuple):
                for k, x in new[1].items():
                    ls[k] = x
            else:
                ls[n] = new
            d = "%s:%d %s | %s" % (os.path.basename(f), n + 1, what, ls[n].strip()[:110] if ls[n].strip() else "(-) " + lines[n].strip()[:110])
            if opt["-k"] in d:
                jobs.append((f, "\n".join(ls), d))
    random.Random(1).shuffle(jobs)
    jobs = jobs[:int(opt["-n"])]
    print(len(jobs), "edits")
    tmp = tempfile.mkdtemp(prefix="cxxmut")
    free = []
    for j in range(int(opt["-j"])):
        d = "%s/r%d" % (tmp, j)
        subprocess.run(["rsync", "-a", "--exclude=.git", "--exclude=build", "/repo/", d] if shutil.which("rsync") else ["cp", "-a", "/repo", d])
        free.append(d)
    drv = "import sys; sys.path.insert(0,%r)\nfrom kda.core import Ctx\nimport importlib\nc=Ctx('X','quick',1)\nm,f=%r.split(':')\ngetattr(importlib.import_module('checks.'+m),f)(c)\nb=[o for o in c.obs if o[1]=='violated']; u=[o for o in c.obs if o[1]=='undecided']\nprint('V' if b else 'U' if u else 'Q', (b or u or [('',)*4])[0][3][:160])\n"
    if ":" not in check:
        sys.path.insert(0, VERIF + "/tools")
        import spec
        check = next(p["run"] for p in spec.CLAIMED if p["id"] == check)

    def run(job):
        f, text, d = job
        r = free.pop()
        try:
            open(os.path.join(r, f), "w").write(text)
            p = subprocess.run([sys.executable, "-c", drv % (VERIF, check)], capture_output=True, text=True, timeout=900, env={**os.environ, "KDA_REPO": r})
            out = p.stdout.strip().split("\n")[-1] if p.returncode == 0 and p.stdout.strip() else "X " + p.stderr.strip().split("\n")[-1][:160]
        except subprocess.TimeoutExpired:
            out = "T"
        finally:
            shutil.copyfile("/repo/" + f, os.path.join(r, f))
            free.append(r)
        print(out[0], d, "" if out[0] == "Q" else "   <" + out[2:140] + ">", flush=True)
        return out[0]
    with ThreadPoolExecutor(int(opt["-j"])) as ex:
        res = list(ex.map(run, jobs))
    print({k: res.count(k) for k in sorted(set(res))})
    shutil.rmtree(tmp)


main()
