"""writes DESIGN.md: fixed text, one paragraph per property from tools/spec.py, and the records at the end"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import spec

head = r'''# Static verification of kino_dynamic_opt

Every claimed property is decided by static analysis of /repo's current source: nothing of
kino_dynamic_opt is run, neither concretely nor symbolically through a solver. `bin/check.py ID`
re-extracts whatever source changed since the last run (results are cached under `.cache`, keyed by
the content of all headers, sources and of the extractor), computes the summaries of the functions
in question, decides the obligations and names file, line and function of each violation.
`--tier thorough` runs the same decision procedure: the argument is over all inputs already, so there is no bound to deepen.

## 1 Machinery

| part | what it does |
|---|---|
| `extract/extract.cpp` | libTooling front end: each translation unit (and headers without one, through `stubs/`) becomes a JSON tree in which names, overloads, constants, templates and types are resolved by Clang. Built by `bin/setup.py`. |
| `kda/cxx.py`, `kda/py.py` | load those trees / Python ASTs; numpy and Python semantics for `.py` |
| `kda/nf.py` | hash-consed normal forms: polynomials over opaque atoms, non-commutative matrix products with transposition/blocks, comparisons reduced to `p<0`, `p<=0`, `p==0`, path conditions as ROBDDs, if-then-else lifted to the outside |
| `kda/summ.py` | guarded-effect summaries. A function becomes a set of effects *(location, value, path condition, enclosing loops)* plus calls in order and a returned value. Calls to functions of the repository are inlined; the callees listed as opaque by a check stay calls (each opaque callee is the subject of another obligation, or is listed as an assumption). Loops are summarised by their iteration count and closed forms (sums, products, min/max, element maps, last writes), fixed loops are unrolled, carried state that has no closed form becomes a recurrence that is compared as such. |
| `kda/libs.py` | models of Eigen, std:: and YAML operations by their documented algebra |
| `kda/facts.py` | comparison of two summaries: case split over path conditions, restriction of each value by its guard, matching of effects by location, and of unordered effects (objective terms, constraint rows) as multisets |
| `kda/ref.py`, `kda/pyref.py` | run the comparison between functions of /repo and reference functions in `spec/` |
| `checks/*.py` | the rules per property; `tools/spec.py` is the single source of properties.jsonl and MANIFEST.json (`python3 tools/gen.py`) |

### What a comparison decides, and why it is insensitive to style
The reference functions in `spec/*.cpp` and `spec/*.py` state what each function has to achieve. They
were written from the mathematics and the property texts, in a different style (other loop
structure, names, order, intermediate variables, vectorised vs. componentwise). They go through the
same extraction, so both sides are compared as normal forms: extracting helpers, renaming,
reordering independent statements, rewriting loops or conditions, early exits, hoisting, and
algebraic rewriting do not change the summary. The comparison is over *all* inputs, since inputs
are symbols.

Three outcomes: **holds**; **violated** (an effect at a location that is missing, additional, happens
under another condition or has another value; the witness in the evidence names the construct);
**undecided** – the analysis met a construct it has no model for, and the difference may stem from
it. Undecided is reported in the evidence and is silent (exit 0), so an unusual rewriting costs
sensitivity, never a false alarm.

### Assumptions common to all checks
Real arithmetic (no rounding, no overflow); library operations (Eigen, std, numpy, YAML, pinocchio)
do what they document; locations reached through differently named parameters do not alias unless the
code says so; memory safety as such is only decided where a property says so (E04, E06: indices past
the horizon). Logging and printing is not part of any summary.

## 2 Properties and how each is decided
Level is "other" for all (a static decision over all inputs relative to the model above, not a
machine-checked proof). Over what each quantifies is in properties.jsonl.

'''
rows = {
'A01':"Rule: for each `switch` over the parameter enumerations the summary of every `get`/`set` overload is split by enumerator; the returned location of all overloads must agree, `set` must write exactly it, no two enumerators share a location, no declared enumerator ends in the error branch. Obligations: (enumerator, overload) pairs.",
'A02':"Rule: summary of the three `initialize` functions as (parameter location <- YAML key path); compared with the key table `spec/config_keys.txt` (re-derived from the documentation and shipped files) by key, type and default; plus presence of each required key in all shipped YAML files (parsed as data). 4 obligations (via point lists sized from the file) are undecided in the value, decided in the key.",
'A03':"Rule over all classes with accessor pairs: const/mutable overloads and getter/setter resolve to the same canonical location; different names to different locations; setters store unconditionally.",
'A04':"Query over pybind11 `def*/value` calls: Python name -> C++ entity canonicalised by the A01/A03 locations, against `spec/bindings.txt`; names and entities must correspond one to one.",
}
mech = {
'B01':('cone.cpp',''),'B02':('exprs.cpp','plus ring rules: each operator overload must equal the polynomial its symbol states'),'B03':('problem.cpp',''),'B04':('problem.cpp','row/column writes are compared as sets of (row, column, value) families with their index ranges'),
'B05':('ipm.cpp',''),'B06':('ipm.cpp','plus the inverse rule: scale and unscale of one entry use the same factor'),'B07':('kkt.cpp',''),'B08':('bnb.cpp',''),'B09':('optvar.cpp',''),
'D01':('lqr.py',''),'D02':('lqr.py',''),'D03':('olqr.cpp',''),'D04':('olqr.cpp',''),'D05':('olqr.cpp',''),'D06':('olqr.cpp',''),
'E01':('dynopt.cpp','constraints are rows of a multiset of zero-polynomials over the decision variables, whatever the order or sign in which they are added'),'E02':('dynopt.cpp',''),'E03':('dynopt.cpp','the objective is the multiset of its terms'),'E04':('dynopt.cpp',''),
'E05':('cntopt.cpp',''),'E06':('dynfb.cpp',''),'E07':('util.cpp',''),'E08':('util.cpp',''),'E11':('states.cpp','zero vectors in any notation are one value'),'E10':('files.cpp','values are the arguments of the document\'s assignments'),'E09':('kinoptc.cpp','as E01/E03, with the optimiser\'s state written through pointers to the robot model'),
'F01':('minjerk.py, kinopt.py',''),'F02':('ik.py',''),'F03':('kinopt.py',''),
}

tail = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
out = head
for p in spec.CLAIMED:
    i = p["id"]
    out += "**%s %s** (%s). " % (i, p["title"], ", ".join(f.rsplit("/", 1)[-1] for f in p["files"][:4]))
    if i in rows:
        out += rows[i]
    else:
        f, x = mech[i]
        out += "Reference comparison of at least %d obligations with %s%s." % (p["min_obligations"], " and ".join("`spec/%s`" % y for y in f.split(", ")), "; " + x if x else "")
    out += " Limits: %s.\n\n" % p["note"].rstrip(".")
out += "## 3 Not applicable\n\n"
for p in spec.NOT_APPLICABLE:
    out += "* **%s %s**: %s\n" % (p["id"], p["title"], p["reason"])
known = json.load(open(os.path.join(ROOT, "known_findings.json")))
fixed = "".join("| %s | %s | %s |\n" % tuple(x.split("property=")[1].split(" ", 2)) for x in known["fixed"])
seeded = ""
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    seeded += "| %s | %s |\n" % (d, json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))["needs"])
out += tail.replace("@FIXED@\n", fixed).replace("@SEEDED@\n", seeded)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(out)
