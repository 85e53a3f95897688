#!/usr/bin/env python3
"""Development-time helper: mutation testing of the checks.
mutate.py list                       prints the number of mutants per file
mutate.py run OUT SEED PART OF [N]   inside a private copy (see mutants.sh): tries mutants, appends results to OUT
A mutant is applied to /repo, built, run through the repository's tests and, if these pass, through the checks
of the file it is in, at the quick tier, until one reports a violation."""
import json, os, random, re, subprocess, sys, time
REPO = "/repo"
MAP = [
 ("fall/text/src/text_range", "C15 C14 C13"), ("fall/text/src/text_unit", "C15"), ("fall/text/src/text_edit", "C13 C03"),
 ("fall/text/src/", "C14 C13"),
 ("fall/tree/src/test_util", "C37 C34"), ("fall/tree/src/search", "C10 C24"), ("fall/tree/src/visitor", "C10"), ("fall/tree/src/ast", "C10 C11 C17"),
 ("fall/tree/src/edit", "C12"), ("fall/tree/src/util", "C01 C10"), ("fall/tree/src/", "C01 C10 C03 C04"),
 ("fall/parse/src/lex", "C05 C04 C03"), ("fall/parse/src/syn_engine/mod", "C03 C04"),
 ("fall/parse/src/syn_engine/pratt", "C07 C06 C03"), ("fall/parse/src/", "C06 C03 C04 C01 C05 C07 C08 C09 C33"),
 ("fall/gen/src/lib", "C34 C16 C18"), ("fall/gen/", "C16 C17 C18 C34"),
 ("fall/editor/src/ext", "C24"), ("fall/editor/src/hl", "C29"), ("fall/editor/src/", "C26 C27 C23 C24 C37 C29"),
 ("lang/fall/src/analysis", "C19 C20 C22 C21 C18 C16 C17"), ("lang/fall/src/editor/form", "C25"), ("lang/fall/src/editor/high", "C29"),
 ("lang/fall/src/editor/ref", "C21 C23"), ("lang/fall/src/editor/act", "C26 C23"), ("lang/fall/src/editor/", "C28 C23 C26 C29 C21 C25"),
 ("lang/fall/src/", "C11 C19 C20 C21 C16 C17 C28"), ("lang/fall/syntax/src/ast_ext", "C11 C19 C20 C16 C17"),
 ("lang/fall/syntax/src/lib", "C33 C05 C02 C08"), ("lang/rust/syntax/src/lib", "C33 C05 C09 C02"),
 ("lang/rust/syntax/src/", "C11 C33"),
 ("lang/rust/src/editor/act", "C27 C23"), ("lang/rust/src/editor/sym", "C30"), ("lang/rust/src/editor/fst", "C30"),
 ("lang/rust/src/editor/line", "C30"), ("lang/rust/src/editor/file", "C30"), ("lang/rust/src/editor/", "C28 C27 C23 C24 C29"),
 ("indxr/", "C31"), ("fall/test/src/", "C06 C07"), ("lang/json/src", "C33 C02"), ("lang/bnf/src", "C33 C02"), ("code/", "C35 C36"),
]
def props(f):
    for k, v in MAP:
        if f.startswith(k): return v.split()
    return []
SUBS = [(r"(?<![<=>!-])<(?![<=a-zA-Z'_(\[&:])", "<="), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
 (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "),
 (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.start\(\)", ".end()"), (r"\.end\(\)", ".start()"),
 (r"\bif (?!let)([^{]+) \{", r"if !(\1) {"), (r"\bif (?!let)([^{]+) \{", r"if true {"), (r"\bif (?!let)([^{]+) \{", r"if false {"),
 (r"left_biased", "right_biased"), (r"right_biased", "left_biased"), (r"\.rev\(\)", ""), (r"\.filter\(", ".skip_while("), (r"\.first\(", ".last("),
 (r"\.last\(", ".first("), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.find\(", ".rfind("),
 (r"\.rfind\(", ".find("), (r"\.skip\(1\)", ""), (r"\.take_while\(", ".filter("), (r"\bLeft\b", "Right"), (r"\bRight\b", "Left"),
 (r"^(\s*)([a-z_.&*]+(\.|\()[^={}]*;)\s*$", r"\1// \2"), (r"\.starts_with\(", ".ends_with("), (r"\.ends_with\(", ".starts_with("),
 (r"\.next\(\)", ".last()"), (r"\bSome\(([a-z_]+)\)\s*$", "None"), (r"\breturn None;", "()"), (r"\bcontinue\b", "()"), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"),
 (r"\.is_empty\(\)", ".is_empty() == false"), (r"\.trim\(\)", ""), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
 (r"\.ancestors\(", ".children("), (r"\bis_subrange_of\b", "intersects"), (r"\bLess\b", "Greater"), (r"\bNone => (None|return None)", "None => unreachable!()"),
 (r"\.parent\(\)\?", ""), (r"!([a-z(])", r"\1"), (r"\.sort[a-z_]*\([^;]*\);", ";"), (r"\.dedup\(\)", ".len()"), (r"\.chain\([^()]*\)", ""), (r"\.unwrap_or\(([^()]+)\)", ".unwrap()"),
 (r"\.nth\(([0-9])\)", ".nth(\\1 + 1)"), (r"\.or_else\(\|\| [^;]*\)", ""), (r"\bErr\b", "Ok"), (r"\.len\(\)", ".len() + 1"), (r"\.len\(\)", ".len() - 1"),
]
def files():
    out = subprocess.check_output(["git", "-C", REPO, "ls-files", "*.rs"], text=True).split()
    for f in out:
        if "/tests/" in f or "/bin/" in f or f.endswith("build.rs"): continue
        if f in ("lang/fall/syntax/src/fall.rs", "lang/rust/syntax/src/rust.rs"): continue
        if props(f): yield f
def mutants():
    for f in files():
        lines = open(f"{REPO}/{f}").read().split("\n")
        stop = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l and not l.startswith("    ")), len(lines))
        for i, l in enumerate(lines[:stop]):
            s = l.strip()
            if not s or s.startswith(("//", "use ", "#", "pub use", "extern", "mod ", "pub mod", "fn ", "pub fn", "impl", "where", "assert", "let parser_json")) or len(l) > 200: continue
            seen = set()
            for n, (a, b) in enumerate(SUBS):
                for m in re.finditer(a, l):
                    r = l[:m.start()] + m.expand(b) + l[m.end():]
                    if r != l and r not in seen:
                        seen.add(r)
                        yield (f, i, l, r)
def sh(cmd, t):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 99, ""
if sys.argv[1] == "list":
    from collections import Counter
    c = Counter(m[0] for m in mutants())
    for f, n in sorted(c.items()): print(n, f)
    print(sum(c.values()))
else:
    out, seed, part, of = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    pat = sys.argv[6] if len(sys.argv) > 6 else ""
    ms = [m for m in mutants() if re.search(pat, m[0])]
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)["m"]) for l in open(out)}
    random.Random(seed).shuffle(ms)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    w = os.environ.get("MUT_W", "0")
    for k, m in enumerate(ms):
        if k % of != part or m in done: continue
        f, i, l, r = m
        p = f"{REPO}/{f}"
        orig = open(p).read()
        ls = orig.split("\n"); assert ls[i] == l
        ls[i] = r
        t0 = time.time()
        open(p, "w").write("\n".join(ls))
        res, by, log = "?", None, ""
        try:
            rc, o = sh("timeout -k 5 300 bash /opt/vp/build.sh", 320)
            if rc: res = "nobuild"
            else:
                sh(f"timeout -k 5 120 bash /opt/vp/test.sh /tmp/mut.{w}.json", 140)
                try: got = set(json.load(open(f"/tmp/mut.{w}.json"))["passed"])
                except Exception: got = set()
                if base - got: res = "tests"
                else:
                    res = "SURVIVED"
                    for c in props(f):
                        rc, o = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout -k 5 600 ./check.sh {c} quick", 620)
                        if rc == 1: res, by = "caught", c; break
                        if rc: res, by, log = "ODD", f"{c}:{rc}", o[-600:]; break
        finally:
            open(p, "w").write(orig)
        with open(out, "a") as h: h.write(json.dumps({"m": m, "res": res, "by": by, "log": log, "t": round(time.time() - t0)}) + "\n")
