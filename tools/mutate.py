#!/usr/bin/env python3
"""Development tool: samples small mutations of the library's headers and reports those no check notices.
   mutate.py N SEED [HEADER...]      (8 in parallel, one worker each, few runs)"""
import concurrent.futures as cf, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/MathUtils"
MAP = {
 "Angles.h": "C16 C05", "BoostFunctions.h": "C04 C16", "ChebyshevSeries1d.h": "C09 C03 C16 C13", "ChebyshevSeries2d.h": "C09 C03 C16 C13",
 "ChebyshevSeries3d.h": "C09 C03 C16 C13", "Check.h": "C05", "Complex.h": "C05", "Constants.h": "C05", "Convolution.h": "C05", "FFT.h": "C11 C05",
 "Functions.h": "C05", "Geometry.h": "C05", "Integration1d.h": "C10 C05", "Integration2d.h": "C10 C03", "Integration2dTriangle.h": "C10 C03 C16",
 "Interp1d.h": "C07 C01 C06 C16 C13", "Interp2d.h": "C07 C01 C06 C16 C13", "LookupTable1D.h": "C06 C01 C16 C13 C14", "LookupTable2D.h": "C06 C01 C16 C13 C14",
 "Maths.h": "C05", "Matrix.h": "C12 C05 C16 C14 C15 C13", "Matrix33.h": "C05 C12 C16 C14 C15", "Matrix66.h": "C05 C12 C16 C14 C15", "Polynomial.h": "C05 C04 C03",
 "PowerSeries1d.h": "C03 C09 C13", "PowerSeries2d.h": "C03 C09 C13", "PowerSeries3d.h": "C03 C09 C13", "QuadratureTables.h": "C10 C03 C16",
 "RegularGridInterpolator.h": "C08 C02 C16 C13", "RegularGridNearest.h": "C08 C02 C16 C13", "Spline.h": "C01 C13 C16", "StdVector.h": "C05", "Unit.h": "C05 C16",
 "Vector2d.h": "C05 C14 C15", "Vector3d.h": "C05 C14", "Vector6d.h": "C05 C14", "VectorGeneration.h": "C05", "VectorN.h": "C05 C14 C15 C12",
 "thirdparty/linterp.h": "C08 C02",
}
DECL = re.compile(r"^(\s+)((?:const\s+)?(?:std::vector<[^;()]*>|double|T|Scalar|Real|int|MatrixMN<\w+>|VectorN<\w+>|Eigen::Matrix<[^;()]*>|Eigen::VectorXd|std::array<[^;()]*>|unsigned int|YScalar|XReal|std::string|auto)\s+\w[\w, ]*(?:\s*=.*|\(.*\))?;.*)$")
def muts(f):
    out = []
    lines = open(os.path.join(SRC, f)).read().split("\n")
    depth_comment = False
    for i, l in enumerate(lines):
        c = l.split("//")[0]
        if not c.strip() or c.strip().startswith(("#", "*", "/*", "template", "using", "typedef", "namespace", "class", "struct", "public", "private", "protected")):
            continue
        m = DECL.match(c)
        if m and "return" not in c and not c.strip().startswith("static"):
            body = m.group(2)
            if not re.match(r"^const\s", body):
                out.append((i, m.group(1) + "static " + body, "static"))
        st = c.strip()
        if st.endswith(";") and not DECL.match(c) and not st.startswith(("return", "break", "}", "static", "virtual", "inline", "explicit", "friend")) and st.count("(") == st.count(")") and st.count("{") == st.count("}") and re.match(r"^[\w\*\(]", st):
            out.append((i, re.match(r"^\s*", c).group(0) + ";", "delete"))
        if st.endswith(";") and i + 1 < len(lines) and not st.startswith(("return", "break", "}", "virtual", "friend")) and st.count("(") == st.count(")"):
            for d in (1, 2, 3):             # this statement one, two or three lines later
                nxt = [x.split("//")[0].strip() for x in lines[i + 1:i + 1 + d]]
                if len(nxt) == d and nxt[-1].endswith(";") and not nxt[-1].startswith(("return", "break", "throw")) and all(not x or x.endswith(";") for x in nxt) and all(x.count("(") == x.count(")") and x.count("{") == x.count("}") for x in nxt):
                    out.append((i, "\0" + str(d), "later"))
        for pat, rep in ((r" \+ ", " - "), (r" - ", " + "), (r"\*", "/"), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "),
                         (r"&&", "||"), (r"\band\b", "or"), (r"\+= ", "= "), (r"\+= ", "-= "), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b2\b(?!\.)", "1"), (r"\b2\.", "3."), (r"\b1\.", "2."), (r"\b0\.(?!\d)", "1."),
                         (r"_x\b", "_y"), (r"_y\b", "_x"), (r"\bmax\b", "min"), (r"\bmin\b", "max"), (r"true", "false"), (r"false", "true"), (r"!(?=\w)", ""), (r"EXIT_FAILURE", "EXIT_SUCCESS"), (r"exit\(1\)", "exit(0)"), (r"\bcos\b", "sin"), (r"\bsin\b", "cos"),
                         (r"std::move\((\w[\w.]*)\)", r"\1"), (r"^(\s*)(if \(.*\)) \{", r"\1if (false) {")):
            for m2 in re.finditer(pat, c):
                new = c[:m2.start()] + m2.expand(rep) + c[m2.end():]
                if new != c:
                    out.append((i, new, "%s->%s" % (pat, rep)))
    return lines, out

def one(job):
    n, f, lines, (i, new, kind) = job
    w = "/tmp/mut/%d" % n
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree("/repo/src", w + "/src")
    ls = list(lines)
    if new.startswith("\0"):
        d = int(new[1:])
        ls[i:i + d + 1] = ls[i + 1:i + d + 1] + [ls[i]]
        new = "after: " + ls[i + d - 1].strip()
    else:
        ls[i] = new
    open(os.path.join(w, "src/MathUtils", f), "w").write("\n".join(ls))
    res = []
    verdict = "SURVIVED"
    for p in MAP[f].split():
        e = dict(os.environ, VERIF_REPO=w, VERIF_WORKERS="1", VERIF_RUNS=os.environ.get("MUT_RUNS", "3000"))
        try:
            r = subprocess.run(["python3", V + "/check.py", p], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            rc, o = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, o = 99, "timeout"
        if rc == 1:
            verdict = "killed " + p
            break
        if rc == 2 and "build failed" in o:
            verdict = "nobuild"
            break
        if rc != 0:
            verdict = "ERROR %s %s" % (p, o[-300:].replace("\n", " "))
            break
    shutil.rmtree(w, ignore_errors=True)
    return "%s | %s:%d [%s] %s  ==>  %s" % (verdict, f, i + 1, kind, lines[i].strip(), new.strip())

def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    hs = [h for h in sys.argv[3:] if h.endswith(".h")] or list(MAP)
    kinds = [h for h in sys.argv[3:] if not h.endswith(".h")]
    rnd = random.Random(seed)
    jobs = []
    allm = []
    for f in hs:
        lines, ms = muts(f)
        if kinds: ms = [m for m in ms if m[2] in kinds]
        allm += [(f, lines, m) for m in ms]
    print("candidates", len(allm), flush=True)
    if n and n < len(allm):
        # equal weight per header
        by = {}
        for a in allm: by.setdefault(a[0], []).append(a)
        for v in by.values(): rnd.shuffle(v)
        pick = []
        while len(pick) < n and any(by.values()):
            for v in by.values():
                if v and len(pick) < n: pick.append(v.pop())
        allm = pick
    jobs = [(k + seed * 100000,) + a for k, a in enumerate(allm)]
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_PAR", "8"))) as ex:
        for r in ex.map(one, jobs):
            print(r, flush=True)
main()
