#!/usr/bin/env python3
"""Mutation runs: small changes of /repo's sources in scratch copies, each run against the checks.

usage: mutate.py OUT.jsonl [--files a.c,b.c] [--scale N] [--jobs N] [--every K] [--offset K] [--only FILE.jsonl]
Survivors are listed in OUT.jsonl with "by": null; --only repeats the survivors of an earlier run.
Nothing here is used by the registered checks.
"""
import argparse, json, os, re, shutil, subprocess, sys, threading, time, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mu"
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("--files", default=""); ap.add_argument("--scale", type=int, default=4)
ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--every", type=int, default=1); ap.add_argument("--offset", type=int, default=0)
ap.add_argument("--only"); ap.add_argument("--list", action="store_true")
A = ap.parse_args()
ALL = [l.split('"id": "')[1].split('"')[0] for l in open(V + "/properties.jsonl")]
ORDER = {
    "kvtree.c": "T01 T02 T03 T04 T06 S02 S03 S01 T08 S05 S04 T07 P01 G01 A01 T09 F01 F02 S06 F04 G03".split(),
    "kvtree_util.c": "T05 T08 T07 T09 A01".split(),
    "kvtree_io.c": "S06 F04 F01 F05 S03 F03 T07 F02 A01 T08".split(),
    "kvtree_helpers.c": "T04 S02 S06 A01 T05".split(),
    "kvtree_mpi.c": "M01 M02 M03 M04 T09 T07 A01".split(),
    "kvtree_mpi_io.c": "G02 G03 G04 G05 M04 F01 T07 F04 A01".split(),
    "kvtree_print.c": "P02".split(),
    "kvtree_err.c": "A01".split(),
}
FIRST = [("sort|list_int|cmp_fn", "T06"), ("write_to_gather|scatter_single", "G01 G03 G05 F01 T07 F04 A01"), ("print|log", "P01 P02 T08"), ("setf|getf", "T04 A01"), ("merge", "T02"),
         ("_kv", "T03"), ("lock", "S03 F04 F01 T08 F03 F02"), ("read_f|write_f|read_persist|write_persist", "S02 S03 S04 F01 F04 F05 T08"), ("pack", "S01 S02 S05")]
REST = "T01 T02 T05 T07 T08 T09 S01 S03 S05 S06 A01 F01 F04 G01 G02 G05 M02".split()
def order(m):
    o = []
    for p, l in FIRST:
        if m["file"] == "kvtree.c" and re.search(p, m["func"]): o += l.split()
    for c in ([] if o else ORDER[m["file"]]) + REST + ORDER[m["file"]]:
        if c not in o: o.append(c)
    return o
def strip(line):
    """blanks comments and strings, same length"""
    o, i, n = "", 0, len(line)
    while i < n:
        if line.startswith("/*", i):
            e = line.find("*/", i + 2); e = n if e < 0 else e + 2
            o += " " * (e - i); i = e
        elif line.startswith("//", i): o += " " * (n - i); i = n
        elif line[i] in "\"'":
            q, j = line[i], i + 1
            while j < n and line[j] != q: j += 2 if line[j] == "\\" else 1
            j = min(j + 1, n); o += "_" * (j - i); i = j
        else: o += line[i]; i += 1
    return o
OPS = [
    (r"(?<![<>=!\-])<(?![<=])", ["<="]), (r"(?<![->=<])>(?![>=])", [">="]), (r"<=", ["<"]), (r">=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"(?<![+\w])\s\+\s(?!\+)", [" - "]), (r"\s-\s", [" + "]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"<<=", [">>="]), (r"\+\+", ["--"]),
    (r"\b0\b", ["1"]), (r"(?<!\w)-1\b", ["0"]), (r"\b1\b", ["0", "2"]), (r"\b([2-9]|\d\d+)\b", ["@inc", "@dec"]),
    (r"\bKVTREE_SUCCESS\b", ["KVTREE_FAILURE"]), (r"\bKVTREE_FAILURE\b", ["KVTREE_SUCCESS"]),
    (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"!(?=[\w(])", [""]), (r"&(?!&)(?=\s\w)", ["|"]),
    (r"\bif \((?!.*\{.*\})", ["if (1 || ", "if (0 && "]), (r"\belse if\b", ["if"]), (r"\bLEFT\b", ["RIGHT"]), (r"\bRIGHT\b", ["LEFT"]),
    (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"\bsizeof\(uint32_t\)", ["(sizeof(uint32_t)+1)", "(sizeof(uint32_t)-1)"]),
]
def mutants(f, text):
    lines, incomment, err, dead = text.split("\n"), False, False, 0
    func = ""
    for i, raw in enumerate(lines):
        s = raw
        if incomment:
            e = s.find("*/")
            if e < 0: continue
            s = " " * (e + 2) + s[e + 2:]; incomment = False
        if "/*" in s and s.find("*/", s.find("/*")) < 0:
            s = s[:s.find("/*")]; incomment = True
        s = strip(s)
        m = re.match(r"^[a-z].*\b(kvtree_\w+|\w+)\(", s)
        if m and not s.startswith(" "): func = m.group(1)
        if s.startswith("#"):
            if re.match(r"#\s*if 0|#\s*ifdef HAVE_TV|#\s*if HAVE_TV", s): dead = 1
            elif dead and re.match(r"#\s*if", s): dead += 1
            elif dead and s.startswith("#endif"): dead -= 1
        if dead: continue
        if s.lstrip().startswith("#"): continue
        if re.search(r"\b(kvtree_err|kvtree_dbg|kvtree_abort|printf|fprintf)\s*\(", s): err = True
        if err:
            if ";" in s: err = False
            if not re.search(r"\bif\b", s): continue
        for pat, reps in OPS:
            for m in re.finditer(pat, s):
                for r in reps:
                    if r == "@inc": r = str(int(m.group(0)) + 1)
                    elif r == "@dec": r = str(int(m.group(0)) - 1)
                    new = raw[:m.start()] + r + raw[m.end():]
                    yield {"file": f, "line": i + 1, "func": func, "old": raw.strip(), "new": new.strip(), "text": new}
        # delete a one-line statement
        if re.match(r"^\s+[a-zA-Z_*][^{}]*;\s*$", s) and not re.match(r"^\s*(return|break|continue|goto|typedef|static|const|struct|int|char|void|long|unsigned|size_t|uint\d+_t|int\d+_t|ssize_t|off_t|mode_t|kvtree(_elem)?|MPI_\w+|double|FILE|DIR|regex_t|else)\b(?!\s*\()", s):
            yield {"file": f, "line": i + 1, "func": func, "old": raw.strip(), "new": "/* deleted */", "text": ""}
files = A.files.split(",") if A.files else list(ORDER)
src = {f: open("/repo/src/" + f).read() for f in ORDER}
ms = []
if A.only:
    for l in open(A.only):
        m = json.loads(l)
        if m["by"] is None: ms.append(m)
else:
    for f in files: ms += list(mutants(f, src[f]))
    random.Random(7).shuffle(ms)
    ms = ms[A.offset::A.every]
if A.list:
    for m in ms: print(m["file"], m["line"], m["func"], "|", m["old"], "->", m["new"])
    print(len(ms)); sys.exit()
done = set()
if os.path.exists(A.out):
    for l in open(A.out):
        m = json.loads(l); done.add((m["file"], m["line"], m["text"]))
lock = threading.Lock()
it = iter([m for m in ms if (m["file"], m["line"], m["text"]) not in done])
out = open(A.out, "a")
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
sys.path.insert(0, V); sys.dont_write_bytecode = True
import build
base = build.library()
OBJ = {c: [build.obj(x) for x in build.base_objs() + ["%s/checks/%s.cpp" % (V, c)]] for c in ALL}
LLD = ["-fuse-ld=lld"]
def make(r, L, f):
    for v, (cfg, mpi) in build.VARIANTS.items():
        o = "%s/o_%s" % (L, v)
        if f == "kvtree_print.c":
            if v != "static": continue
            build.run([build.CC] + build.CFLAGS + ["-I" + o, "-I" + r + "/src", "-c", r + "/src/" + f, "-o", o + "/cli.o"])
        elif mpi or "mpi" not in f:
            inc = ["-I" + o, "-I" + V + "/mpi"] if mpi else ["-I" + o]
            build.run([build.CC] + build.CFLAGS + inc + ["-I" + r + "/src", "-c", r + "/src/" + f, "-o", "%s/%s.o" % (o, f)])
        else: continue
        objs = [o + "/" + x for x in os.listdir(o) if x.endswith(".c.o")]
        if v == "static":
            if os.path.exists(L + "/libkv_static.a"): os.unlink(L + "/libkv_static.a")
            build.run(["ar", "rcs", L + "/libkv_static.a"] + objs)
        else: build.run([build.CC, "-shared", "-fsanitize=address", "-Wl,-Bsymbolic"] + LLD + build.WRAPFLAGS + objs + ["-lz", "-o", "%s/libkv_%s.so" % (L, v)])
    build.run([build.CC, "-fsanitize=address"] + LLD + [L + "/o_static/cli.o", L + "/libkv_static.a", "-lz", "-o", L + "/kvtree_print"])
def work(k):
    r, L = "%s/r%d" % (W, k), "%s/L%d" % (W, k)
    for d in (r, L): shutil.rmtree(d, ignore_errors=True)
    os.makedirs(r); sh(["cp", "-a", "/repo/src", r + "/src"])
    sh(["cp", "-a", base, L])
    for c in ALL: sh("rm -f %s/%s-*" % (L, c), shell=True)
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    prev = None
    while True:
        with lock: m = next(it, None)
        if m is None: return
        ls = src[m["file"]].split("\n"); ls[m["line"] - 1] = m["text"]
        by, how, t0 = None, "", time.time()
        try:
            if prev and prev != m["file"]: make(r, L, prev)
            prev = m["file"]
            open(r + "/src/" + m["file"], "w").write("\n".join(ls))
            make(r, L, m["file"])
        except build.BuildError: by = "build"
        for c in [] if by else order(m):
            exe = "%s/chk" % L
            build.run([build.CXX] + LLD + OBJ[c] + [L + "/libkv_static.a"] + build.WRAPFLAGS + build.LINK + ["-o", exe])
            try:
                p = sh(["timeout", "-k", "5", "150", exe, "--replays", L, "--known", V + "/known_findings.txt", "--scale", str(A.scale), "--jobs", "1" if A.jobs > 2 else "4", "--noshrink"], env=env, errors="replace", text=True)
            except Exception as e: by = "exception"; how = str(e); break
            if p.returncode == 1: by = c; how = ([x for x in p.stdout.split("\n") if "failure in" in x] or [""])[-1][:160]; break
            if p.returncode: by = c; how = "rc=%d" % p.returncode; break
        open(r + "/src/" + m["file"], "w").write(src[m["file"]])
        for x in os.listdir(L):
            if x.endswith(".replay"): os.unlink(L + "/" + x)
        m = dict(m, by=by, how=how, t=round(time.time() - t0, 1))
        with lock: out.write(json.dumps(m) + "\n"); out.flush()
ts = [threading.Thread(target=work, args=(k,)) for k in range(A.jobs)]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree(W, ignore_errors=True)
