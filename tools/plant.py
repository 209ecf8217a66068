#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/plants/<id>.py and confirms it in scratch copies.

A plant file sets: prop, needs, breaks, edits = [(file, old, new)], demo (C body of a
main function), and optionally np (MPI ranks), flags (extra compiler flags),
own (compile src/*.c with these flags instead of linking the library), pre (file scope C).
usage: plant.py [--nocheck] [--force] ID...
"""
import os, sys, json, shutil, subprocess, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, B = "/tmp/pl/r", "/tmp/pl/b"
MPIENV = """export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1
"""
PRELUDE = r"""#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <zlib.h>
#include <mpi.h>
#include "kvtree.h"
#include "kvtree_util.h"
#include "kvtree_mpi.h"
#include "kvtree_io.h"
#include "kvtree_helpers.h"
static int bad = 0;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
/* same keys, same subtrees; a missing subtree is an empty one */
static int same(const kvtree* a, const kvtree* b)
{
  if (kvtree_size(a) != kvtree_size(b)) return 0;
  const kvtree_elem* e;
  for (e = kvtree_elem_first(a); e; e = kvtree_elem_next(e)) {
    const kvtree_elem* f = kvtree_elem_get(b, kvtree_elem_key(e));
    if (!f || !same(kvtree_elem_hash(e), kvtree_elem_hash(f))) return 0;
  }
  return 1;
}
static char* rep(char c, size_t n) { char* p = malloc(n + 1); memset(p, c, n); p[n] = 0; return p; }
"""
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def prepare():
    os.makedirs("/tmp/pl", exist_ok=True)
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    if os.path.isdir(R) and subprocess.check_output(["git", "-C", R, "rev-parse", "HEAD"], text=True).strip() != head:
        shutil.rmtree(R)
    if not os.path.isdir(R):
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read().replace("/repo", R).replace("/opt/vp/build.sh", "/tmp/pl/build.sh")
        open("/tmp/pl/" + n, "w").write(t)
    sh(["git", "-C", R, "checkout", "-q", "--", "."])
    r = sh(["bash", "/tmp/pl/build.sh"])
    if r.returncode: sys.exit(r.stdout.decode()[-2000:])
def demo_sh(i, g):
    np, own, flags, ldrun = g.get("np", 0), g.get("own"), g.get("flags", ""), g.get("run", "./demo")
    w = "/tmp/kvtree-demo-" + i
    s = "#!/bin/bash\n# Demonstration of the planted bug %s; run in the repository's root after a build.\n" % i
    s += 'here=$(cd "$(dirname "$0")" && pwd)\nexport LC_ALL=C\n' + MPIENV
    s += "rm -rf %s\nmkdir -p %s || exit 2\nsrc=$PWD\n" % (w, w)
    if own is not None:
        s += 'files=$(ls src/*.c | grep -v -e kvtree_print -e tv_data)\n'
        s += 'mpicc -g -w %s %s -DKVTREE_VERSION=\'"x"\' -I src -I _build "$here/demo.c" $files -lz -lm -o %s/demo || exit 2\n' % (own, flags, w)
    else:
        s += 'mpicc -g -w %s -I src -I _build "$here/demo.c" _build/src/libkvtree.a -lz -lm -o %s/demo || exit 2\n' % (flags, w)
    s += "cd %s\n" % w
    run = ldrun if not np else "mpirun --oversubscribe -n %d %s" % (np, ldrun)
    s += g.get("before", "") + "timeout -k 5 %d %s > out 2>&1\nrc=$?\ngrep -a '^line ' out | head -20\ncd /\nrm -rf %s\nexit $rc\n" % (g.get("limit", 120), run, w)
    return s
def plant(i, check=True):
    g = runpy.run_path(os.path.join(V, "tools/plants", i + ".py"))
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    sh(["git", "-C", R, "checkout", "-q", "--", "."])
    for f, old, new in g["edits"]:
        p = os.path.join(R, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1: return "EDIT of %s matches %d times: %s" % (f, n, old[:60])
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
    if "shell" in g:
        open(d + "/demo.sh", "w").write(g["shell"].replace("@MPIENV@", MPIENV).replace("@ID@", i))
        for n, c in g.get("files", {}).items(): open(os.path.join(d, n), "w").write(c)
    else:
        open(d + "/demo.sh", "w").write(demo_sh(i, g))
        open(d + "/demo.c", "w").write(PRELUDE + g.get("pre", "") + "int main(int argc, char** argv)\n{\n" + g["demo"] + "\n  return bad;\n}\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/patch.diff", "w").write(diff)
    # lines taken away must be lines of the original
    base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
    orig = []
    for f in {e[0] for e in g["edits"]}:
        bl = subprocess.check_output(["git", "-C", R, "blame", "-s", "-l", "HEAD", "--", f], text=True).splitlines()
        dl = subprocess.check_output(["git", "-C", R, "diff", "-U0", "--", f], text=True).splitlines()
        for l in dl:
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for k in range(st, st + n): orig.append(bl[k - 1].startswith("^" + base[:30]) or bl[k - 1].startswith(base[:30]))
    note = "" if not orig or any(orig) else " NOT-ORIGINAL-LINES"
    r0 = sh(["bash", d + "/demo.sh"], cwd="/repo")
    if r0.returncode: return "DEMO FAILS ON CLEAN TREE rc=%d %s" % (r0.returncode, r0.stdout.decode(errors="replace")[-600:])
    r = sh(["bash", "/tmp/pl/build.sh"])
    if r.returncode: return "BUILD " + r.stdout.decode()[-800:]
    r1 = sh(["bash", d + "/demo.sh"], cwd=R)
    if r1.returncode == 0: return "DEMO PASSES WITH THE BUG"
    if r1.returncode == 2: return "DEMO BROKEN " + r1.stdout.decode()[-500:]
    sh(["bash", "/tmp/pl/test.sh", "/tmp/pl/out.json"])
    o = json.load(open("/tmp/pl/out.json"))
    if len(o["passed"]) != 21: return "TESTS CATCH IT: %s%s" % (o["failed"], note)
    if not check: return "ok (demo: %s)%s" % (r1.stdout.decode(errors="replace").strip()[:150], note)
    t = time.time()
    env = dict(os.environ, KV_REPO=R, KV_BUILD=B, VERIF_SEED="1", VERIF_TIER="quick")
    r = sh([V + "/check", g["prop"]], env=env)
    out = r.stdout.decode(errors="replace")
    v = [l for l in out.splitlines() if "failure in" in l]
    return "%s (%.0f s) %s%s" % ({0: "MISSED", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode), time.time() - t, (v or [""])[-1][:220], note)
if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    prepare()
    for i in a:
        print(i, plant(i, "--nocheck" not in sys.argv), flush=True)
    sh(["git", "-C", R, "checkout", "-q", "--", "."])
