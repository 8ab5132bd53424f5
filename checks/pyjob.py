"""Build the Python wrapper and the tool from /repo and run a Python explorer's shards."""
import os, subprocess, sys
import build

# fixed salts, and stream buffers as large as those of a file system with large blocks
NOW = b"""#include <stdio.h>
#include <stdlib.h>
extern FILE *fopen64(const char *, const char *);
FILE *fopen(const char *n, const char *m);
long random(void);
long random(void) { return 0x01020304; }
FILE *fopen(const char *n, const char *m)
{
    static char buf[64][65536];
    static int k;
    FILE *f = fopen64(n, m);
    if (f && getenv("C23_BUF")) setvbuf(f, buf[k++ % 64], _IOFBF, sizeof buf[0]);
    return f;
}
"""


def run(ctx):
    main = sys.modules["__main__"]
    tmp = ctx["tmp"]
    job = ctx["job"]
    san = job.get("san", True)
    v = "sanpic" if san else "plainpic"
    inc = subprocess.run(["python3", "-c", "import sysconfig; print(sysconfig.get_path('include'))"],
                         stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    lib = build.build_lib(tmp, v)
    flags = ["-O1", "-g", "-fPIC", "-I" + inc] + build.includes(tmp) + (build.SAN if san else [])
    open(tmp + "/fixed.c", "wb").write(NOW)
    objs = build.compile_all(tmp, [(s, build.objname(tmp, v + "py", s), flags) for s in build.py_sources()] +
                             [(tmp + "/fixed.c", tmp + "/fixed-pic.o", ["-O1", "-fPIC"])])
    so = tmp + "/so"
    os.makedirs(so, exist_ok=True)
    build._run(["gcc", "-shared", "-Wl,-Bsymbolic"] + (build.SAN if san else []) + objs + lib +
               ["-o", so + "/bpak.so", "-llzma", "-lmbedcrypto", "-lm"])
    plain = build.build_lib(tmp, "plain") + build.build_tool(tmp, "plain", rename_main=False)
    tool = tmp + "/tool"
    build._run(["gcc"] + plain + [tmp + "/fixed-pic.o", "-o", tool, "-llzma", "-lmbedcrypto", "-lm"])
    pre = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    pre += ":" + subprocess.run(["gcc", "-print-file-name=libubsan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    exe = tmp + "/" + job["name"]
    with open(exe, "w") as f:
        f.write("#!/bin/sh\nexec env %s PYTHONMALLOC=malloc PYTHONDONTWRITEBYTECODE=1 C23_SO=%s C23_TOOL=%s "
                "C23_KEYS=%s/keys python3 %s/%s \"$@\"\n" % (
                    "LD_PRELOAD=" + pre if san else "", so, tool, build.VERIF, build.VERIF, job["src"]))
    os.chmod(exe, 0o755)
    kf = tmp + "/known"
    tmo = job.get("timeout_" + ctx["tier"], 400 if ctx["tier"] == "quick" else 3000)
    return main.run_shards(tmp, exe, ctx["tier"], kf, ctx["res"], ctx["nproc"], tmo)
