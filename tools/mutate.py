#!/usr/bin/env python3
"""Mutation campaign (development only, no check uses it).
   mutate.py gen OUT.json [per-line] [seed] [file-regex]     list of mutants of /repo
   mutate.py run OUT.json RESULTS.jsonl [workers] [checks]   runs the checks on copies, fast and related ones first
   mutate.py show RESULTS.jsonl                               survivors"""
import glob, json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
B = "/dev/shm/mut"


def mutants_of(line):
    out = []
    def sub(pat, rep, tag):
        for m in re.finditer(pat, line):
            new = line[:m.start()] + m.expand(rep) + line[m.end():]
            if new != line:
                out.append((tag, new))
    s = line.strip()
    sub(r" < ", " <= ", "rel"); sub(r" <= ", " < ", "rel"); sub(r" > ", " >= ", "rel"); sub(r" >= ", " > ", "rel")
    sub(r" < ", " >= ", "rel"); sub(r" > ", " <= ", "rel")
    sub(r" == ", " != ", "rel"); sub(r" != ", " == ", "rel")
    sub(r" && ", " || ", "log"); sub(r" \|\| ", " && ", "log")
    sub(r" \+ ", " - ", "ar"); sub(r" - ", " + ", "ar"); sub(r" \+= ", " -= ", "ar"); sub(r" -= ", " += ", "ar"); sub(r" \+= ", " = ", "ar")
    sub(r" & ", " | ", "bit"); sub(r" \| ", " & ", "bit"); sub(r" << ", " >> ", "bit"); sub(r" \|= ", " = ", "bit"); sub(r" &= ", " = ", "bit")
    sub(r" % ", " / ", "ar"); sub(r" \* ", " + ", "ar"); sub(r" / ", " * ", "ar")
    sub(r"\+\+", "--", "ar")
    sub(r" \+ 1\b", "", "one"); sub(r" - 1\b", "", "one")
    sub(r"\b0\b(?!x)", "1", "const"); sub(r"\b1\b", "0", "const"); sub(r"\b1\b", "2", "const"); sub(r"\b([2-9]|[1-9]\d+)\b(?!\.)", r"(\1 + 1)", "const"); sub(r"\b([2-9]|[1-9]\d+)\b(?!\.)", r"(\1 - 1)", "const")
    sub(r"\bif \((.*)\) \{$", r"if (!(\1)) {", "neg"); sub(r"\bif \((.*)\) \{$", r"if (0 && (\1)) {", "false"); sub(r"\bif \((.*)\)$", r"if (0 && (\1))", "false"); sub(r"\bif \((.*)\)$", r"if (!(\1))", "neg")
    sub(r"\btrue\b", "false", "const"); sub(r"\bfalse\b", "true", "const")
    if re.match(r"^(break|continue);$", s): out.append(("del", line.replace(s, ";")))
    if re.match(r"^[A-Za-z_][\w\->.\[\]\* ]* (=|\+=|-=|\|=|&=|<<=|>>=) [^;]*;$", s) and not re.match(r"^(const |static |struct |int |size_t |ssize_t |uint\d|u?int\d*_t |char |off_t |void |long |bool |unsigned |enum |FILE |bpak_id_t )", s): out.append(("del", line.replace(s, ";")))
    if re.match(r"^[\w>.\-]+(\+\+|--);$", s): out.append(("del", line.replace(s, ";")))
    if re.match(r"^[A-Za-z_]\w*\(.*\);$", s): out.append(("del", line.replace(s, ";")))
    if re.match(r"^return -?BPAK_\w+;$", s) and "BPAK_OK" not in s: out.append(("ret", line.replace(s, "return BPAK_OK;")))
    if re.match(r"^rc = -BPAK_\w+;$", s): out.append(("ret", line.replace(s, "rc = BPAK_OK;")))
    if re.match(r"^goto \w+;$", s): out.append(("del", line.replace(s, ";")))
    return out


def gen(out, per=1, seed=1, rx="."):
    rnd = random.Random(int(seed))
    L = []
    for f in sorted(glob.glob(R + "/lib/*.c") + glob.glob(R + "/lib/heatshrink/*.c") + glob.glob(R + "/src/*.c") + glob.glob(R + "/python/*.c") + glob.glob(R + "/ext/uuid/*.c")):
        f = f[len(R) + 1:]
        if not re.search(rx, f) or f in ("ext/uuid/copy.c",):
            continue
        src = open(R + "/" + f).read().split("\n")
        depth = 0; skip = 0; comment = False
        for n, line in enumerate(src):
            s = line.strip()
            was = depth
            depth += line.count("{") - line.count("}")
            if s.startswith("/*"): comment = True
            if comment:
                if "*/" in s: comment = False
                continue
            if s.startswith("#") or s.startswith("//") or s.startswith("*"):
                continue
            if re.match(r"^(bpak_printf|fprintf|LOG|ASSERT|printf)\(", s) and not s.startswith("printf"):
                skip = 1
            if f == "src/misc.c" and "printf" in s:
                continue
            if skip:
                if ");" in s: skip = 0
                continue
            if was == 0 or not s:
                continue
            c = mutants_of(line)
            rnd.shuffle(c)
            for t, new in c[:int(per)]:
                L.append(dict(file=f, line=n + 1, tag=t, old=line, new=new))
    rnd.shuffle(L)
    json.dump(L, open(out, "w"), indent=0)
    print(len(L), "mutants")


def order():
    t = {}
    files = {}
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l)
        files[p["id"]] = p["anchors"]["files"]
        t[p["id"]] = dict(zip("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31".split(),
                              (8, 6, 10, 6, 10, 20, 30, 20, 12, 10, 10, 20, 30, 20, 15, 20, 6, 6, 10, 10, 20, 40, 70, 20, 8, 8, 5, 60, 50))).get(p["id"], 30)
    return t, files


def run(lst, res, workers=2, only=None):
    L = json.load(open(lst))
    done = set()
    try:
        for l in open(res):
            d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    except OSError:
        pass
    L = [m for m in L if (m["file"], m["line"], m["new"]) not in done]
    print(len(L), "to do")
    t, files = order()
    hits = {}
    lock = threading.Lock()
    it = iter(L)
    os.makedirs(B + "/bin", exist_ok=True)
    for g in ("gcc", "cc"):
        if not os.path.exists(B + "/bin/" + g): os.symlink("/usr/bin/ccache", B + "/bin/" + g)

    def worker(i):
        w = "%s/w%d" % (B, i)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        shutil.copytree(V, w + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"), symlinks=True)
        shutil.copytree(R, w + "/repo", ignore=shutil.ignore_patterns(".git", "_build"), symlinks=True)
        env = dict(os.environ, BPAK_REPO=w + "/repo", MC_TMP=w + "/t", MC_NOCONFIRM="1", PATH=B + "/bin:" + os.environ["PATH"],
                   CCACHE_DIR=B + "/cc", CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="3G")
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                return
            f = w + "/repo/" + m["file"]
            orig = open(R + "/" + m["file"]).read()
            src = orig.split("\n")
            assert src[m["line"] - 1] == m["old"]
            src[m["line"] - 1] = m["new"]
            open(f, "w").write("\n".join(src))
            t0 = time.time()
            # a compile test with warnings off
            g = w + "/gen/bpak"
            verdict = "SURVIVED"
            tried = []
            k = m["file"]
            with lock:
                h = dict(hits.get(k, {}))
            ids = only.split(",") if only else sorted(t, key=lambda c: ((0 if k in files[c] else 1), t[c] / (1 + h.get(c, 0))))
            if k.startswith("python/"): ids = ["C23"]
            rel = [c for c in ids if k in files[c] and c != "C28"]
            ids = [c for c in ids if c != "C28"]
            if not rel: rel = ["C16", "C19", "C03", "C17", "C24", "C15", "C27"]
            if rel and not os.environ.get("MUT_ALL"): ids = rel
            cap = float(os.environ.get("MUT_CAP", "150"))
            for c in ids:
                if c == "C23" and not k.startswith("python/"): continue
                if time.time() - t0 > cap: break
                shutil.rmtree(w + "/t", ignore_errors=True)
                try:
                    r = subprocess.run(["python3", w + "/verif/check.py", c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, errors="replace", timeout=900, start_new_session=True)
                except subprocess.TimeoutExpired:
                    tried.append(c + ":timeout"); continue
                if "build failed" in r.stdout:
                    verdict = "nobuild"; break
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    verdict = c; break
                if r.returncode: tried.append("%s:%d" % (c, r.returncode))
            open(f, "w").write(orig)
            with lock:
                if verdict in t: hits.setdefault(k, {})[verdict] = hits.get(k, {}).get(verdict, 0) + 1
                open(res, "a").write(json.dumps(dict(m, verdict=verdict, odd=tried, s=round(time.time() - t0))) + "\n")

    T = [threading.Thread(target=worker, args=(i,)) for i in range(int(workers))]
    [x.start() for x in T]
    [x.join() for x in T]


def show(res):
    D = [json.loads(l) for l in open(res)]
    n = {}
    for d in D: n[d["verdict"]] = n.get(d["verdict"], 0) + 1
    print(n, "seconds", sum(d["s"] for d in D))
    for d in sorted(D, key=lambda d: (d["file"], d["line"])):
        if d["verdict"] == "SURVIVED" or d["odd"]:
            print("%s:%d [%s] %s\n    - %s\n    + %s %s" % (d["file"], d["line"], d["tag"], d["verdict"], d["old"].strip(), d["new"].strip(), d["odd"] or ""))


dict(gen=gen, run=run, show=show)[sys.argv[1]](*sys.argv[2:])
