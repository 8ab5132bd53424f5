"""C23: operation sequences on the Python wrapper, against an independent model of the
archive and against the command line tool replaying the same transitions."""
import gc, itertools, os, resource, shutil, signal, subprocess, sys, uuid

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from arch import *
from mcpy import MC
sys.path.insert(0, os.environ["C23_SO"])
import bpak

TOOL = os.environ["C23_TOOL"]
KEYS = os.environ["C23_KEYS"]
TENV = {"LC_ALL": "C", "PATH": "/usr/bin:/bin"}
mc = MC(sys.argv[1:])
S0 = mc.scratch
W = S0 + "/w.bpak"     # the archive under test
T = S0 + "/t.bpak"     # the tool's copy
PA, PB, PN, PK, PZ, PT = map(ident, ("pa", "pb", "pn", "pk", "pz", "pt"))
MA, MB, MN = map(ident, ("ma", "mb", "mn"))
UUID = bytes(range(0x10, 0x20))


def fill(n, seed):
    return bytes((i * 7 + seed * 31 + (i >> 8)) & 255 for i in range(n))


def wr(path, b):
    with open(path, "wb") as f:
        f.write(b)


def rd(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


F100, F0, F5K, NOFILE = S0 + "/f100", S0 + "/f0", S0 + "/f5k", S0 + "/none"
for p, n in ((F100, 100), (F0, 0), (F5K, 5000)):
    wr(p, fill(n, 3))
wr(S0 + "/junk", fill(5000, 9))
wr(S0 + "/short", fill(100, 9))

memo = {}


def run_tool(*args):
    mc.note("tool runs")
    return subprocess.run([TOOL] + list(args), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL, env=TENV).returncode


def tool(s, *args):
    """The archive the tool leaves when it runs args on s; None when it refuses."""
    k = (s, args)
    if k not in memo:
        if len(memo) > 4000:
            memo.clear()
        wr(T, s)
        rc = run_tool(*[T if a == "@" else a for a in args])
        if rc < 0:
            mc.fail("tool %r ended with signal %d" % (args, -rc))
        memo[k] = rd(T) if rc == 0 else None
        if rc == 0:
            mc.state(memo[k])
    return memo[k]


class Env:
    """One package object, what the archive has to contain, and handles."""

    def __init__(self, s, mode):
        wr(W, s)
        self.s, self.mode = s, mode
        self.p = bpak.Package(W, mode)
        self.closed = False
        self.h = {}
        for n, i in (("Pa", PA), ("Pb", PB)):
            if View(s).part(i):
                self.h[n] = (self.p.get_part(i), i)
        for n, i, r in (("Ma", MA, 0), ("Mb", MB, PA)):
            if View(s).meta(i, r):
                self.h[n] = (self.p.get_meta(i, r), i, r)

    def can_write(self):
        return not self.closed and self.mode != "r"


ANY = object()


def attempt(e, call, new, check=None):
    """new: the archive afterwards, None when the operation has to be refused, ANY when
    either is acceptable as long as the archive and the reported values agree."""
    try:
        r = call()
    except SystemError as x:
        mc.fail("interpreter inconsistency: %r" % x)
    except Exception as x:
        if new is not None and new is not ANY:
            mc.fail("raised %r, but the operation is possible" % x)
        if new is ANY:
            e.s = rd(W)
        return False
    if new is None:
        mc.fail("reported success (%r) for an operation that is not possible" % (r,))
    e.s = rd(W) if new is ANY else new
    if check:
        check(r)
    return True


def eq(what, got, want):
    if got != want:
        mc.fail("%s is %r, the archive says %r" % (what, got if len(repr(got)) < 300 else repr(got)[:300],
                                                  want if len(repr(want)) < 300 else repr(want)[:300]))


def raises(what, f):
    try:
        r = f()
    except SystemError as x:
        mc.fail("%s: interpreter inconsistency: %r" % (what, x))
    except Exception:
        return
    mc.fail("%s: no exception, result %r" % (what, r))


def part_values(name, o, v, p, stored):
    eq(name + ".id", o.id, p.id)
    eq(name + ".size", o.size, p.stored)
    eq(name + ".offset", o.offset, p.pos)
    eq(name + ".is_transport_encoded", o.is_transport_encoded, bool(p.flags & F_TRANSPORT))
    repr(o)
    if stored:
        d = v.data(p)
        if d is None:
            raises(name + ".read_data()", o.read_data)
        else:
            eq(name + ".read_data()", o.read_data(), d)


def meta_values(name, o, m):
    eq(name + ".id", o.id, m.id)
    eq(name + ".part_id_ref", o.part_id_ref, m.ref)
    eq(name + ".size", o.size, m.size)
    eq(name + ".raw_data", o.raw_data, m.data)
    repr(o)
    if m.size == 16:
        eq(name + ".as_uuid()", o.as_uuid(), uuid.UUID(bytes=m.data))
    else:
        raises(name + ".as_uuid()", o.as_uuid)
    z = m.data.split(b"\0")[0]
    if all(c < 128 for c in z):
        eq(name + ".as_string()", o.as_string(), z.decode())
    else:
        raises(name + ".as_string()", o.as_string)


def values(e, file_too=True):
    """All reported values against the archive."""
    if file_too:
        got = rd(W)
        if got != e.s:
            n = next((i for i in range(min(len(got), len(e.s))) if got[i] != e.s[i]), -1)
            mc.fail("the archive differs from the equivalent operations at byte %d (%d bytes instead of %d)" % (
                n, len(got), len(e.s)))
    p = e.p
    if e.closed:
        closed_calls(p, e.h)
        return
    v = View(e.s)
    readable = e.mode not in ("w", "wb")
    eq("key_id", p.key_id, v.key_id)
    eq("keystore_id", p.keystore_id, v.keystore_id)
    eq("hash_kind", p.hash_kind, v.hash_kind)
    eq("signature_kind", p.signature_kind, v.signature_kind)
    eq("signature", p.signature, v.signature)
    eq("size", p.size, v.end)
    eq("installed_size", p.installed_size, sum(x.size + x.pad for x in v.parts))
    if readable:
        d = v.digest()
        if d is not None:
            eq("digest", p.digest, d)
        else:
            try:
                eq("digest", p.digest, None)
            except SystemError as x:
                mc.fail("digest: %r" % x)
            except Exception:
                pass
    ps, ms = p.parts, p.meta
    eq("parts", [x.id for x in ps], [x.id for x in v.parts])
    eq("meta", [(x.id, x.part_id_ref) for x in ms], [(x.id, x.ref) for x in v.metas])
    if len({x.id for x in v.parts}) == len(v.parts):
        for o, x in zip(ps, v.parts):
            part_values("part 0x%x" % x.id, o, v, x, readable)
    if len({(x.id, x.ref) for x in v.metas}) == len(v.metas):
        for o, x in zip(ms, v.metas):
            meta_values("meta 0x%x/0x%x" % (x.id, x.ref), o, x)
    for n, h in e.h.items():
        if n[0] == "P":
            x = v.part(h[1])
            if x:
                part_values(n, h[0], v, x, readable)
            else:
                for a in ("size", "offset", "is_transport_encoded"):
                    raises("deleted %s.%s" % (n, a), lambda: getattr(h[0], a))
                raises("deleted %s.read_data" % n, h[0].read_data)
                raises("get_part", lambda: p.get_part(h[1]))
        else:
            x = v.meta(h[1], h[2])
            if x:
                meta_values(n, h[0], x)
            else:
                for a in ("size", "raw_data"):
                    raises("deleted %s.%s" % (n, a), lambda: getattr(h[0], a))
                raises("deleted %s.as_string" % n, h[0].as_string)
                raises("deleted %s.as_uuid" % n, h[0].as_uuid)
                raises("get_meta", lambda: p.get_meta(h[1], h[2]))


def quiet(f):
    """Any answer or exception is fine, the interpreter has to survive."""
    try:
        f()
    except SystemError as x:
        mc.fail("interpreter inconsistency: %r" % x)
    except Exception:
        pass


def closed_calls(p, h):
    """Reading through a closed package: data can not be returned; no crash."""
    for a in ("key_id", "keystore_id", "hash_kind", "signature_kind", "signature", "size",
              "installed_size", "digest", "parts", "meta"):
        quiet(lambda: getattr(p, a))
    raises("get_part on a closed package", lambda: p.get_part(PA))
    raises("get_meta on a closed package", lambda: p.get_meta(MA))
    raises("verify on a closed package", lambda: p.verify(KEYS + "/p256-a.pub.pem"))
    for n, x in h.items():
        o = x[0]
        quiet(lambda: repr(o))
        quiet(lambda: o.id)
        if n[0] == "P":
            raises(n + ".read_data on a closed package", o.read_data)
            raises(n + ".size on a closed package", lambda: o.size)
            raises(n + ".offset on a closed package", lambda: o.offset)
        else:
            raises(n + ".raw_data on a closed package", lambda: o.raw_data)
            raises(n + ".size on a closed package", lambda: o.size)
            raises(n + ".as_string on a closed package", o.as_string)
            raises(n + ".as_uuid on a closed package", o.as_uuid)


# ---------------------------------------------------------------- operations
OPS = []


def op(name):
    def d(f):
        OPS.append((name, f))
        return f
    return d


def w(e, new):
    """Expected result of a modification: impossible without write access."""
    return new if e.can_write() else None


def is_part(i):
    def c(o):
        eq("result", (type(o).__name__, o.id), ("Part", i))
    return c


def is_meta(i, r):
    def c(o):
        eq("result", (type(o).__name__, o.id, o.part_id_ref), ("Meta", i, r))
    return c


def add_file(name, part, path, tree=False):
    args = ("add", "@", "--part", part, "--from-file", path) + (("--encoder", "merkle") if tree else ())

    def f(e):
        kw = dict(with_merkle_tree=True) if tree else {}
        attempt(e, lambda: e.p.add_file(part, path, **kw), w(e, e.can_write() and tool(e.s, *args)) or None,
                is_part(ident(part)))
    OPS.append((name, f))


add_file("add_file(pn, 100 B)", "pn", F100)
add_file("add_file(pz, 5 kB)", "pz", F5K)
add_file("add_file(pa, 100 B)", "pa", F100)
add_file("add_file(pn, empty)", "pn", F0)
add_file("add_file(pn, missing)", "pn", NOFILE)
add_file("add_file(pt, 5 kB, tree)", "pt", F5K, True)
add_file("add_file(pa, 100 B, tree)", "pa", F100, True)


def add_key(name, part, path):
    def f(e):
        attempt(e, lambda: e.p.add_key(part, path),
                w(e, e.can_write() and tool(e.s, "add", "@", "--part", part, "--encoder", "key", "--from-file", path)) or None,
                is_part(ident(part)))
    OPS.append((name, f))


add_key("add_key(pk)", "pk", KEYS + "/p256-a.pub.pem")
add_key("add_key(pk, not a key)", "pk", S0 + "/junk")


def m_add(name, mid, ref, size, data, exact=True):
    """data: None, bytes, or str (stored with its terminator)."""
    def f(e):
        raw = b"" if data is None else data if isinstance(data, bytes) else data.encode() + b"\0"
        n = len(raw) if size is None else size
        new = add_meta(e.s, mid, ref, n, raw) if e.can_write() else None
        if e.can_write() and isinstance(data, str) and size is None and mid and mid in NAMES and ref in NAMES:
            args = ["add", "@", "--meta", NAMES[mid], "--from-string", data]
            if ref:
                args += ["--part-ref", NAMES[ref]]
            t = tool(e.s, *args)
            if t != new:
                mc.fail("the tool's archive for %r differs from the model's" % (args,))
        kw = {}
        if ref:
            kw["part_id_ref"] = ref
        if data is not None:
            kw["data"] = data
        if size is not None:
            kw["size"] = size
        attempt(e, lambda: e.p.add_meta(mid, **kw), w(e, new), is_meta(mid, ref))
    OPS.append((name, f))


NAMES = {ident(x): x for x in ("pa", "pb", "pn", "pk", "pz", "ma", "mb", "mn")}
NAMES[0] = ""
m_add("add_meta(mn, 'text')", MN, 0, None, "text")
m_add("add_meta(mn, pa, 17 bytes)", MN, PA, None, b"\xff" + bytes(16))
m_add("add_meta(mb, size 5)", MB, 0, 5, None)
m_add("add_meta(mn, 'ab', size 9)", MN, PB, 9, "ab")
m_add("add_meta(ma, 'dup')", MA, 0, None, "dup")
m_add("add_meta(0, 'x')", 0, 0, None, "x")
m_add("add_meta(2**32+mn)", MN + (1 << 32), 0, None, "x")
m_add("add_meta(mn, ref 2**32)", MN, 1 << 32, None, "x")
m_add("add_meta(mn, 1921 bytes)", MN, 0, None, bytes(1921))
m_add("add_meta(mn, size 65540)", MN, 0, 65540, None)
m_add("add_meta(mn, size -1, data)", MN, 0, -5, None)
m_add("add_meta(mn, size 2**16+4, 'abcdefgh')", MN, 0, 65540, "abcdefgh")


def bad(name, f, closed_ok=False):
    """A call with unsuitable arguments."""
    def g(e):
        attempt(e, lambda: f(e), None)
    OPS.append((name, g))


bad("add_meta(mn)", lambda e: e.p.add_meta(MN))
bad("add_meta(mn, data=5)", lambda e: e.p.add_meta(MN, data=5))
bad("add_meta(mn, data=non-ascii)", lambda e: e.p.add_meta(MN, data="\u00e5"))
bad("get_part(missing)", lambda e: e.p.get_part(12345))
bad("get_part(2**32+pa)", lambda e: e.p.get_part(PA + (1 << 32)))
bad("get_part(0)", lambda e: e.p.get_part(0))
bad("get_meta(missing)", lambda e: e.p.get_meta(12345))
bad("get_meta(ma, 2**32)", lambda e: e.p.get_meta(MA, 1 << 32))
bad("get_meta(0)", lambda e: e.p.get_meta(0))


@op("get_meta(ma, ref pb)")
def _(e):
    attempt(e, lambda: e.p.get_meta(MA, PB), e.s if not e.closed and View(e.s).meta(MA, PB) else None, is_meta(MA, PB))


bad("add_file(missing argument)", lambda e: e.p.add_file("x"))
bad("add_file(nul in name)", lambda e: e.p.add_file("pn", "f\0x"))
bad("verify(not a key)", lambda e: e.p.verify(S0 + "/junk"))
bad("verify(wrong key)", lambda e: e.p.verify(KEYS + "/p256-b.pub.pem"))
bad("sign(not a key)", lambda e: e.p.sign(S0 + "/junk"))


def setter(name, attr, value, f):
    """f(archive) -> archive or None"""
    def g(e):
        new = f(e.s) if e.can_write() else None
        if value is DEL:
            attempt(e, lambda: delattr(e.p, attr), w(e, new))
        else:
            attempt(e, lambda: setattr(e.p, attr, value), w(e, new))
    OPS.append((name, g))


DEL = object()


def both(tool_args, f):
    def g(s):
        t, m = tool(s, *tool_args), f(s)
        if t != m:
            mc.fail("the tool's archive for %r differs from the model's" % (tool_args,))
        return m
    return g


setter("key_id=0x1234", "key_id", 0x1234, both(("set", "@", "--key-id", "0x1234"), lambda s: u32(s, O_KEY, 0x1234)))
setter("key_id=2**32-1", "key_id", 0xffffffff, lambda s: u32(s, O_KEY, 0xffffffff))
setter("keystore_id=0x80000001", "keystore_id", 0x80000001,
       both(("set", "@", "--keystore-id", "0x80000001"), lambda s: u32(s, O_KS, 0x80000001)))
for a in ("key_id", "keystore_id", "hash_kind", "signature_kind"):
    for n, x in (("2**32+1", (1 << 32) + 1), ("-1", -1), ("2**70", 1 << 70), ("None", None), ("'x'", "x"), ("del", DEL)):
        if n in ("2**70", "'x'") and a not in ("key_id", "hash_kind"):
            continue
        setter("%s=%s" % (a, n), a, x, lambda s: None)
setter("hash_kind=SHA384", "hash_kind", 2, lambda s: put(s, O_HK, b"\2"))
setter("hash_kind=257", "hash_kind", 257, lambda s: None)
setter("signature_kind=SECP384r1", "signature_kind", 3, lambda s: put(s, O_SK, b"\3"))
setter("signature_kind=258", "signature_kind", 258, lambda s: None)


def m_sig(b):
    return lambda s: put(put(s, O_SIG, b.ljust(512, b"\0")), O_SIGSZ, struct.pack("<H", len(b)))


wr(S0 + "/sig", fill(70, 1))
setter("signature=70 bytes", "signature", fill(70, 1), both(("sign", "@", "--signature", S0 + "/sig"), m_sig(fill(70, 1))))
setter("signature=512 bytes", "signature", fill(512, 2), m_sig(fill(512, 2)))
setter("signature=513 bytes", "signature", fill(513, 2), lambda s: None)
setter("signature='x'", "signature", "x", lambda s: None)
setter("del signature", "signature", DEL, m_sig(b""))
setter("signature=None", "signature", None, m_sig(b""))


@op("sign")
def _(e):
    key = KEYS + "/p256-a.pem"
    new = tool(e.s, "sign", "@", "--key", key) if e.can_write() else None
    attempt(e, lambda: e.p.sign(key), w(e, new), lambda r: eq("sign()", r, True))


@op("verify")
def _(e):
    pub = KEYS + "/p256-a.pub.pem"
    ok = not e.closed and tool(e.s, "verify", "@", "--key", pub)
    attempt(e, lambda: e.p.verify(pub), ok or None, lambda r: eq("verify()", r, True))


# ---- operations through a part handle
def part_op(name, h, f):
    def g(e):
        if h not in e.h:
            return
        f(e, e.h[h][0], None if e.closed else View(e.s).part(e.h[h][1]))
    OPS.append((name, g))


def p_setid(h, value, ok):
    def f(e, o, p):
        new = None
        if p and ok and not View(e.s).part(value):
            new = u32(e.s, O_PART + 32 * p.slot, value)
        if p and ok and value == p.id:
            new = e.s
        if attempt(e, lambda: setattr(o, "id", value) if value is not DEL else delattr(o, "id"), w(e, new)):
            e.h[h] = (o, value)
    return f


part_op("Pa.id=pn", "Pa", p_setid("Pa", PN, True))
part_op("Pa.id=pb", "Pa", p_setid("Pa", PB, True))
part_op("Pa.id=0", "Pa", p_setid("Pa", 0, False))
part_op("Pa.id=2**32+5", "Pa", p_setid("Pa", (1 << 32) + 5, False))
part_op("Pa.id='x'", "Pa", p_setid("Pa", "x", False))
part_op("del Pa.id", "Pa", p_setid("Pa", DEL, False))


def p_delete(e, o, p):
    new = None
    if p and e.can_write():
        if p.id in NAMES:
            new = tool(e.s, "delete", "@", "--part", NAMES[p.id])
        if new is None:
            mc.fail("the tool does not delete the part")
    attempt(e, o.delete, w(e, new))


part_op("Pa.delete()", "Pa", p_delete)
part_op("Pb.delete()", "Pb", p_delete)
part_op("Pb.read_data()", "Pb", lambda e, o, p: attempt(
    e, o.read_data, e.s if p else None, lambda r: eq("read_data()", r, View(e.s).data(p))))


# ---- operations through a metadata handle
def meta_op(name, h, f):
    def g(e):
        if h not in e.h:
            return
        _, i, r = e.h[h]
        f(e, e.h[h][0], None if e.closed else View(e.s).meta(i, r))
    OPS.append((name, g))


def m_set(h, attr, value, ok):
    def f(e, o, m):
        new = None
        hi, hr = (value, e.h[h][2]) if attr == "id" else (e.h[h][1], value or 0)
        if m and ok and not View(e.s).meta(hi, hr):
            new = u32(e.s, O_META + 16 * m.slot + (0 if attr == "id" else 8), value or 0)
        if m and ok and (hi, hr) == (m.id, m.ref):
            new = e.s
        if attempt(e, lambda: setattr(o, attr, value) if value is not DEL else delattr(o, attr), w(e, new)):
            e.h[h] = (o, hi, hr)
    return f


meta_op("Ma.id=mn", "Ma", m_set("Ma", "id", MN, True))
meta_op("Mb.id=ma", "Mb", m_set("Mb", "id", MA, True))
meta_op("Ma.id=0", "Ma", m_set("Ma", "id", 0, False))
meta_op("Ma.id=2**32+5", "Ma", m_set("Ma", "id", (1 << 32) + 5, False))
meta_op("del Ma.id", "Ma", m_set("Ma", "id", DEL, False))
meta_op("Ma.part_id_ref=pa", "Ma", m_set("Ma", "part_id_ref", PA, True))
meta_op("Ma.part_id_ref=pb", "Ma", m_set("Ma", "part_id_ref", PB, True))
meta_op("Mb.part_id_ref=None", "Mb", m_set("Mb", "part_id_ref", None, True))
meta_op("Mb.part_id_ref=2**32", "Mb", m_set("Mb", "part_id_ref", 1 << 32, False))
meta_op("del Mb.part_id_ref", "Mb", m_set("Mb", "part_id_ref", DEL, False))


def m_data(value):
    def f(e, o, m):
        new = None
        if m and isinstance(value, (str, bytes)):
            try:
                raw = value if isinstance(value, bytes) else value.encode("ascii") + b"\0"
                if len(raw) <= m.size:
                    new = put(e.s, O_MDATA + m.offset, raw.ljust(m.size, b"\0"))
            except UnicodeEncodeError:
                pass
            if new and isinstance(value, str) and m.id in NAMES and m.ref == 0 and e.can_write():
                t = tool(e.s, "set", "@", "--meta", NAMES[m.id], "--from-string", value)
                if t != new:
                    mc.fail("the tool's archive for set %r differs from the model's" % value)
        if value is DEL:
            attempt(e, lambda: delattr(o, "raw_data"), None)
        else:
            attempt(e, lambda: setattr(o, "raw_data", value), w(e, new))
    return f


meta_op("Ma.raw_data='hi'", "Ma", m_data("hi"))
meta_op("Ma.raw_data='12345678901'", "Ma", m_data("12345678901"))
meta_op("Mb.raw_data=16 bytes", "Mb", m_data(fill(16, 200)))
meta_op("Mb.raw_data=17 bytes", "Mb", m_data(fill(17, 200)))
meta_op("Mb.raw_data=b''", "Mb", m_data(b""))
meta_op("Ma.raw_data=non-ascii", "Ma", m_data("\u00e5"))
meta_op("Ma.raw_data=5", "Ma", m_data(5))
meta_op("del Ma.raw_data", "Ma", m_data(DEL))


def m_delete(e, o, m):
    attempt(e, o.delete, w(e, del_meta(e.s, m.id, m.ref) if m else None))


meta_op("Ma.delete()", "Ma", m_delete)
meta_op("Mb.delete()", "Mb", m_delete)


# ---- life cycle
@op("close()")
def _(e):
    attempt(e, e.p.close, e.s)
    e.closed = True


@op("with package: pass")
def _(e):
    def f():
        with e.p:
            pass
    attempt(e, f, ANY if e.closed else e.s)
    e.closed = True


@op("__init__ again, r+")
def _(e):
    attempt(e, lambda: e.p.__init__(W, "r+"), e.s)
    e.closed, e.mode = False, "r+"


@op("__init__ again, missing")
def _(e):
    # what the object is afterwards is not specified, as long as it is consistent
    attempt(e, lambda: e.p.__init__(NOFILE, "r"), None)
    e.closed = True


@op("second reader")
def _(e):
    """What another process would see at this point."""
    with bpak.Package(W, "r") as q:
        v = View(e.s)
        eq("second reader: parts", [x.id for x in q.parts], [x.id for x in v.parts])
        eq("second reader: key_id", q.key_id, v.key_id)
        eq("second reader: signature", q.signature, v.signature)
        eq("second reader: meta", [(x.id, x.part_id_ref, x.raw_data) for x in q.meta],
           [(x.id, x.ref, x.data) for x in v.metas])


@op("getters")
def _(e):
    if e.closed:
        closed_calls(e.p, e.h)
    else:
        values(e, False)


@op("drop handles")
def _(e):
    e.h.clear()


def archives():
    a = {}
    a["empty"] = empty()
    s = add_part(empty(), PA, fill(100, 1))
    s = add_part(s, PB, fill(5000, 2), F_NOHASH)
    s = add_meta(s, MA, 0, 11, b"hello\0")
    s = add_meta(s, MB, PA, 16, UUID)
    s = add_meta(s, MA, PA, 3, b"abc")
    a["two parts"] = rehash(s)
    s = add_part(empty(2), PB, fill(700, 5), 0, fill(33, 6))
    s = add_part(s, PZ, b"")
    s = add_part(s, PA, fill(512, 7))
    s = add_meta(s, MB, PA, 16, UUID)
    s = add_meta(s, MA, 0, 8, b"\xe5bcd")
    a["transport, empty part, SHA384"] = rehash(s)
    s = add_part(empty(3), PA, fill(1, 1))
    for i in range(30):
        s = add_part(s, 0x1000 + i, fill(i, i))
    s = add_meta(s, MA, 0, 11, b"12345678901")
    s = add_meta(s, MB, PA, 16, UUID)
    for i in range(29):
        s = add_meta(s, 0x2000 + i, i & 1, 62 - (i & 1), fill(62 - (i & 1), i))
    a["one slot left, SHA512"] = rehash(s)
    return a


def fds():
    return len(os.listdir("/proc/self/fd"))


def run_sequence(name, s, mode, seq, nops):
    mc.case("archive '%s' opened %s: %s" % (name, mode, "; ".join(OPS[i][0] for i in seq)))
    n0 = run_sequence.fds
    if sum(seq) % 2:  # streams that keep more in their buffers
        os.environ["C23_BUF"] = "1"
    else:
        os.environ.pop("C23_BUF", None)
    e = Env(s, mode)
    for i in seq:
        OPS[i][1](e)
        mc.stat["transitions"] += 1
    values(e)
    mc.state(e.s, e.closed, tuple((k, v[1:]) for k, v in e.h.items()))
    mc.outcome(name, mode, len(e.s), e.closed, tuple(seq[-1:]))
    e.p.close()
    e.closed = True
    values(e)
    e.h.clear()
    e.p = None
    if fds() != n0:
        gc.collect()
        if fds() != n0:
            mc.fail("%d file descriptors stay open after all objects are gone" % (fds() - n0))
    mc.stat["evaluations"] += 1


def no_close(name, s, seq):
    """The last reference goes without close(): the archive is complete."""
    mc.case("archive '%s', no close: %s" % (name, "; ".join(OPS[i][0] for i in seq)))
    e = Env(s, "r+")
    for i in seq:
        OPS[i][1](e)
        mc.stat["transitions"] += 1
    h = list(e.h.values())
    e.h.clear()
    e.p = None
    del h
    if fds() != run_sequence.fds:
        mc.fail("file descriptors stay open after all objects are gone")
    got = rd(W)
    if got != e.s:
        mc.fail("the archive differs from the equivalent operations after the last reference went")
    mc.stat["evaluations"] += 1


def fam_sequences():
    ar = archives()
    n = len(OPS)
    for name, s in ar.items():
        depth = 3 if mc.thorough else 2
        for d in range(0, depth + 1):
            for seq in itertools.product(range(n), repeat=d):
                if mc.mine():
                    run_sequence(name, s, "r+", seq, n)
        for d in range(0, 3 if mc.thorough else 2):
            for mode in ("r", "rb", "rb+"):
                for seq in itertools.product(range(n), repeat=d):
                    if mc.mine():
                        run_sequence(name, s, mode if mode == "rb+" else "r", seq, n)
        for d in range(1, 3 if mc.thorough else 2):
            for seq in itertools.product(range(n), repeat=d):
                if mc.mine():
                    no_close(name, s, seq)
    core = [i for i, (x, _) in enumerate(OPS) if x in CORE]
    if len(core) != len(CORE):
        raise RuntimeError("core operations missing")
    for name in ("two parts",) if not mc.thorough else ("two parts", "transport, empty part, SHA384"):
        for seq in itertools.product(core, repeat=4 if mc.thorough else 3):
            if mc.mine():
                run_sequence(name, ar[name], "r+", seq, n)


CORE = ("add_file(pn, 100 B)", "add_file(pt, 5 kB, tree)", "add_key(pk)", "add_meta(mn, 'text')",
        "key_id=0x1234", "sign", "verify", "Pa.id=pn", "Pa.delete()", "Pb.delete()",
        "Ma.id=mn", "Ma.part_id_ref=pb", "Mb.raw_data=16 bytes", "Ma.delete()", "close()",
        "__init__ again, r+", "hash_kind=SHA384", "signature=70 bytes")


# ---------------------------------------------------------------- creation and modes
def fam_open():
    junk = archives()["two parts"]
    files = dict(missing=None, empty=b"", short=fill(100, 9), junk=fill(5000, 9), good=junk,
                 badmagic=put(junk, 0, b"x"), badalign=put(junk, O_PART + 4, b"\1"),
                 badmeta=put(junk, O_META + 6, b"\x80\x07"), nohash=put(junk, O_HK, b"\0"))
    modes = ["r", "rb", "r+", "rb+", "r+b", "w", "wb", "w+", "wb+", "z", "", "r\0", None, 5]
    for fn, content in files.items():
        for m in modes:
            for act in ("", "key_id", "add_meta", "add_file", "again"):
                if not mc.mine():
                    continue
                mc.case("open %s with mode %r, then %s" % (fn, m, act))
                if content is None:
                    if os.path.exists(W):
                        os.unlink(W)
                else:
                    wr(W, content)
                good = isinstance(m, str) and m in ("r", "rb", "r+", "rb+", "r+b", "w", "wb", "w+", "wb+")
                creating = good and m[0] == "w"
                ok = good and (creating or fn == "good" or (fn == "empty" and "+" in m))
                try:
                    p = bpak.Package(W, m)
                except SystemError as x:
                    mc.fail("interpreter inconsistency %r" % x)
                except Exception as x:
                    if ok:
                        mc.fail("raised %r" % x)
                    if not creating and rd(W) != content:
                        mc.fail("refused, but the file changed")
                    mc.stat["evaluations"] += 1
                    if fds() != run_sequence.fds:
                        mc.fail("a file descriptor stays open after the package could not be opened")
                    continue
                if not ok:
                    mc.fail("opened")
                e = Env.__new__(Env)
                e.p, e.closed, e.h, e.mode = p, False, {}, m
                e.s = junk if fn == "good" and not creating else empty()
                if "+" not in m and not creating:
                    e.mode = "r"
                if creating or fn == "empty":
                    # a new archive may be written at the latest when it is closed
                    pass
                e2 = e.can_write()
                if act == "key_id":
                    attempt(e, lambda: setattr(p, "key_id", 77), w(e, u32(e.s, O_KEY, 77)))
                elif act == "add_meta":
                    attempt(e, lambda: p.add_meta(MN, data="x"), w(e, add_meta(e.s, MN, 0, 2, b"x\0")))
                elif act == "add_file":
                    if e2 and (m in ("w", "wb")):
                        # the payload can not be read back: refused or done properly
                        attempt(e, lambda: p.add_file("pn", F100), ANY)
                    else:
                        attempt(e, lambda: p.add_file("pn", F100),
                                w(e, e2 and tool(e.s, "add", "@", "--part", "pn", "--from-file", F100)) or None)
                elif act == "again":
                    attempt(e, lambda: p.__init__(W, m), e.s if e.mode != "r" or True else None)
                    if creating:
                        e.s = empty()
                values(e, act in ("key_id", "add_meta"))
                p.close()
                del p
                e.p = None
                if rd(W) != e.s:
                    mc.fail("the closed archive differs from the equivalent operations")
                if fds() != run_sequence.fds:
                    mc.fail("a file descriptor stays open")
                mc.stat["transitions"] += 2
                mc.stat["evaluations"] += 1


# ---------------------------------------------------------------- hostile archives
def fam_hostile():
    base = archives()["two parts"]
    muts = []
    P0, P1 = O_PART, O_PART + 32
    for sz in (0, 1, 100, 511, 512, 4096, 5120, 1 << 20, 1 << 31, (1 << 31) - 512, 1 << 32, 1 << 40, (1 << 63) - 512, 1 << 63, (1 << 64) - 512):
        for slot in (P0, P1):
            for fl in (0, 2):
                for ts in (0, 1, 77, 1 << 20, 1 << 40, 1 << 63, (1 << 64) - 1) if fl else (0,):
                    for pad in (0, (-sz) % 512, 65535):
                        muts.append(("size %d tsize %d pad %d flags %d in slot %d" % (sz, ts, pad, fl, slot > P0),
                                     put(base, slot + 4, struct.pack("<QQQHB", sz, 4096, ts, pad, fl))))
    for slot in (0, 1, 2):
        o = O_META + 16 * slot
        for size in (0, 1, 4, 15, 16, 17, 1000, 1919, 1920, 1921, 65535):
            for off in (0, 8, 16, 904, 1904, 1919, 1920, 1921, 65535):
                for hk in (1, 4):
                    muts.append(("meta %d size %d offset %d hash %d" % (slot, size, off, hk),
                                 put(put(base, o + 4, struct.pack("<HH", size, off)), O_HK, bytes([hk]))))
        muts.append(("hole at meta %d" % slot, u32(base, o, 0)))
    nz = put(base, O_MDATA, b"A" * 1920)
    nz = put(nz, O_HK, b"\1\2\1\1" + b"\1" * (4096 - O_HK - 4))
    for size, off in ((1, 1919), (16, 1904), (1920, 0), (8, 0)):
        muts.append(("no terminator, size %d offset %d" % (size, off),
                     put(nz, O_META + 4, struct.pack("<HH", size, off))))
    muts.append(("hole at part 0", u32(base, P0, 0)))
    muts.append(("same part id", u32(base, P1, PA)))
    muts.append(("same meta", put(base, O_META + 16, struct.pack("<IHHI", MA, 16, 16, 0))))
    for n in (0, 1, 512, 513, 1024):
        muts.append(("cut by %d" % n, base[:len(base) - n]))
        muts.append(("longer by %d" % n, base + bytes(n)))
    for sg in (0, 1, 511, 512, 513, 600, 65535):
        muts.append(("signature size %d" % sg, put(base, O_SIGSZ, struct.pack("<H", sg))))
    for hk in (1, 2, 3, 4, 255):
        muts.append(("hash kind %d" % hk, put(base, O_HK, bytes([hk]))))
    for name, s in muts:
        for mode in ("r", "r+"):
            for act in range(len(HOSTILE)):
                if not mc.mine():
                    continue
                mc.case("%s, mode %s, %s" % (name, mode, HOSTILE[act][0]))
                wr(W, s)
                try:
                    p = bpak.Package(W, mode)
                except SystemError as x:
                    mc.fail(repr(x))
                except Exception:
                    p = None
                mc.stat["evaluations"] += 1
                if p is None:
                    if rd(W) != s:
                        mc.fail("refused archive changed")
                    mc.note("refused archives")
                    continue
                before = None
                quiet(lambda: HOSTILE[act][1](p))
                mc.stat["transitions"] += 1
                if mode == "r" and rd(W) != s:
                    mc.fail("a package opened for reading changed")
                hostile_values(p, rd(W))
                p.close()
                del p
                if fds() != run_sequence.fds:
                    mc.fail("a file descriptor stays open")


def hostile_values(p, s):
    """Reported values equal the header; data is the archive's or an exception."""
    v = View(s)
    eq("parts", [x.id for x in p.parts], [x.id for x in v.parts])
    eq("meta", [(x.id, x.part_id_ref) for x in p.meta], [(x.id, x.ref) for x in v.metas])
    for a in ("digest", "size", "installed_size"):
        quiet(lambda: getattr(p, a))
    try:
        sig = p.signature
        if v.sigsz <= 512:
            eq("signature", sig, v.signature)
        elif len(sig) > 512:
            mc.fail("signature has %d bytes, more than the archive holds" % len(sig))
    except SystemError as x:
        mc.fail(repr(x))
    except Exception:
        if v.sigsz <= 512:
            raise
    if len({x.id for x in v.parts}) == len(v.parts):
        for o, x in zip(p.parts, v.parts):
            quiet(lambda: repr(o))
            quiet(lambda: (o.size, o.offset))
            if x.pos + x.stored >= 1 << 63 or any(y.stored >= 1 << 63 for y in v.parts):
                quiet(o.read_data)  # positions are not meaningful
                continue
            try:
                d = o.read_data()
            except SystemError as ex:
                mc.fail(repr(ex))
            except Exception:
                if v.data(x) is not None:
                    mc.fail("data of part 0x%x is in the archive but can not be read" % x.id)
                continue
            eq("data of part 0x%x" % x.id, d, v.data(x))
    if len({(x.id, x.ref) for x in v.metas}) == len(v.metas):
        for o, x in zip(p.meta, v.metas):
            meta_values("meta 0x%x" % x.id, o, x)
    mc.outcome(len(s), len(v.parts), len(v.metas))


HOSTILE = [
    ("nothing", lambda p: None),
    ("key_id", lambda p: setattr(p, "key_id", 9)),
    ("add_file", lambda p: p.add_file("pn", F100)),
    ("add_meta", lambda p: p.add_meta(MN, data=b"abc")),
    ("delete part", lambda p: p.get_part(PA).delete()),
    ("delete meta", lambda p: p.get_meta(MB, PA).delete()),
    ("write meta", lambda p: setattr(p.get_meta(MA), "raw_data", b"q")),
    ("sign", lambda p: p.sign(KEYS + "/p256-a.pem")),
    ("verify", lambda p: p.verify(KEYS + "/p256-a.pub.pem")),
]


# ---------------------------------------------------------------- failing writes
def fam_fullfs():
    """Every modification while nothing can be written: an exception, and the reported
    values are still those of the archive."""
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    ar = archives()
    for name in ("empty", "two parts"):
        for i, (on, f) in enumerate(OPS):
            if on in ("close()", "with package: pass", "__init__ again, r+", "__init__ again, missing",
                      "second reader", "getters", "drop handles"):
                continue
            for pre, buf in itertools.product((None, "getters", "key_id=0x1234"), (False, True)):
                if not mc.mine():
                    continue
                mc.case("archive '%s', %s, then '%s' while the file can not be written%s" % (
                    name, pre, on, ", all output buffered" if buf else ""))
                if buf:
                    os.environ["C23_BUF"] = "1"
                e = Env(ar[name], "r+")
                os.environ.pop("C23_BUF", None)
                if pre:
                    dict(OPS)[pre](e)
                s = e.s
                full_op(e, f)
                if rd(W) != s:
                    mc.fail("the archive changed")
                e.s = s
                values(e, not buf)  # what is in the buffer may be written later
                quiet(e.p.close)
                e.h.clear()
                e.p = None
                mc.stat["transitions"] += 1
                mc.stat["evaluations"] += 1


def full_op(e, f):
    global attempt
    keep = attempt
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)

    # the expected result is worked out before nothing can be written
    def nowrite(e, call, new, check=None):
        changes = new is not None and new != e.s
        resource.setrlimit(resource.RLIMIT_FSIZE, (0, hard))
        try:
            call()
        except SystemError as x:
            mc.fail(repr(x))
        except Exception:
            return False
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        if changes:
            mc.fail("reported success although nothing was written")
        return False
    attempt = nowrite
    try:
        f(e)
    finally:
        attempt = keep


# ---------------------------------------------------------------- transport
def fam_transport():
    o = S0 + "/origin.bpak"
    t = S0 + "/target.bpak"
    pt = S0 + "/patch.bpak"
    out = S0 + "/out.bpak"
    encs = [("bsdiff", "bspatch"), ("bsdiff-lzma", "bspatch-lzma"), ("bsdiff-no-comp", "bspatch-no-comp"), None]
    pkg_id = ident("bpak-package")

    def mk(seed, n, enc):
        s = add_part(empty(), PA, fill(n, seed))
        s = add_part(s, PB, fill(300, seed))
        s = add_meta(s, pkg_id, 0, 16, UUID)
        return rehash(s)
    for ei, enc in enumerate(encs):
        for n in (1, 5000):
            for seq in itertools.product(("encode", "encode no origin", "decode", "decode no origin",
                                          "close origin", "close target", "close patch", "sign target",
                                          "reopen patch", "wrong type"),
                                         repeat=3 if mc.thorough else 2):
                if not mc.mine():
                    continue
                mc.case("transport %r, %d bytes: %s" % (enc, n, "; ".join(seq)))
                wr(o, mk(1, n, None))
                wr(t, mk(2, n, None))
                if enc:
                    if run_tool("transport", t, "--add", "--part", "pa", "--encoder", enc[0], "--decoder", enc[1]):
                        raise RuntimeError("transport --add")
                P = dict(origin=bpak.Package(o, "r"), target=bpak.Package(t, "r+"), patch=bpak.Package(pt, "w+"),
                         out=bpak.Package(out, "w+"))
                alive = dict(origin=True, target=True, patch=True, out=True)
                shadow = dict(patch=None)
                for a in seq:
                    mc.stat["transitions"] += 1
                    step_transport(a, P, alive, o, t, pt, out)
                for p in P.values():
                    p.close()
                del P, p
                if fds() != run_sequence.fds:
                    mc.fail("a file descriptor stays open")
                mc.stat["evaluations"] += 1


def step_transport(a, P, alive, o, t, pt, out):
    if a.startswith("close"):
        n = a.split()[1]
        P[n].close()
        alive[n] = False
        return
    if a == "sign target":
        if alive["target"]:
            P["target"].sign(KEYS + "/p256-a.pem")
        else:
            raises("sign closed", lambda: P["target"].sign(KEYS + "/p256-a.pem"))
        return
    if a == "reopen patch":
        if os.path.getsize(pt):
            P["patch"] = bpak.Package(pt, "r+")
            alive["patch"] = True
        return
    if a == "wrong type":
        raises("transport_encode(int)", lambda: bpak.transport_encode(5, P["patch"]))
        raises("transport_decode(None)", lambda: bpak.transport_decode(P["patch"], None))
        raises("transport_encode()", lambda: bpak.transport_encode())
        raises("transport_encode(origin=int)", lambda: bpak.transport_encode(P["target"], P["patch"], 5))
        return
    enc = a.startswith("encode")
    org = "no origin" not in a
    src, dst, dn = ("target", "patch", pt) if enc else ("patch", "out", out)
    sp = t if enc else pt
    able = alive[src] and alive[dst] and (alive["origin"] or not org)
    want = None
    if able:
        ref = S0 + "/ref.bpak"
        if os.path.exists(ref):
            os.unlink(ref)
        args = ["transport", sp, "--encode" if enc else "--decode", "--output", ref]
        if org:
            args += ["--origin", o]
        rc = run_tool(*args)
        if rc < 0:
            mc.fail("tool ended with signal %d" % -rc)
        want = rd(ref) if rc == 0 else None
    f = bpak.transport_encode if enc else bpak.transport_decode
    args = [P[src], P[dst]] + ([P["origin"]] if org else [])
    try:
        r = f(*args)
    except SystemError as x:
        mc.fail(repr(x))
    except Exception as x:
        if want is not None:
            mc.fail("%s raised %r, the tool succeeds" % (a, x))
        mc.note("refused transports")
        return
    if want is None:
        mc.fail("%s reported success, the tool refuses" % a)
    got = rd(dn)
    if got != want:
        mc.fail("%s: the result differs from the tool's (%d and %d bytes)" % (a, len(got), len(want)))
    v = View(got)
    eq("parts of the result", [(x.id, x.size, x.is_transport_encoded) for x in P[dst].parts],
       [(x.id, x.stored, bool(x.flags & F_TRANSPORT)) for x in v.parts])
    for x, y in zip(P[dst].parts, v.parts):
        eq("data of the result", x.read_data(), v.data(y))
    eq("digest of the result", P[dst].digest, v.digest())
    mc.outcome(a, len(got))
    mc.state(got)


# ---------------------------------------------------------------- module level
def fam_module():
    s = archives()["two parts"]

    class Cb:
        def __init__(self):
            self.n = 0

        def __call__(self, level, msg):
            self.n += 1
            if type(level) is not int or type(msg) is not str:
                raise RuntimeError("types")

    def raising(level, msg):
        raise ValueError("from the log function")

    def bad_sig():
        pass

    def use():
        wr(W, s)
        p = bpak.Package(W, "r+")
        p.add_file("pn", F100)
        p.sign(KEYS + "/p256-a.pem")
        p.verify(KEYS + "/p256-a.pub.pem")
        raises("add", lambda: p.add_file("pn", F100))
        p.get_part(PA).delete()
        p.close()
    cbs = [("object", lambda: Cb()), ("raising", lambda: raising), ("wrong signature", lambda: bad_sig),
           ("not callable", lambda: 5), ("None", lambda: None), ("lambda", lambda: (lambda a, b: None)),
           ("not utf-8 message", None)]
    for d in (1, 2):
        for seq in itertools.product(range(len(cbs)), repeat=d):
            if not mc.mine():
                continue
            mc.case("set_log_func: %s" % ", ".join(cbs[i][0] for i in seq))
            for i in seq:
                if cbs[i][1] is None:
                    # a file name that is not valid UTF-8 shows up in messages
                    bpak.set_log_func(lambda a, b: None)
                    quiet(lambda: bpak.Package(b"/nonexistent/\xff\xfe", "r"))
                    quiet(lambda: bpak.Package("/nonexistent/\u00e5", "r"))
                    continue
                quiet(lambda: bpak.set_log_func(cbs[i][1]()))
                gc.collect()
                trash = [bytearray(64) for _ in range(200)]
                del trash
                try:
                    use()
                except SystemError as x:
                    mc.fail("interpreter inconsistency: %r" % x)
                except ValueError as x:
                    if "log function" not in str(x):
                        raise
                except TypeError:
                    pass
                mc.stat["transitions"] += 1
            bpak.set_log_func(None)
            use()
            mc.stat["evaluations"] += 1
    names = ["", "a", "bpak-package", "x" * 1000, "pa"]
    for n in names:
        if mc.mine():
            mc.case("id(%r)" % n[:20])
            eq("id", bpak.id(n), ident(n))
            mc.stat["evaluations"] += 1
    if mc.mine():
        mc.case("id with unsuitable arguments")
        for x in (5, None, b"x", "a\0b"):
            raises("id(%r)" % (x,), lambda: bpak.id(x))
        raises("id()", lambda: bpak.id())
        mc.stat["evaluations"] += 1
    if mc.mine():
        mc.case("objects that were never opened")
        p = bpak.Package.__new__(bpak.Package)
        closed_calls(p, {})
        for a in ("key_id", "hash_kind", "keystore_id", "signature_kind"):
            raises(a, lambda: setattr(p, a, 1))
        raises("signature", lambda: setattr(p, "signature", b"x"))
        raises("add_file", lambda: p.add_file("pn", F100))
        raises("add_key", lambda: p.add_key("pk", KEYS + "/p256-a.pub.pem"))
        raises("add_meta", lambda: p.add_meta(MN, data="x"))
        raises("sign", lambda: p.sign(KEYS + "/p256-a.pem"))
        raises("encode", lambda: bpak.transport_encode(p, p))
        raises("decode", lambda: bpak.transport_decode(p, p, p))
        quiet(p.close)
        quiet(p.__enter__)
        mc.stat["evaluations"] += 1
    for cls in (bpak.Part, bpak.Meta):
        if not mc.mine():
            continue
        mc.case("direct construction of %s" % cls.__name__)
        try:
            o = cls()
        except Exception:
            o = None
        if o is None:
            try:
                o = cls.__new__(cls)
            except Exception:
                o = None
        if o is None:
            try:
                o = object.__new__(cls)
            except Exception:
                o = None
        if o is not None:
            for a in dir(o):
                if not a.startswith("__"):
                    quiet(lambda: getattr(o, a))
                    quiet(lambda: getattr(o, a)())
            quiet(lambda: repr(o))
        del o
        mc.stat["evaluations"] += 1
    for k in range(2):
        if not mc.mine():
            continue
        mc.case("cycle through the package and its handles, subclass %d" % k)
        wr(W, s)

        class Sub(bpak.Package):
            pass
        c = (bpak.Package, Sub)[k]
        p = c(W, "r+")
        q = p.get_part(PA)
        m = p.get_meta(MA)
        del p
        eq("part after the package variable went", q.read_data(), fill(100, 1))
        eq("meta after the package variable went", m.as_string(), "hello")
        del q, m
        if fds() != run_sequence.fds:
            mc.fail("a file descriptor stays open")
        mc.stat["evaluations"] += 1


# ---------------------------------------------------------------- arguments of every kind
def allocated():
    """Bytes allocated in the interpreter (address sanitizer's count), or None."""
    import ctypes
    try:
        f = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    except AttributeError:
        return lambda: None
    f.restype = ctypes.c_size_t
    return f


def fam_args():
    import pathlib
    base = archives()["two parts"]
    key, pub = KEYS + "/p256-a.pem", KEYS + "/p256-a.pub.pem"
    new = S0 + "/args-new"

    class Index:
        def __index__(self):
            return 7

    class BadIndex:
        def __index__(self):
            raise KeyError("index")

    class BadPath:
        def __fspath__(self):
            raise KeyError("path")

    class BadBool:
        def __bool__(self):
            raise KeyError("bool")

    class Int(int):
        pass
    # name, value
    pool = [("None", None), ("5", 5), ("0", 0), ("-1", -1), ("2**32-1", 2**32 - 1), ("2**32", 2**32), ("2**70", 2**70), ("PA", PA),
            ("MA", MA), ("True", True), ("int subclass", Int(9)), ("1.5", 1.5), ("'pn'", "pn"), ("''", ""), ("'a\\0b'", "a\0b"),
            ("not ascii", "\u00e5\u4e2d"), ("surrogate", "\udcff"), ("lone surrogate", "\ud800"), ("b'pn'", b"pn"), ("b'a\\0b'", b"a\0b"),
            ("bytearray", bytearray(b"pn")), ("memoryview", memoryview(b"pn")), ("path", F100), ("path bytes", F100.encode()),
            ("Path", pathlib.Path(F100)), ("public key", pub), ("private key", key), ("__index__", Index()), ("bad __index__", BadIndex()),
            ("bad __fspath__", BadPath()), ("bad __bool__", BadBool()), ("list", [1]), ("5 kB string", "q" * 5000), ("70 kB bytes", b"q" * 70000)]
    V = dict(pool)

    def ok(kind, x):
        """Whether the value is one the parameter takes at all."""
        if kind == "fs":
            if isinstance(x, pathlib.PurePath):
                return True
            if isinstance(x, str):
                try:
                    return "\0" not in x and bool(os.fsencode(x) or True)
                except UnicodeError:
                    return False
            return isinstance(x, bytes) and b"\0" not in x
        if kind == "s":
            if not isinstance(x, str) or "\0" in x:
                return False
            try:
                x.encode()
                return True
            except UnicodeError:
                return False
        if kind == "id":
            return isinstance(x, int) and 0 <= x < 2**32
        if kind == "byte":
            return isinstance(x, int) and 0 <= x < 256
        if kind == "bool":
            return not isinstance(x, BadBool)
        if kind == "n":
            return isinstance(x, Index) or isinstance(x, int) and -2**63 <= x < 2**63
        if kind == "data":
            return x is not None and (isinstance(x, bytes) or isinstance(x, str) and x.isascii())
        if kind == "sig":
            return isinstance(x, bytes)
        return True
    small = ["None", "5", "-1", "2**32", "PA", "MA", "'pn'", "'a\\0b'", "not ascii", "b'pn'", "1.5", "bad __index__", "__index__"]
    paths = ["None", "5", "'a\\0b'", "lone surrogate", "b'a\\0b'", "path", "path bytes", "Path", "public key", "private key", "bad __fspath__", "bytearray", "''"]
    names = ["None", "5", "'pn'", "''", "'a\\0b'", "lone surrogate", "b'pn'", "not ascii", "5 kB string", "bytearray"]
    ids = ["None", "0", "PA", "MA", "-1", "2**32-1", "2**32", "2**70", "'pn'", "1.5", "__index__", "True", "int subclass"]
    flags = ["None", "True", "0", "bad __bool__", "list"]
    full = [n for n, _ in pool]
    M = [("sign", lambda p: p.sign, [("sign_key_path", "fs", full)], 1),
         ("verify", lambda p: p.verify, [("verify_key_path", "fs", full)], 1),
         ("add_file", lambda p: p.add_file, [("part_name", "s", names), ("filename", "fs", paths), ("with_merkle_tree", "bool", flags)], 2),
         ("add_key", lambda p: p.add_key, [("part_name", "s", names), ("filename", "fs", paths)], 2),
         ("add_meta", lambda p: p.add_meta, [("id", "id", ids), ("part_id_ref", "id", ids),
                                             ("data", "data", ["None", "5", "'pn'", "''", "'a\\0b'", "not ascii", "b'pn'", "b'a\\0b'", "bytearray", "5 kB string", "70 kB bytes", "1.5"]),
                                             ("size", "n", ["None", "0", "5", "-1", "2**32", "2**70", "1.5", "'pn'", "__index__", "bad __index__", "True"])], 1),
         ("get_part", lambda p: p.get_part, [("id", "id", full)], 1),
         ("get_meta", lambda p: p.get_meta, [("id", "id", full), ("part_id_ref", "id", ids)], 1),
         ("id", lambda p: bpak.id, [("string", "s", full)], 1),
         ("set_log_func", lambda p: bpak.set_log_func, [("log_func", "call", full)], 1)]
    size = allocated()

    def case(what, f, bad, rep=6, keep=True):
        """f(p): the call. bad: it has to raise and change nothing."""
        mc.case(what)
        grown = []
        for r in range(rep):
            wr(W, base)
            e = Env(base, "r+")
            h = {n: e.h.pop(n) for n in list(e.h)}
            del h
            p = e.p
            before = fds()
            a = size()
            try:
                f(p)
            except SystemError as x:
                mc.fail("interpreter inconsistency: %r" % x)
            except Exception as x:
                x.__traceback__ = None
                del x
                refused = True
            else:
                refused = False
            b = size()
            if bad and not refused:
                mc.fail("an unsuitable argument is accepted")
            if fds() != before:
                mc.fail("a file descriptor stays open")
            if r in (0, 3):
                got = rd(W)
                if refused and keep and got != base:
                    mc.fail("the refused call changed the archive")
                e.s = got
                bpak.set_log_func(None)
                values(e)
            e.p.close()
            e = p = None
            bpak.set_log_func(None)
            if a is not None:
                grown.append(size() - a)
        mc.stat["transitions"] += rep
        mc.stat["evaluations"] += 1
        mc.outcome(what.split("(")[0], refused)
        return grown

    def leak(what, f, bad):
        """Repeating a call does not accumulate memory: the package stays open."""
        if size() is None:
            return
        wr(W, base)
        p = bpak.Package(W, "r+")

        def once():
            try:
                f(p)
            except Exception as x:
                x.__traceback__ = None
        for _ in range(6):
            once()
        use = []
        for _ in range(3):
            a = size()
            for _ in range(40):
                once()
            use.append(size() - a)
        # an occasional growth is the interpreter's business; steady growth is a leak
        if min(use) >= 40 * 16:
            mc.fail("%s: every call leaves memory behind (%d bytes per call)" % (what, min(use) // 40))
        p.close()
        bpak.set_log_func(None)
        mc.stat["transitions"] += 126

    for mn, get, params, need in M:
        for n in range(len(params) + 1):
            for combo in itertools.product(*[q[2] for q in params[:n]]):
                if mn == "add_meta" and n == 4 and not mc.thorough and sum(not ok(params[i][1], V[combo[i]]) for i in range(3)) > 1:
                    continue
                for kw in (False, True):
                    if kw and (n == 0 or mn == "add_meta" and n == 4 and not mc.thorough):
                        continue
                    if not mc.mine():
                        continue
                    vals = [V[c] for c in combo]
                    bad = n < need or any(not ok(params[i][1], vals[i]) for i in range(n))
                    if mn == "set_log_func":
                        bad = n < 1 or vals[0] is not None
                    if mn == "add_meta":
                        bad = bad or n < 3     # neither initial data nor a size
                    if kw:
                        d = {params[i][0]: vals[i] for i in range(n)}
                        f = (lambda p: get(p)(**d))
                    else:
                        f = (lambda p: get(p)(*vals))
                    what = "%s(%s)%s" % (mn, ", ".join(combo), " by keyword" if kw else "")
                    case(what, f, bad, 1)
                    leak(what, f, bad)
        if mn == "add_meta":
            for i, x in itertools.product(ids, params[3][2]):
                if mc.mine():
                    f = (lambda p: p.add_meta(V[i], size=V[x]))
                    bad = not ok("id", V[i]) or not ok("n", V[x])
                    case("add_meta(%s, size=%s)" % (i, x), f, bad, 1)
                    leak("add_meta(%s, size=%s)" % (i, x), f, bad)
        # too many arguments, unknown and repeated keywords
        if mc.mine():
            g = [V["MA"] if q[1] == "id" else V["path"] if q[1] == "fs" else 3 if q[1] == "n" else "pn" for q in params]
            for what, f in (("%s(too many arguments)" % mn, lambda p: get(p)(*g, 1)),
                            ("%s(unknown keyword)" % mn, lambda p: get(p)(*g[:need], nosuch=1)),
                            ("%s(the first twice)" % mn, lambda p: get(p)(*g[:need], **{params[0][0]: g[0]}))):
                case(what, f, True, 1)
                leak(what, f, True)
    # attributes
    targets = [("package", lambda p: p, [("key_id", "id"), ("keystore_id", "id"), ("hash_kind", "byte"), ("signature_kind", "byte"),
                                         ("signature", "sig")]),
               ("part", lambda p: p.get_part(PA), [("id", "id")]),
               ("meta", lambda p: p.get_meta(MA), [("id", "id"), ("part_id_ref", "id"), ("raw_data", "data")])]
    fixed = [("package", ("digest", "installed_size", "size", "parts", "meta")), ("part", ("size", "offset", "is_transport_encoded")),
             ("meta", ("size",))]
    nothing = object()
    for tn, get, attrs in targets:
        attrs = attrs + [(a, None) for t, L in fixed if t == tn for a in L]
        for an, kind in attrs:
            for vn, v in pool + [("delete", nothing)]:
                if not mc.mine():
                    continue
                if v is nothing:
                    f = (lambda p: delattr(get(p), an))
                else:
                    f = (lambda p: setattr(get(p), an, v))
                if v is None or v is nothing:
                    bad = kind != "sig"     # the signature can be cleared
                else:
                    bad = kind is None or not ok(kind, v)
                if an == "part_id_ref" and v is None:
                    bad = False
                what = "%s.%s = %s" % (tn, an, vn)
                case(what, f, bad, 1)
                leak(what, f, bad)
    # reading every attribute and calling every method without parameters
    readers = [("package", lambda p: p), ("part", lambda p: p.get_part(PA)), ("transport part", lambda p: p.get_part(PB)),
               ("meta", lambda p: p.get_meta(MA)), ("uuid meta", lambda p: p.get_meta(MB, PA)), ("short meta", lambda p: p.get_meta(MA, PA))]
    for tn, get in readers:
        wr(W, base)
        o = bpak.Package(W, "r+")
        L = [a for a in dir(get(o)) if not a.startswith("_")] + ["__repr__", "__hash__", "__str__"]
        o.close()
        o = None
        for a in L:
            if not mc.mine():
                continue

            def f(p):
                x = getattr(get(p), a)
                if callable(x) and a not in ("close",):
                    x()
            case("%s.%s" % (tn, a), f, False, 1)
            leak("%s.%s" % (tn, a), f, False)
    # transport functions and opening
    objs = [("package", None), ("other", None), ("closed", None), ("None", None), ("5", 5), ("Part", None), ("str", "x")]
    for fn in ("transport_encode", "transport_decode"):
        for n in range(4):
            for combo in itertools.product(objs, repeat=n):
                if not mc.mine():
                    continue

                def f(p):
                    wr(new, base)
                    o = bpak.Package(new, "r+")
                    c = bpak.Package(new, "r")
                    c.close()
                    d = {"package": p, "other": o, "closed": c, "Part": p.get_part(PA), "5": 5, "str": "x", "None": None}
                    try:
                        getattr(bpak, fn)(*[d[k] for k, _ in combo])
                    finally:
                        o.close()
                bad = n < 2 or any(k not in ("package", "other") for k, _ in combo)
                what = "%s(%s)" % (fn, ", ".join(k for k, _ in combo))
                # what a failed transport operation leaves in its output is not specified
                case(what, f, bad, 1, [k for k, _ in combo[1:2]] != ["package"])
                leak(what, f, bad)
    modes = ["None", "5", "''", "b'pn'", "'a\\0b'", "lone surrogate", "5 kB string"]
    for n in range(3):
        for combo in itertools.product(*[paths + ["list"], modes + ["r", "r+", "rb", "q", "rw", "r+b", "rx"]][:n]):
            if not mc.mine():
                continue
            vals = [V.get(c, c) for c in combo]

            def f(p):
                bpak.Package(*vals).close()
            what = "Package(%s)" % ", ".join(combo)
            case(what, f, n < 2 or not ok("fs", vals[0]) or not ok("s", vals[1]) or combo[0] in ("''", "path", "path bytes", "Path", "public key", "private key"), 1)
            leak(what, f, True)


    # cycles that come back to where they started, with the package usable, closed, not
    # writable and cut short
    def call(x, *a, **k):
        try:
            return x(*a, **k)
        except Exception as y:
            y.__traceback__ = None

    def delete(x):
        if x is not None:
            call(x.delete)

    def everything(p):
        for a in ("digest", "size", "installed_size", "key_id", "keystore_id", "hash_kind", "signature"):
            call(getattr, p, a)
        for x in p.parts:
            call(x.read_data)
            repr(x)
        for x in p.meta:
            call(x.as_string)
            call(x.as_uuid)
            repr(x)
    cycles = [
        ("add and delete a file", lambda p: delete(call(p.add_file, "pn", F5K))),
        ("add and delete a tree", lambda p: [delete(call(p.add_file, "pt", F5K, True))] + [delete(x) for x in (call(p.get_part, ident("pt-hash-tree")),)]
         + [delete(x) for x in (call(lambda: list(p.meta)[3:]) or ())]),
        ("add and delete a key", lambda p: delete(call(p.add_key, "pk", pub))),
        ("add and delete a string", lambda p: delete(call(p.add_meta, MN, data="text"))),
        ("add and delete bytes", lambda p: delete(call(p.add_meta, MN, PA, b"text", 9))),
        ("sign and verify", lambda p: (call(p.sign, key), call(p.verify, pub))),
        ("set and clear the signature", lambda p: (call(setattr, p, "signature", b"1234"), call(setattr, p, "signature", None))),
        ("change ids", lambda p: [call(setattr, p, a, 4) for a in ("key_id", "keystore_id", "hash_kind", "signature_kind")]),
        ("text and bytes", lambda p: [call(setattr, call(p.get_meta, MA), "raw_data", x) for x in ("abc", b"abcd", "hello")]),
        ("rename part", lambda p: [call(setattr, call(p.get_part, x), "id", y) for x, y in ((PA, 55), (55, PA))]),
        ("rename meta", lambda p: [call(setattr, call(p.get_meta, x), "id", y) for x, y in ((MA, 55), (55, MA))]),
        ("read everything", lambda p: call(everything, p)),
        ("open again", lambda p: call(p.__init__, W, "r+")),
        ("with statement", lambda p: (call(p.__enter__), call(p.__exit__, None, None, None), call(p.__init__, W, "r+"))),
        ("log function", lambda p: logging(p, lambda a, b: [a])),
        ("raising log function", lambda p: logging(p, lambda a, b: 1 // 0)),
        ("encode and decode", lambda p: transports(p)),
    ]

    def logging(p, f):
        bpak.set_log_func(f)
        call(p.verify, pub)
        call(p.verify, NOFILE)
        call(p.sign, key)
        delete(call(p.add_file, "pn", F5K))
        bpak.set_log_func(None)

    def transports(p):
        for fn in ("transport_encode", "transport_decode"):
            for args in (False, True):
                wr(new, base)
                o = bpak.Package(new, "r+")
                call(getattr(bpak, fn), p, o, *((p,) if args else ()))
                o.close()
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    hook = sys.unraisablehook
    sys.unraisablehook = lambda *a: None
    for st in ("open", "closed", "reader", "cut short", "not writable"):
        for cn, cy in cycles:
            if st == "not writable" and cn in ("encode and decode",):
                continue
            if not mc.mine():
                continue
            mc.case("%s: %s" % (st, cn))
            if size() is None:
                continue
            wr(W, base[:-3000] if st == "cut short" else base)
            p = bpak.Package(W, "r" if st == "reader" else "r+")
            if st == "closed":
                p.close()
            before = fds()
            if st == "not writable":
                resource.setrlimit(resource.RLIMIT_FSIZE, (0, hard))
            try:
                for _ in range(6):
                    cy(p)
                    if st == "closed":
                        p.close()
                use = []
                for _ in range(3):
                    gc.collect()
                    a = size()
                    for _ in range(20):
                        cy(p)
                        if st == "closed":
                            p.close()
                    gc.collect()
                    use.append(size() - a)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            if min(use) >= 20 * 16:
                mc.fail("every cycle leaves memory behind (%d bytes)" % (min(use) // 20))
            if fds() != before:
                mc.fail("a file descriptor stays open")
            call(p.close)
            p = None
            mc.stat["transitions"] += 66
            mc.stat["evaluations"] += 1
    sys.unraisablehook = hook


# ---------------------------------------------------------------- log function that uses the package
def fam_reenter():
    base = archives()["two parts"]
    other = S0 + "/re2"
    key, pub = KEYS + "/p256-a.pem", KEYS + "/p256-a.pub.pem"
    enc = S0 + "/re-enc"
    wr(T, base)
    if run_tool("add", T, "--meta", "bpak-package", "--encoder", "uuid",
                "--from-string", "0888b0fa-9c48-4524-9845-06a641b61edd") or \
       run_tool("transport", T, "--add", "--part", "pa", "--encoder", "bsdiff", "--decoder", "bspatch") or \
       run_tool("transport", T, "--encode", "--origin", T, "--output", enc):
        raise RuntimeError("preparing the encoded archive failed")
    tsrc = rd(T)

    def opened(path, content):
        wr(path, content)
        return bpak.Package(path, "rb+")

    def transport(f, a):
        def prepare():
            P2.extend((opened(S0 + "/re-a", a), opened(S0 + "/re-b", tsrc)))

        def g(p):
            f(P2[0], p, P2[1])
        g.prepare = prepare
        return g
    P2 = []
    outer = [
        ("add_file", lambda p: p.add_file("pn", F5K)), ("add_file tree", lambda p: p.add_file("pt", F5K, with_merkle_tree=True)),
        ("add_file missing", lambda p: p.add_file("pn", NOFILE)), ("add_key", lambda p: p.add_key("pk", pub)),
        ("sign", lambda p: p.sign(key)), ("verify", lambda p: p.verify(pub)), ("verify missing", lambda p: p.verify(NOFILE)),
        ("delete", lambda p: p.get_part(PA).delete()), ("digest", lambda p: p.digest),
        ("key_id", lambda p: setattr(p, "key_id", 3)), ("signature", lambda p: setattr(p, "signature", b"x" * 70)),
        ("add_meta", lambda p: p.add_meta(MN, data="x")), ("meta delete", lambda p: p.get_meta(MA).delete()),
        ("read_data", lambda p: p.get_part(PB).read_data()), ("__init__", lambda p: p.__init__(W, "r+")),
        ("__init__ missing", lambda p: p.__init__(NOFILE, "r+")), ("close", lambda p: p.close()),
        ("encode", transport(bpak.transport_encode, tsrc)), ("decode", transport(bpak.transport_decode, rd(enc))),
        ("encode self", lambda p: bpak.transport_encode(p, p)), ("decode self", lambda p: bpak.transport_decode(p, p, p)),
    ]

    def swap(p):
        bpak.set_log_func(None)
    inner = [
        ("close", lambda p: p.close()), ("__init__ same", lambda p: p.__init__(W, "r+")),
        ("__init__ other", lambda p: p.__init__(other, "w+")), ("delete pa", lambda p: p.get_part(PA).delete()),
        ("delete pb", lambda p: p.get_part(PB).delete()), ("add_file", lambda p: p.add_file("px", F100)),
        ("add_meta", lambda p: p.add_meta(ident("px"), data="y")), ("delete ma", lambda p: p.get_meta(MA).delete()),
        ("raw_data", lambda p: setattr(p.get_meta(MA), "raw_data", bytes(40))), ("key_id", lambda p: setattr(p, "key_id", 9)),
        ("id", lambda p: setattr(p.get_part(PA), "id", 77)), ("meta id", lambda p: setattr(p.get_meta(MA), "id", 77)),
        ("sign", lambda p: p.sign(key)), ("verify", lambda p: p.verify(pub)), ("digest", lambda p: p.digest),
        ("signature", lambda p: setattr(p, "signature", b"q")), ("read", lambda p: [x.read_data() for x in p.parts]),
        ("values", lambda p: ([repr(x) for x in p.parts], [(repr(x), x.raw_data) for x in p.meta], p.size)),
        ("encode", lambda p: bpak.transport_encode(p, p)), ("decode", lambda p: bpak.transport_decode(p, p)),
        ("exit", lambda p: p.__exit__(None, None, None)), ("other log function", swap), ("collect", lambda p: gc.collect()),
        ("close the others", lambda p: [x.close() for x in P2]), ("forget the others", lambda p: P2.clear()),
        ("delete others' part", lambda p: [x.get_part(PA).delete() for x in P2]),
    ]
    points = 12 if mc.thorough else 4
    hook = sys.unraisablehook
    for on, of in outer:
        for kn, kf in inner:
            for at in range(points):
                if not mc.mine():
                    continue
                mc.case("%s, log call %d performs %s" % (on, at, kn))
                # what the operation does when left alone
                wr(W, base)
                p = bpak.Package(W, "r+")
                n = [0]
                getattr(of, "prepare", int)()
                quiet(lambda: of(p))
                for x in P2:
                    x.close()
                P2.clear()
                quiet(p.close)
                alone = rd(W)
                # and with the log function
                wr(W, base)
                if os.path.exists(other):
                    os.unlink(other)
                p = bpak.Package(W, "r+")
                res = []

                def cb(level, msg):
                    n[0] += 1
                    if n[0] == at + 1:
                        try:
                            kf(p)
                            res.append(True)
                        except SystemError as x:
                            res.append(x)
                        except Exception:
                            res.append(False)
                getattr(of, "prepare", int)()
                bpak.set_log_func(cb)
                try:
                    of(p)
                except SystemError as x:
                    mc.fail("interpreter inconsistency: %r" % x)
                except Exception:
                    pass
                bpak.set_log_func(None)
                if res and isinstance(res[0], SystemError):
                    mc.fail("interpreter inconsistency: %r" % res[0])
                e = Env.__new__(Env)
                e.p, e.h, e.mode = p, {}, "r+"
                for x in P2:
                    quiet(x.close)
                P2.clear()
                quiet(p.close)
                if res and res[0] is False and rd(W) != alone:
                    mc.fail("the refused operation of the log function changed the result")
                if not res and rd(W) != alone:
                    mc.fail("the result is different with a log function that does nothing")
                if res and res[0]:
                    # what was done by both is still an archive that agrees with itself
                    for f in (W, other):
                        if os.path.exists(f) and os.path.getsize(f):
                            if f != W:
                                wr(W, rd(f))
                            e.p, e.s, e.closed = bpak.Package(W, "r+"), rd(W), False
                            values(e)
                            e.p.close()
                e.p = p = None
                if fds() != run_sequence.fds:
                    gc.collect()
                    if fds() != run_sequence.fds:
                        mc.fail("a file descriptor stays open")
                mc.stat["transitions"] += 2
                mc.stat["evaluations"] += 1
                mc.outcome(on, kn, res[0] if res else None)
    sys.unraisablehook = hook


def body(mc):
    run_sequence.fds = fds()
    fam = os.environ.get("C23_FAM")
    for n, f in (("module", fam_module), ("open", fam_open), ("hostile", fam_hostile), ("full", fam_fullfs),
                 ("transport", fam_transport), ("reenter", fam_reenter), ("args", fam_args), ("seq", fam_sequences)):
        if not fam or n in fam:
            f()
            gc.collect()
    mc.sample("; ".join(OPS[i][0] for i in (0, 9, len(OPS) - 9)))


mc.main(body)
