"""Independent construction and parsing of archives (the on-disk layout of docs/ and
include/bpak/bpak.h); nothing of the library is used here."""
import hashlib, struct, zlib

HDR, NMETA, NPART, MBYTES, ALIGN = 4096, 32, 32, 1920, 512
MAGIC = 0x42504132
O_META, O_PART = 8, 8 + 16 * NMETA
O_MDATA = O_PART + 32 * NPART
O_HK = O_MDATA + MBYTES
O_SK, O_AL, O_PH = O_HK + 1, O_HK + 2, O_HK + 4
O_KEY, O_KS = O_PH + 64, O_PH + 68
O_SIG, O_SIGSZ = 4096 - 514, 4096 - 2
HASH = {1: "sha256", 2: "sha384", 3: "sha512"}
F_NOHASH, F_TRANSPORT = 1, 2


def ident(name):
    return zlib.crc32(name.encode(), 0xffffffff) ^ 0xffffffff


class Part:
    __slots__ = ("slot", "id", "size", "offset", "tsize", "pad", "flags", "pos", "stored")


class Meta:
    __slots__ = ("slot", "id", "size", "offset", "ref", "data")


class View:
    """What the bytes of an archive say."""

    def __init__(self, s):
        self.s = s
        self.parts, self.metas = [], []
        pos = HDR
        for i in range(NPART):
            v = struct.unpack_from("<IQQQHB", s, O_PART + 32 * i)
            if not v[0]:
                continue
            p = Part()
            p.slot = i
            p.id, p.size, p.offset, p.tsize, p.pad, p.flags = v
            p.stored = p.tsize if p.flags & F_TRANSPORT else p.size + p.pad
            p.pos = pos
            pos += p.stored
            self.parts.append(p)
        self.end = pos
        for i in range(NMETA):
            v = struct.unpack_from("<IHHI", s, O_META + 16 * i)
            if not v[0]:
                continue
            m = Meta()
            m.slot = i
            m.id, m.size, m.offset, m.ref = v
            m.data = s[O_MDATA + m.offset:O_MDATA + m.offset + m.size]
            self.metas.append(m)
        self.hash_kind, self.signature_kind = s[O_HK], s[O_SK]
        self.key_id, self.keystore_id = struct.unpack_from("<II", s, O_KEY)
        self.sigsz = struct.unpack_from("<H", s, O_SIGSZ)[0]
        self.signature = s[O_SIG:O_SIG + min(self.sigsz, 512)]

    def part(self, i):
        for p in self.parts:
            if p.id == i:
                return p

    def meta(self, i, ref=0):
        for m in self.metas:
            if m.id == i and m.ref == ref:
                return m

    def data(self, p):
        """Data of a part without padding; None when the archive does not contain it."""
        n = p.tsize if p.flags & F_TRANSPORT else p.size
        return self.s[p.pos:p.pos + n] if p.pos + n <= len(self.s) else None

    def payload_hash(self):
        if self.hash_kind not in HASH or self.end > len(self.s):
            return None
        h = hashlib.new(HASH[self.hash_kind])
        for p in self.parts:
            if not p.flags & F_NOHASH:
                h.update(self.s[p.pos:p.pos + p.stored])
        return h.digest()

    def digest(self):
        ph = self.payload_hash()
        if ph is None:
            return None
        b = bytearray(self.s[:HDR])
        b[O_PH:O_PH + len(ph)] = ph
        b[O_SIG:] = bytes(514)
        return hashlib.new(HASH[self.hash_kind], bytes(b)).digest()


def put(s, off, data):
    return s[:off] + data + s[off + len(data):]


def u32(s, off, v):
    return put(s, off, struct.pack("<I", v))


def empty(hash_kind=1, sign_kind=2):
    b = bytearray(HDR)
    struct.pack_into("<I", b, 0, MAGIC)
    b[O_HK], b[O_SK] = hash_kind, sign_kind
    struct.pack_into("<H", b, O_AL, ALIGN)
    return rehash(bytes(b))


def rehash(s):
    h = View(s).payload_hash()
    return put(s, O_PH, h)


def al8(n):
    return (n + 7) & ~7


def add_meta(s, ident_, ref, size, data=b""):
    """None: there is no room, or the entry exists already."""
    v = View(s)
    if not 0 < ident_ < 1 << 32 or not 0 <= ref < 1 << 32 or not 0 <= size < 65536:
        return None
    if v.meta(ident_, ref) or len(v.metas) == NMETA:
        return None
    off = sum(al8(m.size) for m in v.metas)
    if off + size > MBYTES:
        return None
    s = put(s, O_META + 16 * len(v.metas), struct.pack("<IHHI", ident_, size, off, ref))
    d = data[:size]
    return put(s, O_MDATA + off, d + bytes(size - len(d)) if not data else d)


def del_meta(s, ident_, ref):
    v = View(s)
    keep = [m for m in v.metas if not (m.id == ident_ and m.ref == ref)]
    b = put(s, O_META, bytes(16 * NMETA))
    b = put(b, O_MDATA, bytes(MBYTES))
    off = 0
    for i, m in enumerate(keep):
        b = put(b, O_META + 16 * i, struct.pack("<IHHI", m.id, m.size, off, m.ref))
        b = put(b, O_MDATA + off, s[O_MDATA + m.offset:O_MDATA + m.offset + al8(m.size)])
        off += al8(m.size)
    return b


def add_part(s, ident_, data, flags=0, tdata=None):
    """Appends a part; tdata: the stored bytes of a transport encoded part."""
    v = View(s)
    i = len(v.parts)
    size = len(data)
    pad = -size % ALIGN
    s = s[:v.end]
    off = HDR + sum(p.size + p.pad for p in v.parts)
    if tdata is not None:
        hdr = struct.pack("<IQQQHB", ident_, size, off, len(tdata), pad, flags | F_TRANSPORT)
        body = tdata
    else:
        hdr = struct.pack("<IQQQHB", ident_, size, off, 0, pad, flags)
        body = data + bytes(pad)
    return rehash(put(s, O_PART + 32 * i, hdr) + body)
