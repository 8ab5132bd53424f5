"""The exploration runtime of mc/mc.[ch] for explorers written in Python: same command
line, same output files, same exit codes (10 violation, 90 harness trouble)."""
import array, hashlib, mmap, os, signal, sys


class Violation(Exception):
    pass


class MC:
    def __init__(self, argv):
        a = dict(zip(argv[0::2], argv[1::2]))
        self.thorough = a.get("--tier") == "thorough"
        i, n = a["--shard"].split("/")
        self.shard, self.nshards = int(i), int(n)
        self.scratch = a["--scratch"]
        self.repo = a["--repo"]
        self.only = int(a["--only"]) if "--only" in a else None
        self.out = open(a["--out"], "w")
        self.statep = a["--states"]
        fd = os.open(a["--journal"], os.O_RDWR | os.O_CREAT)
        os.ftruncate(fd, 65536)
        self.j = mmap.mmap(fd, 65536)
        self.j[0:32] = b"-1\n".ljust(32, b"\0")
        self.j[32:38] = b"start\0"
        self.known = set(open(a["--known"]).read().split()) if "--known" in a else set()
        self.idx = -1
        self.states, self.distinct = set(), set()
        self.stat = {"transitions": 0, "evaluations": 0}
        self.notes, self.samples = {}, []
        self.case_text = "start"

    def mine(self):
        self.idx += 1
        if self.only is not None:
            return self.idx == self.only
        return self.idx % self.nshards == self.shard

    def case(self, text):
        self.case_text = text
        t = text.encode("utf-8", "replace")[:60000]
        self.j[32:33 + len(t)] = t + b"\0"
        self.j[0:32] = (b"%d\n" % self.idx).ljust(32, b"\0")
        signal.setitimer(signal.ITIMER_PROF, 60)  # default action: the process ends

    @staticmethod
    def h(*parts):
        m = hashlib.blake2b(digest_size=8)
        for p in parts:
            m.update(p if isinstance(p, bytes) else repr(p).encode())
        return int.from_bytes(m.digest(), "little")

    def state(self, *parts):
        v = self.h(*parts)
        new = v not in self.states
        self.states.add(v)
        return new

    def outcome(self, *parts):
        self.distinct.add(self.h(*parts))

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def sample(self, t):
        if len(self.samples) < 3:
            self.samples.append(t)

    def fail(self, msg):
        if os.environ.get("MC_SURVEY"):
            print("SURVEY\t%s\t%s" % (self.case_text, msg), flush=True)
            return
        raise Violation(msg)

    def finish(self):
        o = self.out
        for k, v in self.stat.items():
            o.write("STAT\t%s\t%d\n" % (k, v))
        o.write("STAT\tcases\t%d\n" % (self.idx + 1))
        for k, v in self.notes.items():
            o.write("NOTE\t%s\t%d\n" % (k, v))
        for s in self.samples:
            o.write("SAMPLE\t%s\n" % s.replace("\n", " "))
        with open(self.statep, "wb") as f:
            for s in (self.states, self.distinct):
                f.write(len(s).to_bytes(8, "little"))
                f.write(array.array("Q", s).tobytes())
        o.write("DONE\n")
        o.close()

    def main(self, body):
        try:
            body(self)
        except Violation as e:
            self.out.write("VIOLIDX\t%d\nVIOLCASE\t%s\nVIOL\t%s\n" % (
                self.idx, self.case_text.replace("\n", " "), str(e).replace("\n", " ")))
            self.out.close()
            os._exit(10)
        except BaseException:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(90)
        self.finish()
        sys.stdout.flush()
        os._exit(0)
