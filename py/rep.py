"""The line protocol of check.py, and what every Python workload shares."""
import hashlib
import os
import struct
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")


class Report:
    def __init__(self):
        self.cur, self.stat, self.sigs, self.samples, self.keys = 0, {}, set(), [], set()

    def viol(self, key, detail):
        key = key.replace("\t", " ").replace("\n", " ")[:150]
        if key in self.keys or len(self.keys) > 12:
            return
        self.keys.add(key)
        print("VIOL\t%s\t%d\t%s" % (key, self.cur, str(detail).replace("\n", " ").replace("\t", " ")[:800]), flush=True)

    def count(self, k, n=1):
        self.stat[k] = self.stat.get(k, 0) + n

    def sig(self, s):
        self.sigs.add(hashlib.md5(str(s).encode()).hexdigest()[:14])

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s).replace("\n", " ").replace("\t", " ")[:500])

    def finish(self):
        for k, v in sorted(self.stat.items()):
            print("STAT\t%s\t%d" % (k, v))
        for s in self.samples:
            print("SAMPLE\t%s" % s)
        print("\t".join(["SIGS"] + sorted(self.sigs)))
        print("DONE\t%d" % len(self.keys), flush=True)


def main(case, report, around=None):
    """argv: seed first count progress-file"""
    seed, first, n = (int(x) for x in sys.argv[1:4])
    out = os.open(sys.argv[4], os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
    for k in range(first, first + n):
        report.cur = k
        os.pwrite(out, struct.pack("<Q", k), 0)
        case(seed, k)
    report.finish()
    sys.stdout.flush()
    os._exit(0)


def mock_module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    parent, _, leaf = name.rpartition(".")
    if parent in sys.modules:
        setattr(sys.modules[parent], leaf, m)
    return m
