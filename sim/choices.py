"""The single source of every decision of a simulated run.

A run is a pure function of (code under test, scenario, list of integers).
In search mode the integers come from a PRNG seeded from VERIF_SEED and the run
number; in replay mode they come from the replay file, and 0 (the simplest
choice: keep running the same task, inject no fault, shortest workload) is used
once the list is exhausted.
"""
import hashlib
import random


class Choices:
    __slots__ = ("rng", "script", "pos", "log", "names", "keep_names")

    def __init__(self, seed=None, script=None, keep_names=False):
        self.rng = None if seed is None else random.Random(seed)
        self.script = script
        self.pos = 0
        self.log = []
        self.keep_names = keep_names
        self.names = []

    def draw(self, n, label=""):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.script is not None:
            if self.pos < len(self.script):
                v = self.script[self.pos]
                if v >= n:
                    v %= n
            else:
                v = 0
            self.pos += 1
        else:
            v = int(self.rng.random() * n)
        self.log.append(v)
        if self.keep_names:
            self.names.append(label)
        return v

    # -- helpers; in all of them a drawn 0 is the simplest outcome
    def integer(self, lo, hi, label=""):
        return lo + self.draw(hi - lo + 1, label)

    def chance(self, p, label=""):
        """True with probability p; 0 means False."""
        if p <= 0:
            return False
        return self.draw(1000, label) >= 1000 - int(round(p * 1000))

    def pick(self, seq, label=""):
        return seq[self.draw(len(seq), label)]

    def weighted(self, pairs, label=""):
        """pairs: [(item, weight)], the first is the simplest."""
        total = sum(w for _, w in pairs)
        v = self.draw(total, label)
        for item, w in pairs:
            if v < w:
                return item
            v -= w
        raise AssertionError

    def shuffle(self, seq, label=""):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i, label)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def seed32(self, label=""):
        return self.draw(2**31, label)


def derive_seed(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")
