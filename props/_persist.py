"""Shared by C01-C03: workloads on disk-backed replay stores."""
import errno
import hashlib
import os

from sim import disk as diskmod
from sim.errors import SimCrash, Violation, check

from pfrl.collections import persistent_collections as pc
from pfrl.replay_buffers import PersistentEpisodicReplayBuffer, PersistentReplayBuffer

PRQ = pc.PersistentRandomAccessQueue
_ORIG = PRQ.__dict__.get("chunk_size")


def set_chunk_size(n):
    """Knob: roll data files over every n bytes (shipped value: 2 GiB)."""
    if n is None:
        if _ORIG is not None:
            PRQ.chunk_size = _ORIG
    elif _ORIG is not None:
        PRQ.chunk_size = property(lambda self: n)


def cleanup():
    set_chunk_size(None)


def pick_sizes(ctx):
    ch = ctx.ch
    maxlen = ch.pick([4, None, 1, 2, 3, 5, 8, 12], "maxlen")
    chunk = ch.pick([None, 1, 60, 200, 500, 2000], "chunk")
    return maxlen, chunk


def payload(ch, n):
    size = ch.weighted([(1, 6), (40, 4), (300, 2), (9000, 1), (20000, 1)], "payload")
    return ("item", n, "x%d." % n * (size // 4))


class Store:
    """One open store under test: append(id) / contents() / close()."""

    views = 1

    def __init__(self, kind, path, maxlen, ancestor=None):
        self.kind = kind
        kw = {} if ancestor is None else {"ancestor": ancestor}
        if kind == "queue":
            self.obj = PRQ(path, maxlen, **kw)
        elif kind == "buffer":
            self.obj = PersistentReplayBuffer(path, maxlen, **kw)
        else:
            self.obj = PersistentEpisodicReplayBuffer(path, maxlen, **kw)

    def contents(self):
        """A list of views; each view is the list of stored values, oldest first."""
        if self.kind == "queue":
            n = len(self.obj)
            it = list(self.obj)
            check(n == len(it), "len-mismatch", "len() %d but iteration gives %d", n, len(it))
            check([self.obj[i] for i in range(n)] == it, "index-mismatch", "indexing and iteration disagree")
            return [it]
        if self.kind == "buffer":
            return [[_unwrap(e) for e in _all(self.obj.memory)]]
        return [[_unwrap(e) for e in _all(self.obj.memory)],
                [[t["state"] for t in ep] for ep in _all(self.obj.episodic_memory)]]

    def append(self, v):
        if self.kind == "queue":
            self.obj.append(v)
        elif self.kind == "buffer":
            self.obj.append(state=v, action=0, reward=1.0, next_state=("next", v[1]), is_state_terminal=False)
        else:
            raise AssertionError

    def append_episode(self, vs, terminal):
        for i, v in enumerate(vs):
            self.obj.append(state=v, action=0, reward=1.0, next_state=("next", v[1]),
                            is_state_terminal=terminal and i == len(vs) - 1)
        if not terminal:
            self.obj.stop_current_episode()

    def close(self):
        if self.kind == "queue":
            self.obj.close()
        elif self.kind == "buffer":
            self.obj.memory.close()
        else:
            self.obj.memory.close()
            self.obj.episodic_memory.close()


def _all(q):
    return [q[i] for i in range(len(q))]


def _unwrap(e):
    check(isinstance(e, list) and len(e) == 1, "mangled-entry", "entry is not a one-step transition: %r" % (e,))
    t = e[0]
    check(t["next_state"] == ("next", t["state"][1]) and t["reward"] == 1.0 and t["action"] == 0,
          "mangled-entry", "transition altered: %r" % (t,))
    return t["state"]


def short(v):
    if isinstance(v, tuple) and len(v) == 3:
        return v[1]
    if isinstance(v, list):
        return [short(x) for x in v]
    return v


class View:
    """Reference model of one stored sequence: (value, status) in append order.
    status: 'acked' must survive; 'maybe' may be absent but never altered."""

    def __init__(self):
        self.entries = []

    def add(self, v, status):
        self.entries.append([v, status])

    def clone(self):
        c = View()
        c.entries = [list(e) for e in self.entries]
        return c

    def judge(self, got, maxlen, what, strict=False):
        """got must be the newest entries, all acked ones within reach included.
        strict: of the trailing 'maybe' entries only a prefix may be present."""
        if strict and got:
            k = len(self.entries)
            while k > 0 and self.entries[k - 1][0] != got[-1]:
                k -= 1
            for e in self.entries[:k][-len(got):]:
                if e[0] not in got:
                    raise Violation("lost-item", "%s: have %s, but %s is missing in between (%s)" % (
                        what, short(got), short(e[0]), self.brief()))
        j = len(self.entries) - 1
        for i in range(len(got) - 1, -1, -1):
            while j >= 0 and self.entries[j][1] == "maybe" and self.entries[j][0] != got[i]:
                j -= 1
            if j < 0:
                raise Violation("phantom-item", "%s: %s was never appended here (have %s, expected newest of %s)" % (
                    what, short(got[i]), short(got), self.brief()))
            if self.entries[j][0] != got[i]:
                raise Violation("lost-item", "%s: have %s, expected newest %s of %s" % (
                    what, short(got), maxlen, self.brief()))
            j -= 1
        if maxlen is not None:
            check(len(got) <= maxlen, "over-capacity", "%s: %d items > capacity %d" % (what, len(got), maxlen))
        if maxlen is None or len(got) < maxlen:
            rest = [short(e[0]) for e in self.entries[: j + 1] if e[1] == "acked"]
            check(not rest, "lost-item", "%s: have %s (capacity %s), acknowledged items %s are gone" % (
                what, short(got), maxlen, rest))

    def settle(self, got):
        """After a reopening: 'maybe' entries become facts (present or absent)
        only where visible; entries out of reach keep their status."""
        j = len(self.entries) - 1
        drop = []
        for i in range(len(got) - 1, -1, -1):
            while self.entries[j][0] != got[i]:
                drop.append(j)
                j -= 1
            self.entries[j][1] = "acked"
            j -= 1
        for d in drop:
            del self.entries[d]

    def brief(self):
        return [("%s" % short(v)) + ("?" if s == "maybe" else "") for v, s in self.entries[-30:]]


def tree_hash(path):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(path):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            with open(p, "rb") as fp:
                h.update(os.path.relpath(p, path).encode() + b"\0" + fp.read() + b"\0")
    return h.hexdigest()


class CrashPlan:
    """Crashes at the n-th mutating file operation from now."""

    def __init__(self, ch):
        self.ch = ch
        self.left = None
        self.frac = 0

    def arm(self, horizon):
        self.left = self.ch.draw(horizon, "crash-op")
        self.frac = self.ch.pick([0, 1, 300, 500, 700, 999, 1000], "crash-frac")

    def disarm(self):
        self.left = None

    def __call__(self, op, path, size):
        if self.left is None:
            return None
        if self.left == 0:
            self.left = None
            return ("crash", self.frac)
        self.left -= 1
        return None


class ErrPlan:
    """Transient or lasting disk errors and short writes."""

    def __init__(self, ch):
        self.ch = ch
        self.on = False
        self.rate = ch.pick([0.0, 0.05, 0.15, 0.4], "err-rate")
        self.short = ch.pick([0.0, 0.1, 0.3], "short-rate")
        self.burst = 0
        self.code = errno.ENOSPC
        self.hits = 0
        self.silent = 0  # errors of close(), which may come from the garbage collector
        self.close_faults = ch.chance(0.3, "close-faults")

    def __call__(self, op, path, size):
        if not self.on:
            return None
        if op == "close":
            if self.ch.chance(self.rate, "close-err"):
                self.hits += 1
                self.silent += 1
                return ("errno", errno.EIO, 0)
            return None
        if self.burst > 0:
            self.burst -= 1
            self.hits += 1
            return ("errno", self.code, 0)
        if self.ch.chance(self.rate, "err"):
            self.code = self.ch.pick([errno.ENOSPC, errno.EIO], "errno")
            self.burst = self.ch.pick([0, 1, 2, 5], "burst")
            part = self.ch.pick([0, 1, 300, 700, 990], "err-part")
            if part and op == "write" and size > 1:
                # POSIX: part of the data is written and reported, the rest fails
                self.burst += 1
                return ("short", part)
            self.hits += 1
            return ("errno", self.code, 0)
        if op == "write" and size > 1 and self.ch.chance(self.short, "short"):
            return ("short", self.ch.pick([1, 300, 700, 999], "short-part"))
        return None
