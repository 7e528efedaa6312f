"""Choice-sequence property-based testing engine.

A test case is the sequence of bounded integers a generator drew from `G`.
That makes every case replayable (give the sequence back), shrinkable (edit the
sequence towards shorter / smaller) and mutable (coverage-guided search).
"""
import hashlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback


class Reject(Exception):
    """The generated case does not satisfy a precondition; it is not counted."""


class Violation(AssertionError):
    """The property does not hold on this case."""


class Hang(BaseException):
    """The case used more CPU time than any correct run could need."""


def check(cond, msg='check failed', *args):
    if not cond:
        if callable(msg):
            msg = msg()
        raise Violation(msg % args if args else msg)


def eq(a, b, msg=''):
    if a != b:
        raise Violation(f"{msg}\n   got:      {short(a)}\n   expected: {short(b)}")


def short(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def assume(cond):
    if not cond:
        raise Reject()


class G:
    """Source of choices. Choice 0 is always the simplest alternative."""
    __slots__ = ('prefix', 'rnd', 'rec', 'sample', 'nontrivial', 'key', 'tags', 'limit')

    def __init__(self, rnd=None, prefix=()):
        self.prefix = prefix
        self.rnd = rnd
        self.rec = []
        self.sample = None
        self.nontrivial = True
        self.key = None
        self.tags = set()
        self.limit = 20000

    def draw(self, n):
        """Integer in [0, n)."""
        i = len(self.rec)
        if i >= self.limit:
            raise Reject()
        if n <= 1:
            v = 0
            self.rec.append(0)
            return 0
        if i < len(self.prefix):
            v = self.prefix[i]
            if v >= n:
                v = n - 1
        elif self.rnd is not None:
            v = self.rnd.randrange(n)
        else:
            v = 0
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, p=0.5):
        return self.draw(1000) >= 1000 - int(1000 * p)

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value), ...] the first one is the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def list(self, fn, lo=0, hi=8, p=0.7):
        out = []
        while len(out) < hi and (len(out) < lo or self.bool(p)):
            out.append(fn())
        return out

    def size(self, lo, hi):
        """A list size biased to small, deletable values."""
        if hi <= lo:
            return lo
        k = self.draw(3)
        if k == 0:
            return self.int(lo, min(hi, lo + 4))
        if k == 1:
            return self.int(lo, min(hi, lo + (hi - lo + 1) // 2))
        return self.int(lo, hi)

    def perm(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def subset(self, seq, p=0.5, lo=0):
        out = [x for x in seq if self.bool(p)]
        if len(out) < lo:
            rest = [x for x in seq if x not in out]
            while len(out) < lo and rest:
                out.append(rest.pop(self.draw(len(rest))))
            out = [x for x in seq if x in out]
        return out

    def text(self, alphabet, lo=0, hi=8, p=0.6):
        return ''.join(self.list(lambda: self.choice(alphabet), lo, hi, p))

    def note(self, sample, nontrivial=True, key=None):
        self.sample = sample
        self.nontrivial = bool(nontrivial)
        self.key = key

    def tag(self, *tags):
        """Coverage features: cases with a new tag are kept as seeds for mutation."""
        self.tags.update(tags)


# --------------------------------------------------------------------------- coverage
_TOOL = 3
_new_lines = set()


def start_coverage(prefix):
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, 'vf')
    except ValueError:
        return
    ev = mon.events.LINE

    def on_line(code, line):
        if code.co_filename.startswith(prefix):
            _new_lines.add((code.co_filename, line))
        return mon.DISABLE
    mon.register_callback(_TOOL, ev, on_line)
    mon.set_events(_TOOL, ev)


# --------------------------------------------------------------------------- running
def _on_alarm(signum, frame):
    raise Hang('CPU limit per case exceeded')


CPU_LIMIT = 20.0


class Outcome:
    __slots__ = ('ok', 'rejected', 'msg', 'g', 'exc')

    def __init__(self, ok, rejected, msg, g, exc=None):
        self.ok, self.rejected, self.msg, self.g, self.exc = ok, rejected, msg, g, exc


class HarnessError(Exception):
    pass


def execute(fn, rnd=None, prefix=(), cpu=CPU_LIMIT):
    g = G(rnd, prefix)
    old_out, old_err = sys.stdout, sys.stderr
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        try:
            fn(g)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            sys.stdout, sys.stderr = old_out, old_err
        return Outcome(True, False, None, g)
    except Reject:
        return Outcome(True, True, None, g)
    except Violation as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if 'engine.py' not in f.filename]
        loc = f"{os.path.basename(where[-1].filename)}:{where[-1].lineno} in {where[-1].name}" if where else ''
        return Outcome(False, False, f"{e}\n   at {loc}", g, e)
    except HarnessError:
        raise
    except Hang as e:
        return Outcome(False, False, f"Hang: more than {cpu} s of CPU time", g, e)
    except MemoryError as e:
        return Outcome(False, False, "MemoryError: runaway memory use", g, e)
    except Exception as e:  # an unexpected exception out of the code under test
        msg = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        return Outcome(False, False, f"Unexpected {type(e).__name__}: {e}\n{short(msg, 2500)}", g, e)


def _lt(a, b):
    return (len(a), a) < (len(b), b)


def shrink(fn, choices, budget_s=25, max_exec=1500):
    """Greedy shrinking of a failing choice sequence (shortlex order)."""
    t0 = time.time()
    n_exec = 0
    best = execute(fn, None, choices)
    if best.ok:
        return list(choices), None, n_exec
    cur = list(best.g.rec)
    while cur and cur[-1] == 0:
        cur.pop()
    seen = set()

    def attempt(cand):
        nonlocal cur, best, n_exec
        cand = list(cand)
        while cand and cand[-1] == 0:
            cand.pop()
        t = tuple(cand)
        if t in seen or not _lt(cand, cur) or n_exec >= max_exec or time.time() - t0 > budget_s:
            return False
        seen.add(t)
        n_exec += 1
        o = execute(fn, None, cand, cpu=10)
        if o.ok:
            return False
        rec = list(o.g.rec)
        while rec and rec[-1] == 0:
            rec.pop()
        if _lt(rec, cand):
            cand = rec
        cur, best = cand, o
        return True

    improved = True
    while improved and n_exec < max_exec and time.time() - t0 < budget_s:
        improved = False
        for size in (64, 32, 16, 8, 5, 4, 3, 2, 1):
            i = len(cur) - size
            while i >= 0:
                if attempt(cur[:i] + cur[i + size:]):
                    improved = True
                i -= 1 if size < 8 else size // 2
                i = min(i, len(cur) - size)
        for size in (8, 4, 2):
            i = 0
            while i < len(cur):
                if any(cur[i:i + size]) and attempt(cur[:i] + [0] * min(size, len(cur) - i) + cur[i + size:]):
                    improved = True
                i += size
        i = 0
        while i < len(cur):
            if cur[i]:
                if attempt(cur[:i] + [0] + cur[i + 1:]):
                    improved = True
                else:
                    lo, hi = 0, cur[i]
                    while lo + 1 < hi:
                        mid = (lo + hi) // 2
                        if i < len(cur) and attempt(cur[:i] + [mid] + cur[i + 1:]):
                            improved = True
                            hi = mid
                        else:
                            lo = mid
                    if i < len(cur) and cur[i]:
                        if attempt(cur[:i] + [cur[i] - 1] + cur[i + 1:]):
                            improved = True
                        for k in (1, 2, 3, 4):
                            if i < len(cur) and cur[i] and attempt(cur[:i] + [cur[i] - 1] + cur[i + 1 + k:]):
                                improved = True
                                break
            i += 1
    return cur, best, n_exec


def mutate(rnd, seq):
    seq = list(seq)
    for _ in range(1 + rnd.randrange(4)):
        if not seq:
            return seq
        k = rnd.randrange(5)
        i = rnd.randrange(len(seq))
        if k == 0:
            seq[i] = rnd.choice((0, 1, 2, seq[i] + 1, max(0, seq[i] - 1), rnd.randrange(1000)))
        elif k == 1:
            del seq[i:i + 1 + rnd.randrange(4)]
        elif k == 2:
            j = rnd.randrange(len(seq))
            chunk = seq[j:j + 1 + rnd.randrange(8)]
            seq[i:i] = chunk
        elif k == 3:
            seq[i:i] = [rnd.randrange(1000) for _ in range(1 + rnd.randrange(3))]
        else:
            seq = seq[:i]
    return seq


def run_shard(prop, facet, fn, seed, indices, deadline, mutate_share=0.25, stop_on_fail=True):
    """Run the cases with the given indices. Returns a JSON-able result dict."""
    signal.signal(signal.SIGVTALRM, _on_alarm)
    res = dict(facet=facet, evaluations=0, rejected=0, mutated=0, hashes=[], samples=[], failures=[], tags=[],
               truncated=False)
    hashes = set()
    corpus = []
    seen_tags = set()
    for i in indices:
        if time.time() > deadline:
            res['truncated'] = True
            break
        rnd = random.Random(f"{seed}/{prop}/{facet}/{i}")
        prefix = ()
        if corpus and rnd.random() < mutate_share:
            prefix = mutate(rnd, rnd.choice(corpus))
            res['mutated'] += 1
        _new_lines.clear()
        o = execute(fn, rnd, prefix)
        if o.rejected:
            res['rejected'] += 1
            continue
        res['evaluations'] += 1
        g = o.g
        if _new_lines or not (g.tags <= seen_tags):
            seen_tags |= g.tags
            if len(corpus) < 400:
                corpus.append(list(g.rec))
        if g.nontrivial:
            if g.key is not None:
                k = g.key
            elif isinstance(g.sample, str):
                k = g.sample
            else:
                k = repr(g.rec)
            h = int.from_bytes(hashlib.blake2b(k.encode('utf-8', 'surrogatepass') if isinstance(k, str) else repr(k).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')
            if h not in hashes:
                hashes.add(h)
                if len(res['samples']) < 2 and g.sample is not None and len(hashes) % 7 == 3:
                    res['samples'].append(short(g.sample, 900))
        if not o.ok:
            choices, best, n_exec = shrink(fn, g.rec)
            if best is None:
                best = o
                choices = list(g.rec)
            res['failures'].append(dict(facet=facet, index=i, choices=choices, message=short(best.msg, 4000),
                                        sample=short(best.g.sample, 4000) if best.g.sample is not None else None,
                                        original_message=short(o.msg, 1500), shrink_execs=n_exec,
                                        reproducible=not execute(fn, None, choices).ok))
            if stop_on_fail:
                break
    res['hashes'] = sorted(hashes)
    res['tags'] = sorted(map(str, seen_tags))[:200]
    res['lines'] = None
    return res
