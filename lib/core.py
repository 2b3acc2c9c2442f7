"""Worker-side machinery: cases, counters, verdicts (runs under the project's interpreter)."""
import hashlib
import importlib
import io
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

if __name__ == '__main__':
    sys.modules['core'] = sys.modules['__main__']

CASE_CPU_S = 90          # CPU seconds after which a case counts as "does not return"
MAX_VIOL = 40            # per worker


class Runaway(Exception):
    """An operator was applied far more often than any budget allows."""


class Hang(BaseException):
    """A case used up its CPU allowance."""


class Skip(Exception):
    """The generated case is outside the property's domain."""


def seed_of(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:4], 'little')


class Ctx(object):
    """What a case reports to."""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.counts = {}
        self.maxima = {}
        self.sigs = set()
        self.samples = []
        self.viol = []
        self.case = None
        self.family = None
        self.checks = 0
        self._case_sig = None
        self._nontrivial = False
        self._bad = 0
        self.keyed = {}          # violations whose mechanism is known, by key
        self.hangs = 0

    # -- observations ------------------------------------------------------------------
    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + int(k)

    def maximum(self, name, v):
        v = float(v)
        if not v <= self.maxima.get(name, -1.0):
            self.maxima[name] = v

    def sig(self, *parts):
        """Identify the case: what it consisted of (for counting distinct ones)."""
        self._case_sig = parts
        self._nontrivial = True

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(dict(kw, family=self.family, case=self.case))

    # -- verdicts ----------------------------------------------------------------------
    def fail(self, kind, msg='', key=None):
        """Record a violation. `key` names the mechanism when it can be told."""
        self._bad += 1
        if key:
            self.keyed[key] = self.keyed.get(key, 0) + 1
            if self.keyed[key] > 5:
                return
        if len(self.viol) < MAX_VIOL:
            self.viol.append(dict(kind=kind, key=key, msg=str(msg)[:2000], case=self.case,
                                  family=self.family))

    def check(self, ok, kind, msg='', key=None):
        self.checks += 1
        if not ok:
            self.fail(kind, msg() if callable(msg) else msg, key)
        return bool(ok)

    def close(self, got, want, kind, rtol=1e-9, scale=None, msg='', key=None, atol=0.0):
        """got ~ want in the max norm, relative to max(|want|, scale)."""
        self.checks += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(kind, '%s: shape %r instead of %r' % (msg, got.shape, want.shape), key)
            return False
        if got.size == 0:
            return True
        if got.dtype == object:
            self.fail(kind, '%s: object array' % msg, key)
            return False
        ref = float(np.max(np.abs(want)))
        if scale is not None:
            ref = max(ref, float(scale))
        dev = float(np.max(np.abs(got - want)))
        tol = rtol * ref + atol
        if ref > 0 and dev == dev:
            self.maximum('dev/tol ' + kind, dev / tol if tol else (0.0 if dev == 0 else 1e300))
        if not dev <= tol:
            self.fail(kind, '%s: deviation %.3e exceeds %.3e; got %s expected %s'
                      % (msg, dev, tol, brief(got), brief(want)), key)
            return False
        return True

    def raises(self, types, f, kind, msg=''):
        self.checks += 1
        try:
            r = f()
        except types:
            return True
        except (Runaway, Hang):
            raise
        except Exception as e:  # noqa
            self.fail(kind, '%s: raised %r instead of %s' % (msg, e, types))
            return False
        self.fail(kind, '%s: returned %s instead of raising %s' % (msg, brief(r), types))
        return False


def brief(a):
    s = repr(a)
    return s if len(s) < 240 else s[:240] + '...'


class Quiet(object):
    """Capture what is written to standard output."""

    def __enter__(self):
        self.saved, sys.stdout = sys.stdout, io.StringIO()
        return self

    def __exit__(self, *a):
        self.text = sys.stdout.getvalue()
        sys.stdout = self.saved
        return False


def plan(mod, tier):
    """The list of (family name, function, index within the family) of one run."""
    out = []
    for name, fun, quick, thorough in mod.FAMILIES:
        k = quick if tier == 'quick' else thorough
        out.extend((name, fun, i) for i in range(k))
    return out


def run_case(ctx, prop, seed, name, fun, i):
    ctx.case, ctx.family = i, name
    ctx._case_sig, ctx._nontrivial, ctx._bad = None, False, 0
    before = ctx.checks
    rng = np.random.RandomState(seed_of('case', seed, prop, name, i))
    np.random.seed(seed_of('global', seed, prop, name, i) & 0x7fffffff)

    def on_alarm(*_):
        raise Hang()
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    out = sys.stdout
    try:
        fun(ctx, rng, i)
    except Skip:
        ctx.count('skipped cases')
    except Hang:
        ctx.hangs += 1
        ctx.fail('no-bounded-progress', 'case used %d s of CPU without finishing' % CASE_CPU_S)
    except Runaway as e:
        ctx.fail('runaway', str(e))
    except MemoryError:
        raise
    except Exception as e:  # noqa
        tb = traceback.format_exc().splitlines()
        ctx.fail('exception', '%r | %s' % (e, ' | '.join(x.strip() for x in tb[-6:])))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.stdout = out
    ctx.count('cases:' + name)
    if ctx._nontrivial and ctx.checks > before:
        ctx.sigs.add(hashlib.sha256(repr((name, ctx._case_sig)).encode()).hexdigest()[:16])


def main(argv):
    build, prop, tier, seed, shard, nshards, dest = argv[:7]
    deadline = float(argv[7])
    only = argv[8] if len(argv) > 8 else None
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, build)
    mod = importlib.import_module('props.' + prop.lower())
    import pykrylov
    assert os.path.abspath(pykrylov.__file__).startswith(os.path.abspath(build)), pykrylov.__file__
    t0 = time.time()
    ctx = Ctx(prop, tier)
    todo = plan(mod, tier)
    if only:
        fam, idx = only.rsplit(':', 1)
        todo = [(n, f, int(idx)) for n, f, _, _ in mod.FAMILIES if n == fam]
    else:
        todo = todo[shard::nshards]
    done = 0
    for name, fun, i in todo:
        run_case(ctx, prop, seed, name, fun, i)
        done += 1
        if len(ctx.viol) >= MAX_VIOL or ctx.hangs >= 3 or time.time() - t0 > deadline:
            break
    res = dict(done=done, planned=len(todo), counts=ctx.counts, maxima=ctx.maxima,
               sigs=sorted(ctx.sigs), samples=ctx.samples, viol=ctx.viol, keyed=ctx.keyed, checks=ctx.checks,
               wall=time.time() - t0, rule=mod.RULE, required=list(getattr(mod, 'REQUIRED', [])))
    with open(dest + '.part', 'w') as f:
        json.dump(res, f, default=str)
    os.replace(dest + '.part', dest)


if __name__ == '__main__':
    main(sys.argv[1:])
