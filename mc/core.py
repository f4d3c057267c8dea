"""
The explorer: runs every unit of a bounded space against the real code,
counts what it visited, and turns the first disagreement with the oracle into
a replayable artefact.

A property module registers  units(tier) -> list of JSON-able shards  and
explore(rec, unit), which enumerates its shard exhaustively.  Every shard runs
in a forked process of its own, so no shard sees state another one left in the
library (module globals, caches), and a shard replays to the same result.
"""
import hashlib
import importlib
import itertools
import json
import logging
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REGISTRY = {}          # id -> dict(units=, explore=, bounds=, assumptions=)


class Violation(Exception):
    def __init__(self, msg, case=None):
        Exception.__init__(self, msg)
        self.msg, self.case = msg, case


class Timeout(BaseException):
    pass


def register(pid, bounds, units, explore, assumptions=()):
    REGISTRY[pid] = dict(units=units, explore=explore, bounds=bounds, assumptions=list(assumptions))


def mod(name):
    """a module of the library under test, or None if it does not exist (any more)"""
    return importlib.import_module('structrans' + ('.' + name if name else ''))


def opt(name, attr):
    """an attribute of a module of the library, or None when the tree does not have it"""
    try:
        return getattr(mod(name), attr, None)
    except ImportError:
        return None


def jsonable(x):
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            return x.tolist()
        if isinstance(x, np.generic):
            return x.item()
    except ImportError:
        pass
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


class Rec:
    """what one shard visited"""

    def __init__(self, known=()):
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self._outcomes = set()
        self.known = set(known)
        self.hit = []
        self.skipped = []
        self.ctx = None

    # -- counting ----------------------------------------------------------
    def state(self, key):
        """a state (input configuration, object state, schedule prefix) was visited; True if new"""
        h = hash(repr(key)) if not isinstance(key, (list, dict)) else hash(json.dumps(jsonable(key), sort_keys=True))  # repr: hash(-1) == hash(-2)
        n = len(self._states)
        self._states.add(h)
        return len(self._states) > n

    def trace(self, sample=None, outcome=None):
        """one complete execution of the real code was compared with the oracle"""
        self.traces += 1
        if sample is not None and len(self.samples) < 2:
            self.samples.append(jsonable(sample))
        if outcome is not None and len(self._outcomes) < 100000:
            self._outcomes.add(hash(str(outcome)))

    def skip(self, what):
        if what not in self.skipped:
            self.skipped.append(what)

    # -- the real code -----------------------------------------------------
    def call(self, fn, *args, **kwargs):
        """one step of the real code; an exception is a violation"""
        self.transitions += 1
        try:
            return fn(*args, **kwargs)
        except (Violation, Timeout):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = '%s:%d' % (os.path.basename(tb[-1][0]), tb[-1][1])
            raise Violation('%s raised %s: %s (at %s)' % (getattr(fn, '__name__', fn), type(e).__name__, e, loc),
                            dict(args=jsonable(args), kwargs=jsonable(kwargs), context=jsonable(self.ctx)))

    def refuses(self, exc, fn, *args, **kwargs):
        """one step of the real code that has to raise exc"""
        self.transitions += 1
        try:
            r = fn(*args, **kwargs)
        except exc:
            return
        except (Violation, Timeout):
            raise
        except Exception as e:
            raise Violation('%s raised %s: %s instead of %s' % (
                getattr(fn, '__name__', fn), type(e).__name__, e, exc),
                dict(args=jsonable(args), kwargs=jsonable(kwargs), context=jsonable(self.ctx)))
        raise Violation('%s accepted an input it has to refuse' % getattr(fn, '__name__', fn),
                        dict(args=jsonable(args), kwargs=jsonable(kwargs), result=jsonable(r),
                             context=jsonable(self.ctx)))

    def require(self, cond, msg, fid=None, **case):
        if cond:
            return
        if fid is not None and fid in self.known:
            if fid not in self.hit:
                self.hit.append(fid)
            return
        case['context'] = self.ctx
        raise Violation(msg, jsonable(case))

    def dump(self):
        return dict(states=len(self._states), transitions=self.transitions, traces=self.traces,
                    samples=self.samples, outcomes=len(self._outcomes), hit=self.hit, skipped=self.skipped)


def _run_unit(job):
    pid, unit, known, cpu_limit, seed = job
    rec = Rec(known)
    t0 = time.time()

    def onalarm(signum, frame):
        raise Timeout()
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    err, sys.stderr = sys.stderr, sys.stdout
    viol = None
    try:
        logging.disable(logging.CRITICAL)
        warnings.simplefilter('ignore')
        import numpy as np
        np.seterr(all='ignore')
        np.random.seed(seed)
        # CPU time, so that a busy machine is not mistaken for a hang
        signal.signal(signal.SIGVTALRM, onalarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu_limit)
        try:
            REGISTRY[pid]['explore'](rec, unit)
        except Violation as v:
            viol = dict(msg=v.msg, case=v.case)
        except Timeout:
            viol = dict(msg='no answer within %d s of CPU time' % cpu_limit, case=jsonable(rec.ctx))
        except Exception as e:
            viol = dict(msg='harness could not interpret the result: %s: %s' % (type(e).__name__, e),
                        case=dict(context=jsonable(rec.ctx), tb=traceback.format_exc().splitlines()[-6:]))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    finally:
        sys.stdout, sys.stderr = out, err
    d = rec.dump()
    d['viol'], d['unit'], d['wall'] = viol, unit, time.time() - t0
    return d


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def run(pid, tier, seed=1, procs=None, only_unit=None, verbose=False):
    t0 = time.time()
    P = REGISTRY[pid]
    known = [k for k in load_known() if k['property'] == pid and k['status'] == 'known']
    units = [only_unit] if only_unit is not None else P['units'](tier)
    limit = 400 if tier == 'quick' else 7200
    jobs = [(pid, u, [k['id'] for k in known], limit, seed) for u in units]
    res, viol = [], None
    ctx = multiprocessing.get_context('fork')
    procs = procs or min(int(os.environ.get('VERIF_PROCS', '8')), len(jobs))
    pool = ctx.Pool(max(1, procs), maxtasksperchild=1)
    try:
        for r in pool.imap_unordered(_run_unit, jobs, chunksize=1):
            res.append(r)
            if verbose:
                sys.stderr.write('%s %.1fs %s\n' % (json.dumps(r['unit'])[:100], r['wall'], r['viol'] and r['viol']['msg']))
            if r['viol']:
                viol = r
                break
    finally:
        pool.terminate()
        pool.join()
    tot = lambda k: sum(r[k] for r in res)
    samples = [s for r in res for s in r['samples']][:6]
    skipped = sorted(set(s for r in res for s in r['skipped']))
    hits = sorted(set(h for r in res for h in r['hit']))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=tot('states'), transitions=tot('transitions'),
                            traces_validated_against_impl=tot('traces'),
                            distinct_outcomes=tot('outcomes'), shards=len(res), shards_planned=len(jobs),
                            samples=samples, exhaustive=viol is None and not skipped,
                            bounds=P['bounds'][tier] if isinstance(P['bounds'], dict) else P['bounds'],
                            counting='states: distinct configurations/objects/histories visited; transitions: calls '
                                     'of the library made; traces: complete executions compared with the oracle',
                            parts_not_present_in_this_tree=skipped),
              assumptions=P['assumptions'], wall_s=round(time.time() - t0, 2),
              violations=1 if viol else 0)
    replay = None
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        body = dict(property=pid, tier=tier, unit=viol['unit'], message=viol['viol']['msg'], case=viol['viol']['case'],
                    how='/verif/check.sh %s replay <this file>' % pid)
        txt = json.dumps(body, indent=1, sort_keys=True, default=repr)
        replay = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, hashlib.sha1(txt.encode()).hexdigest()[:10]))
        with open(replay, 'w') as f:
            f.write(txt)
    if only_unit is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp%d' % (pid, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    return ev, viol, replay, hits, known


def shard(items, n):
    """round-robin split of a list in at most n non-empty parts"""
    items = list(items)
    return [s for s in (items[i::n] for i in range(n)) if s]


def product_dicts(**kw):
    keys = sorted(kw)
    for vals in itertools.product(*[kw[k] for k in keys]):
        yield dict(zip(keys, vals))
