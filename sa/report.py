"""Obligation bookkeeping, known findings, evidence and verdicts."""
import ctypes
import importlib
import json
import os
import sys
import threading
import time
import traceback
from .program import Program, AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('SA_EVIDENCE', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')

TRUSTED = ['CPython ast parser', 'the analyser in /verif/sa (value-graph construction, normal form, effect trees)',
           'numpy/torch operations have their documented meaning', 'class hierarchy is closed (no monkey patching, no foreign subclass)']


class Budget(BaseException):
    """Raised inside an analysis that runs over its time budget."""


class watchdog:
    """Limits the wall time of one piece of analysis: the piece is abandoned (undecided), never the whole check."""

    def __init__(self, seconds):
        self.seconds = max(seconds, 0.05)

    def __enter__(self):
        self.lock, self.done, self.fired = threading.Lock(), False, False
        self.tid = threading.get_ident()
        self.timer = threading.Timer(self.seconds, self.fire)
        self.timer.daemon = True
        self.timer.start()

    def fire(self):
        with self.lock:
            if not self.done:
                self.fired = True
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.tid), ctypes.py_object(Budget))

    def __exit__(self, kind, e, tb):
        with self.lock:
            self.done = True
        self.timer.cancel()
        if self.fired and kind is not Budget:
            try:
                for _ in range(100000):     # let the pending exception arrive here
                    pass
            except Budget:
                pass
        return False


PART_S, TOTAL_S = 150, 600


class Finding:
    def __init__(self, rule, construct, where, msg):
        self.rule, self.construct, self.where, self.msg = rule, construct, where, msg

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)


class Ctx:
    def __init__(self, prop, tier, prog):
        self.prop, self.tier, self.prog = prop, tier, prog
        self.t0, self.depth = time.time(), 0
        self.held, self.findings, self.undecided = [], [], []
        self.functions, self.calls, self.notes = set(), 0, []

    def ok(self, rule, construct, detail=''):
        self.held.append((rule, construct, detail))

    def bad(self, rule, construct, where, msg):
        f = Finding(rule, construct, where, msg)
        if f.key not in {x.key for x in self.findings}:
            self.findings.append(f)

    def unk(self, rule, construct, why):
        self.undecided.append((rule, construct, why))

    def verdict(self, cond, rule, construct, where, msg, detail=''):
        """cond True: held; False: violated; None: undecided."""
        if cond is True:
            self.ok(rule, construct, detail)
        elif cond is None:
            self.unk(rule, construct, msg)
        else:
            self.bad(rule, construct, where, msg)

    def part(self, name, fn, *args, **kw):
        """One independent piece of a check: an analysis failure leaves that piece undecided."""
        left = self.t0 + TOTAL_S - time.time()
        try:
            with watchdog(min(PART_S, left) if self.depth else TOTAL_S + 30):
                self.depth += 1
                try:
                    fn(self, *args, **kw)
                finally:
                    self.depth -= 1
        except Budget:
            self.unk('analysis', name, 'time budget exceeded')
        except AnalysisError as e:
            self.unk('analysis', name, str(e))
        except (RecursionError, OverflowError) as e:
            self.unk('analysis', name, 'resource limit: %r' % e)
        except Exception as e:
            self.unk('analysis', name, 'internal: %r at %s' % (e, traceback.extract_tb(e.__traceback__)[-1]))

    def used(self, interp):
        self.functions |= interp.n_funcs
        self.calls += interp.n_calls


def load_known():
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property='):
                rest = line[len('known: property='):]
                pid, key, text = rest.split(' ', 2)
                known[(pid, key)] = text
    return known


def run(prop, tier='quick', repo=None, write=True, out=sys.stdout):
    t0 = time.time()
    mod = importlib.import_module('sa.rules.' + prop.lower())
    prog = Program(repo)
    ctx = Ctx(prop, tier, prog)
    from . import spec
    spec.TIER[0] = tier
    ctx.part('check', mod.check)
    known = load_known()
    new, old = [], []
    for f in ctx.findings:
        (old if (prop, f.key.replace(' ', '_')) in known else new).append(f)
    n_ob = len(ctx.held) + len(ctx.findings) + len(ctx.undecided)
    minimum = getattr(mod, 'MIN_OBLIGATIONS', 1) if not os.environ.get('SA_ROWS') else 0
    if n_ob < minimum:
        raise AnalysisError('only %d obligations found, expected at least %d: the anchors of this property have moved' % (n_ob, minimum))
    if len(ctx.held) == 0 and not new:
        raise AnalysisError('nothing could be established (%d undecided): %s' % (len(ctx.undecided), ctx.undecided[:3]))
    wall = time.time() - t0
    by_rule = {}
    for r, c, d in ctx.held:
        by_rule[r] = by_rule.get(r, 0) + 1
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': mod.__doc__.strip(),
            'obligations': n_ob, 'discharged': len(ctx.held), 'undecided': len(ctx.undecided),
            'held_per_rule': by_rule,
            'functions_analysed': len(ctx.functions), 'call_sites_analysed': ctx.calls,
            'modules_parsed': len(prog.modules), 'classes_indexed': len(prog.classes),
            'samples': [{'rule': r, 'construct': c, 'detail': str(d)[:300]} for r, c, d in ctx.held[:400]],
            'undecided_list': [{'rule': r, 'construct': c, 'why': str(w)[:300]} for r, c, w in ctx.undecided],
            'known_findings': [{'rule': f.rule, 'construct': f.construct, 'where': f.where, 'msg': f.msg} for f in old],
            'new_findings': [{'rule': f.rule, 'construct': f.construct, 'where': f.where, 'msg': f.msg} for f in new],
            'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (prop, tier),
            'trusted_base': TRUSTED,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3), 'violations': len(new),
    }
    if write:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, f.key), file=out)
    if new:
        path = os.path.join(EVID, prop + '.violation.json')
        if write:
            with open(path, 'w') as fh:
                json.dump([{'rule': f.rule, 'construct': f.construct, 'where': f.where, 'msg': f.msg} for f in new], fh, indent=1)
        for f in new:
            print('  %s: %s [%s] %s' % (f.rule, f.construct, f.where, f.msg if len(f.msg) < 700 else f.msg[:700] + ' ...'), file=out)
        print('VIOLATION property=%s replay=%s' % (prop, path), file=out)
        return 1, ev
    print('%s: held (%d obligations, %d discharged, %d undecided, %d known findings, %d functions, %.2fs)'
          % (prop, n_ob, len(ctx.held), len(ctx.undecided), len(old), len(ctx.functions), wall), file=out)
    return 0, ev


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=None)
    ap.add_argument('--no-write', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    try:
        rc, ev = run(a.prop, a.tier, a.repo, not a.no_write)
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (a.prop, e))
        return 2
    if a.v:
        for u in ev['coverage']['undecided_list']:
            print('   undecided', u)
        for u in ev['coverage']['samples']:
            print('   held', u)
    return rc
