"""Shared scaffolding of the checks: programs under analysis, findings, evidence."""
import json
import os
import re
import time
from . import build, ir, engine, summary, models
from . import terms as T
from .build import AnalysisError, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, key, msg, where=None, trace=None):
        self.key = key          # stable identity: no line numbers
        self.msg = msg
        self.where = where
        self.trace = trace


class Ctx:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.findings = {}
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.obl = 0
        self.done = 0
        self.explanation = ''
        self.functions = []
        self._progs = {}

    # ---------------------------------------------------------------- programs
    def program(self, keep=None, drop=(), mpi=True, extra=(), passes=None):
        """the library as one linked module; functions in keep stay calls, all others are inlined"""
        hk = build.header_functions()
        keep = (set(hk if keep is None else keep) | set(extra)) - set(drop)
        k = (frozenset(keep), mpi, passes)
        if k not in self._progs:
            lls = build.library(mpi)
            kw = {'passes': passes} if passes else {}
            m = ir.parse(build.link_and_opt(lls, keep, **kw))
            S = summary.Summaries(m)
            self._progs[k] = (m, models.Models(S, set(m.funcs)))
        return self._progs[k]

    def raw(self, mpi=True):
        """the linked library with nothing inlined"""
        k = ('raw', mpi)
        if k not in self._progs:
            self._progs[k] = ir.parse(build.run([build.LINK, '-S'] + list(build.library(mpi))).decode())
        return self._progs[k]

    def engine(self, prog, name, monitor, setup=None, **opt):
        m, M = prog
        fn = m.funcs[name]
        e = engine.Engine(m, fn, M, monitor, **opt)
        st = engine.State()
        st.mon = monitor.initial() if monitor is not None and hasattr(monitor, 'initial') else None
        for i, (t, n) in enumerate(fn.args):
            st.env[n] = T.atom(('arg', i, 'p' if t[0] == 'ptr' else 'i'))
        if setup:
            setup(e, st)
        e.run(st)
        self.cov['states'] = self.cov.get('states', 0) + e.nstates
        self.cov['transfer_steps'] = self.cov.get('transfer_steps', 0) + e.nvisits
        return e

    def pmap(self, func, items):
        """func(ctx, item) for every item, in forked workers; their findings and counts are merged"""
        items = list(items)
        import multiprocessing as mp
        global _PM
        _PM = (self, func)
        with mp.get_context('fork').Pool(min(8, max(1, len(items)))) as pool:
            for r in pool.imap_unordered(_pm_run, items, chunksize=1):
                if isinstance(r, str):
                    raise AnalysisError(r)
                fi, cov, smp, obl, done, fns, val = r
                for k, f in fi.items():
                    self.findings.setdefault(k, f)
                for k, v in cov.items():
                    if isinstance(v, int):
                        self.cov[k] = self.cov.get(k, 0) + v
                    elif isinstance(v, list):
                        self.cov[k] = sorted(set(self.cov.get(k, [])) | set(v))
                self.samples += smp
                self.obl += obl
                self.done += done
                self.functions += fns
        self.samples = sorted(self.samples, key=str)[:40]

    # ---------------------------------------------------------------- results
    def obligation(self, ok=True, n=1):
        self.obl += n
        if ok:
            self.done += n

    def violation(self, key, msg, where=None, trace=None):
        if key not in self.findings:
            self.findings[key] = Finding(key, msg, where, trace)

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)


_PM = None


def _pm_run(item):
    import traceback
    ctx, func = _PM
    ctx.findings, ctx.cov, ctx.samples, ctx.obl, ctx.done, ctx.functions = {}, {}, [], 0, 0, []
    try:
        func(ctx, item)
    except AnalysisError as e:
        return 'in %s: %s' % (item, e)
    except Exception:
        return 'in %s: %s' % (item, traceback.format_exc())
    return ctx.findings, ctx.cov, ctx.samples, ctx.obl, ctx.done, ctx.functions, None


def short(loc):
    if not loc:
        return '?'
    out = []
    for f, l, fn in loc:
        out.append('%s:%s(%s)' % (os.path.basename(f), l, fn))
    return ' < '.join(out)


def known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', ln)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def finish(ctx, level='other'):
    """write the evidence, print the verdict, return the exit code"""
    kn = known()
    new = []
    old = []
    for k, f in sorted(ctx.findings.items()):
        if (ctx.pid, k) in kn:
            old.append(f)
        else:
            new.append(f)
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = dict(ctx.cov)
    cov['obligations'] = ctx.obl
    cov['discharged'] = ctx.done
    cov['functions_analysed'] = len(set(ctx.functions))
    cov['functions'] = sorted(set(ctx.functions))
    cov['samples'] = ctx.samples
    cov['explanation'] = ctx.explanation or 'static analysis'
    json.dump({'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
               'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 3), 'violations': len(new),
               'known_findings': [f.key for f in old]},
              open(os.path.join(ev, ctx.pid + '.json'), 'w'), indent=1, default=str)
    for f in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (ctx.pid, f.msg, f.key))
    if new:
        rp = os.path.join(ev, ctx.pid + '.violation.txt')
        with open(rp, 'w') as o:
            for f in new:
                o.write('key: %s\nwhere: %s\nwhat: %s\n' % (f.key, f.where, f.msg))
                if f.trace:
                    o.write('path: %s\n' % f.trace)
                o.write('\n')
        for f in new:
            print('%s: %s [%s]' % (f.where, f.msg, f.key))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
        return 1
    print('%s: holds (%d obligations over %d functions, %.1f s)' % (ctx.pid, ctx.obl, len(set(ctx.functions)), time.time() - ctx.t0))
    return 0
