"""Check harness: obligations, findings, evidence and exit codes."""
import json
import os
import pickle
import sys
import time

from .terms import Term, mk, const, NONE, TRUE, FALSE, show
from . import ops
from .state import AnalysisError, decide
from .engine import Analyzer

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.A = Analyzer(REPO)
        self.obl = []          # (rule, construct, status)
        self.findings = {}     # (rule, construct) -> (message, where)
        self.undecided_list = []
        self.counts = {}
        self.rules = {}
        self.floor = 0
        self.assumptions = []
        # work is shared among processes: unit of work number seq belongs to process seq % jobs
        self.jobs, self.rank, self.seq, self.inside, self.order = 1, 0, 0, 0, []

    def mine(self):
        """results are recorded here: by the process of the unit, or by the first one outside of units"""
        return self.inside > 0 or self.rank == 0

    def unit(self, fn, always=False):
        """run fn as a unit of work; None when it belongs to another process"""
        if self.inside or self.jobs == 1:
            return fn()
        self.seq += 1
        own = self.seq % self.jobs == self.rank
        if not own and not always:
            return None
        self.inside = 1 if own else -1
        try:
            return fn()
        finally:
            self.inside = 0

    def put(self, rule, construct, status):
        self.order.append(self.seq)
        self.obl.append((rule, construct, status))

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, construct):
        if self.mine():
            self.put(rule, construct, 'discharged')

    def viol(self, rule, construct, msg, where=''):
        if not self.mine():
            return
        self.put(rule, construct, 'violated')
        self.findings.setdefault((rule, str(construct)), (msg, where))

    def undecided(self, rule, construct, why=''):
        if not self.mine():
            return
        self.put(rule, construct, 'undecided')
        self.undecided_list.append(f'{rule}: {construct}: {why}'[:300])

    def check(self, rule, construct, cond, msg='', where=''):
        """cond True/False/None"""
        if cond is True:
            self.ok(rule, construct)
        elif cond is False:
            self.viol(rule, construct, msg, where)
        else:
            self.undecided(rule, construct, msg)
        return cond

    def count(self, what, n=1):
        if not self.mine():
            return
        self.counts[what] = self.counts.get(what, 0) + n


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p, encoding='utf8') as f:
        return json.load(f)


def run(ctx, fn, jobs):
    """the check, its units shared among forked processes"""
    if jobs <= 1:
        return fn(ctx)
    kids = []
    for rank in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                ctx.jobs, ctx.rank = jobs, rank
                try:
                    fn(ctx)
                    err = None
                except AnalysisError as e:
                    err = ('broken', str(e))
                except BaseException as e:   # noqa
                    import traceback
                    err = ('failed', traceback.format_exc() or repr(e))
                obl = [(str(a), str(b), c) for a, b, c in ctx.obl]
                und = ctx.undecided_list
                data = pickle.dumps((err, ctx.seq, list(zip(ctx.order, obl)), {(str(a), b): (str(m), str(x)) for (a, b), (m, x) in ctx.findings.items()}, und, ctx.counts, ctx.rules,
                                     ctx.floor, [str(x) for x in ctx.assumptions], sorted(ctx.A.inlined)))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException:   # noqa
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    parts = []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise AnalysisError('a worker of the analysis ended early')
        parts.append(pickle.loads(data))
    for p in parts:
        if p[0] is not None and p[0][0] == 'broken':
            raise AnalysisError(p[0][1])
    for p in parts:
        if p[0] is not None:
            raise RuntimeError(p[0][1])
    if len({p[1] for p in parts}) != 1:
        raise AnalysisError('the workers disagree on the units of work')
    ctx.obl = [o for _, o in sorted((x for p in parts for x in p[2]), key=lambda x: x[0])]
    for p in parts:
        for k, v in p[3].items():
            ctx.findings.setdefault(k, v)
        ctx.undecided_list += p[4]
        for k, v in p[5].items():
            ctx.counts[k] = ctx.counts.get(k, 0) + v
        ctx.A.inlined |= set(p[9])
    ctx.rules, ctx.floor, ctx.assumptions = parts[0][6], max(p[7] for p in parts), parts[0][8]


def main(pid, tier, fn, jobs=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        ctx = Ctx(pid, tier)
        run(ctx, fn, jobs if jobs is not None else int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
    except AnalysisError as e:
        print(f'ANALYSIS-BROKEN property={pid}: {e}', file=sys.stderr)
        return 2
    n_obl = len(ctx.obl)
    disch = sum(1 for o in ctx.obl if o[2] == 'discharged')
    undec = [o for o in ctx.obl if o[2] == 'undecided']
    if n_obl < ctx.floor:
        print(f'ANALYSIS-BROKEN property={pid}: only {n_obl} obligations were generated, expected at least {ctx.floor}', file=sys.stderr)
        return 2
    known = {(k['rule'], k['construct']): k for k in load_known() if k['property'] == pid and k.get('status') == 'known'}
    bad = []
    for key, (msg, where) in sorted(ctx.findings.items()):
        if key in known:
            print(f'KNOWN-FINDING: property={pid} {known[key]["what"]}')
        else:
            bad.append((key, msg, where))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = {
        'explanation': f'{disch} of {n_obl} structural obligations discharged, {len(undec)} undecided, {len(ctx.findings)} violated; '
                       f'{len(ctx.A.inlined)} package functions analysed by inlining.',
        'rules': [f'{k}: {v}' for k, v in ctx.rules.items()],
        'obligations': n_obl, 'discharged': disch,
        'undecided': ctx.undecided_list[:40],
        'functions_analysed': len(ctx.A.inlined),
        'functions': sorted(ctx.A.inlined)[:400],
        'modules': sorted(ctx.A.trees),
        'counts': ctx.counts,
        'sample_obligations': [f'{r}: {c} -> {s}' for r, c, s in ctx.obl[:60]],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 3),
          'violations': len(bad), 'assumptions': ctx.assumptions or ['external libraries behave as documented; no monkey-patching of the package']}
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w', encoding='utf8') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid} [{tier}] obligations={n_obl} discharged={disch} undecided={len(undec)} violated={len(ctx.findings)} '
          f'functions={len(ctx.A.inlined)} wall={time.time() - t0:.1f}s')
    for k, v in ctx.counts.items():
        print(f'   {k}: {v}')
    if os.environ.get('VERIF_VERBOSE'):
        for u in ctx.undecided_list:
            print('   undecided', u)
    if bad:
        rp = os.path.join(VERIF, 'evidence', f'{pid}.replay.txt')
        with open(rp, 'w', encoding='utf8') as f:
            for (rule, construct), msg, where in bad:
                f.write(f'rule {rule}: {ctx.rules.get(rule, "")}\n  construct: {construct}\n  {msg}\n  at {where}\n')
        for (rule, construct), msg, where in bad:
            print(f'  violated {rule} [{construct}] {msg} ({where})')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 0
