"""Check driver: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WILSON_REPO', '/repo')
REG = {}


def prop(pid, level='proof', technique=''):
    def deco(f):
        REG[pid] = (f, level, technique)
        return f
    return deco


class NoAnswer(Exception):
    """the analysis cannot decide (anchor vanished, construct not understood)"""


def load_known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if not line.startswith('finding: '):
                continue
            head, _, what = line[len('finding: '):].partition(' :: ')
            d = dict(x.split('=', 1) for x in head.split(' ', 1))
            out[(d['property'], d['key'])] = what
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.n = 0
        self.ok = 0
        self.counts = {}
        self.samples = []
        self.viol = []
        self.known_hit = []
        self.known = load_known()
        self.assumptions = []
        self.analysed = set()

    # ------------------------------------------------------------------
    def count(self, what, k=1):
        self.counts[what] = self.counts.get(what, 0) + k

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s if len(s) < 400 else s[:400] + '...')

    def use(self, *files):
        self.analysed.update(files)

    def obl(self, rule, construct, ok, msg='', where='', sample=None):
        """one obligation: `rule` applied to `construct`.  A failing obligation
        is a violation unless known_findings.txt lists exactly it."""
        self.n += 1
        self.count(rule)
        if ok:
            self.ok += 1
            if sample:
                self.sample('%s: %s' % (rule, sample))
            return True
        key = '%s|%s' % (rule, construct)
        if (self.pid, key.replace(' ', '~')) in self.known:
            self.known_hit.append((key, self.known[(self.pid, key.replace(' ', '~'))]))
            return False
        self.viol.append({'rule': rule, 'construct': construct, 'where': where, 'message': msg})
        return False

    def escaped(self, e):
        """an exception of the analysed code on a path on which the property
        needs a value: the property does not hold there"""
        from .interp import RaiseSig
        if not isinstance(e, RaiseSig):
            return False
        w = str(e.loc)
        if '/repo' not in w and REPO not in w and 'wilson' not in w and 'wcxf' not in w:
            return False
        self.obl('evaluates', 'uncaught exception', False, 'the analysed code ends with %s(%.200r) where the '
                 'property needs a value' % (e.etype, e.value), w)
        return True

    # ------------------------------------------------------------------
    def fork(self, jobs, fn, procs=None):
        """fn(ctx, job) for every job, in forked processes that each inherit
        the analysis done so far; obligations are merged in the order of jobs"""
        import pickle
        procs = procs or int(os.environ.get('VERIF_PROCS', 8))
        jobs = list(jobs)
        res = [None] * len(jobs)
        run = {}            # fd -> (index, pid, chunks)
        todo = list(range(len(jobs)))[::-1]
        import selectors
        sel = selectors.DefaultSelector()
        while todo or run:
            while todo and len(run) < procs:
                i = todo.pop()
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        c = Ctx(self.pid, self.tier)
                        try:
                            fn(c, jobs[i])
                            err = None
                        except NoAnswer as e:
                            err = ('no answer', str(e))
                        except Exception as e:
                            err = None
                            if not c.escaped(e):
                                err = ('error', traceback.format_exc())
                        except BaseException:
                            err = ('error', traceback.format_exc())
                        b = pickle.dumps((c.n, c.ok, c.counts, c.samples, c.viol, c.known_hit, c.assumptions, c.analysed, err))
                        with os.fdopen(w, 'wb') as fh:
                            fh.write(b)
                    finally:
                        os._exit(0)
                os.close(w)
                run[r] = (i, pid, [])
                sel.register(r, selectors.EVENT_READ)
            for k, _ in sel.select():
                b = os.read(k.fd, 1 << 20)
                i, pid, ch = run[k.fd]
                if b:
                    ch.append(b)
                    continue
                sel.unregister(k.fd)
                os.close(k.fd)
                os.waitpid(pid, 0)
                del run[k.fd]
                res[i] = pickle.loads(b''.join(ch)) if ch else None
        errs = []
        for r in res:
            if r is None:
                errs.append(('error', 'a worker process ended without a result'))
                continue
            n, ok, counts, samples, viol, known_hit, ass, analysed, err = r
            self.n += n
            self.ok += ok
            for a, b in counts.items():
                self.count(a, b)
            for x in samples:
                self.sample(x)
            self.viol += viol
            self.known_hit += known_hit
            self.assumptions += [x for x in ass if x not in self.assumptions]
            self.analysed |= set(analysed)
            if err:
                errs.append(err)
        for kind, msg in errs:
            if kind == 'no answer':
                raise NoAnswer(msg)
            raise RuntimeError(msg)

    fail = None


def main(argv):
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--quick' in argv:
        tier = 'quick'
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(_run(pid, tier)))
    t.start()
    t.join()
    return rc[0] if rc else 2


def _run(pid, tier):
    from . import checks
    checks.load_all()
    if pid not in REG:
        print('unknown property', pid)
        return 2
    f, level, technique = REG[pid]
    ctx = Ctx(pid, tier)
    t0 = time.time()
    try:
        f(ctx)
    except NoAnswer as e:
        print('NO-ANSWER property=%s %s' % (pid, e))
        if not ctx.viol:
            return 3
    except Exception as e:
        if not ctx.escaped(e):
            traceback.print_exc()
            if not ctx.viol:
                return 3
    if ctx.n == 0:
        print('NO-ANSWER property=%s nothing analysed' % pid)
        return 3
    seen = set()
    for key, what in ctx.known_hit:
        if key in seen:
            continue
        seen.add(key)
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
        'coverage': {
            'obligations': ctx.n,
            'programs': max(1, len(ctx.analysed)),
            'disagreements_checked': ctx.n,
            'discharged': ctx.ok,
            'by_rule': ctx.counts,
            'analysed': sorted(ctx.analysed),
            'known_findings': sorted(seen),
            'samples': ctx.samples or ['(see by_rule)'],
            'checker_cmd': 'python3 check.py %s%s' % (pid, ' --thorough' if tier == 'thorough' else ''),
            'trusted_base': ['CPython ast parser', 'abstract interpreter and library models in /verif/vlib',
                             'operator tables in vlib/spec.py'],
            'explanation': technique,
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': len(ctx.viol),
        'assumptions': ctx.assumptions,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if ctx.viol:
        rp = os.path.join(VERIF, 'evidence', 'replay_%s.txt' % pid)
        with open(rp, 'w') as fh:
            for v in ctx.viol:
                fh.write('%s\n  rule: %s\n  construct: %s\n  %s\n\n' % (v['where'], v['rule'], v['construct'],
                                                                        v['message']))
        for v in ctx.viol[:15]:
            print('  [%s] %s %s: %s' % (v['rule'], v['where'], v['construct'], v['message'][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d wall=%.1fs' % (pid, ctx.n, time.time() - t0))
    return 0
