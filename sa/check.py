"""Runner support: obligations, findings, evidence, known findings, parallel analysis."""
import hashlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
RES = '/usr/lib/llvm-18/lib/clang/18'
CXX = 'clang++'


class Broken(Exception):
    """the analysis cannot give an answer (error exit)"""


class Finding:
    def __init__(self, rule, where, msg, path=None, key=None):
        self.rule = rule
        self.where = where
        self.msg = msg
        self.path = path or []
        self.key = key or (rule + '|' + where.split(':')[0] + '|' + msg)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.repo = REPO
        self.findings = []
        self.obligations = {}      # name -> [n, discharged]
        self.undecided = []
        self.analysed = {}         # kind -> set / count
        self.assumptions = []
        self.trusted = []
        self.notes = []
        self.scratch = tempfile.mkdtemp(prefix='coecs-' + pid + '-')
        self._progs = {}

    # --- results --------------------------------------------------------------------
    def ob(self, rule, ok=True, n=1):
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += n
        if ok:
            o[1] += n

    def undecide(self, rule, why):
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += 1
        self.undecided.append(f'{rule}: {why}')

    def fail(self, rule, where, msg, path=None, key=None):
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += 1
        f = Finding(rule, where, msg, path, key)
        if all(g.key != f.key for g in self.findings):
            self.findings.append(f)

    def saw(self, kind, what):
        self.analysed.setdefault(kind, set()).add(what)

    def merge(self, r):
        for k, (n, d) in r['obligations'].items():
            o = self.obligations.setdefault(k, [0, 0])
            o[0] += n
            o[1] += d
        for f in r['findings']:
            if all(g.key != f.key for g in self.findings):
                self.findings.append(f)
        self.undecided += r['undecided']
        for k, s in r['analysed'].items():
            self.analysed.setdefault(k, set()).update(s)
        self.notes += r['notes']

    def export(self):
        return {'obligations': self.obligations, 'findings': self.findings, 'undecided': self.undecided,
                'analysed': self.analysed, 'notes': self.notes}

    # --- program --------------------------------------------------------------------
    def extractor(self):
        r = subprocess.run([os.path.join(VERIF, 'build.sh')], capture_output=True, text=True)
        if r.returncode:
            raise Broken('extractor build failed: ' + r.stderr[-2000:])
        return r.stdout.strip().splitlines()[-1]

    def program(self, driver, defs=('-DNDEBUG',)):
        """the type-checked program of /repo's headers as used by drivers/<driver>.cpp"""
        key = (driver, tuple(defs))
        if key in self._progs:
            return self._progs[key]
        from .program import Program
        x = self.extractor()
        out = os.path.join(self.scratch, driver + '.json')
        src = os.path.join(VERIF, 'drivers', driver + '.cpp')
        r = subprocess.run([x, out, self.repo + '/include/', src, '--', '-std=c++20', '-I' + self.repo + '/include',
                            '-resource-dir', RES, *defs], capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise Broken('the sources do not type-check with ' + driver + ': ' + r.stderr[-3000:])
        P = Program(out)
        self._progs[key] = P
        return P

    def make_pch(self, code, flags=()):
        h = os.path.join(self.scratch, 'prelude.hpp')
        with open(h, 'w') as f:
            f.write(code)
        r = subprocess.run([CXX, '-x', 'c++-header', '-std=c++20', '-w', '-I' + self.repo + '/include', *flags, h, '-o', h + '.pch'],
                           capture_output=True, text=True)
        self.use_pch = ('-include-pch', h + '.pch') if r.returncode == 0 else ()
        return r.returncode == 0, r.stderr

    def compile(self, code, name='w', flags=()):
        """(ok, diagnostics) of type-checking a translation unit"""
        p = os.path.join(self.scratch, name + '.cpp')
        with open(p, 'w') as f:
            f.write(code)
        r = subprocess.run([CXX, '-fsyntax-only', '-std=c++20', '-w', '-I' + self.repo + '/include', *getattr(self, 'use_pch', ()), *flags, p],
                           capture_output=True, text=True)
        return r.returncode == 0, r.stderr

    # --- parallel -------------------------------------------------------------------
    def pmap(self, fn, items, jobs=8, timeout=600):
        """fn(ctx, item) in forked workers; findings are merged; failures make the item undecided"""
        items = list(items)
        if not items:
            return []
        res = []
        q = mp.get_context('fork')
        pending = list(enumerate(items))
        running = {}
        out = [None] * len(items)
        while pending or running:
            while pending and len(running) < jobs:
                i, it = pending.pop(0)
                r, w = q.Pipe(False)
                p = q.Process(target=_worker, args=(self, fn, it, w))
                p.start()
                w.close()
                running[i] = (p, r, time.time())
            for i in list(running):
                p, r, t0 = running[i]
                if r.poll(0.01):
                    try:
                        out[i] = r.recv()
                    except EOFError:
                        out[i] = ('err', 'worker died')
                    p.join()
                    del running[i]
                elif not p.is_alive() and not r.poll(0.05):
                    out[i] = ('err', 'worker died')
                    del running[i]
                elif time.time() - t0 > timeout:
                    p.kill()
                    p.join()
                    out[i] = ('err', 'time limit')
                    del running[i]
        for it, o in zip(items, out):
            if o[0] == 'ok':
                self.merge(o[1])
                res.append(o[2])
            elif o[0] == 'broken':
                raise Broken(o[1])
            else:
                self.undecide('analysis', f'{_iname(it)}: {o[1]}')
                res.append(None)
        return res

    # --- end ------------------------------------------------------------------------
    def known(self):
        """entries of the known-findings file for this property: {key: text}"""
        p = os.path.join(VERIF, 'KNOWN_FINDINGS.md')
        k = {}
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('known: property=' + self.pid + ' key='):
                    rest = line.split(' key=', 1)[1]
                    key, _, txt = rest.partition(' :: ')
                    k[key] = txt
        return k

    def finish(self, t0, level, level_kind, technique, min_obligations):
        known = self.known()
        new = [f for f in self.findings if f.key not in known]
        for f in self.findings:
            if f.key in known:
                print(f'KNOWN-FINDING: property={self.pid} {known[f.key]}')
        tot = sum(n for n, d in self.obligations.values())
        dis = sum(d for n, d in self.obligations.values())
        cov = {
            'obligations': tot, 'discharged': dis,
            'undecided': len(self.undecided),
            'undecided_list': self.undecided[:40],
            'rules': {k: {'instances': n, 'discharged': d} for k, (n, d) in sorted(self.obligations.items())},
            'analysed': {k: {'count': len(s), 'items': sorted(map(str, s))[:80]} for k, s in sorted(self.analysed.items())},
            'checker_cmd': f'python3 checks/run.py {self.pid}',
            'trusted_base': self.trusted or ['clang 18 front end (types, overload resolution, constant evaluation)',
                                             'transfer functions for the standard library in sa/models.py'],
            'explanation': technique,
            'findings': [{'rule': f.rule, 'where': f.where, 'message': f.msg, 'path': f.path} for f in self.findings],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level_kind, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for u in self.undecided[:30]:
            print('undecided:', u)
        print(f'{self.pid}: {dis}/{tot} obligations discharged, {len(self.undecided)} undecided, '
              f'{len(new)} violations, {ev["wall_s"]} s')
        if new:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for v in new:
                    f.write(f'rule: {v.rule}\nwhere: {v.where}\n{v.msg}\n')
                    for s in v.path:
                        f.write('    ' + s + '\n')
                    f.write('key: ' + v.key + '\n\n')
            for v in new:
                print(f'{v.where}: [{v.rule}] {v.msg}')
                for s in v.path:
                    print('    ' + s)
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        if tot < min_obligations:
            print(f'analysis broken: {tot} obligations found, at least {min_obligations} expected')
            return 2
        return 0


def _iname(it):
    if isinstance(it, tuple):
        it = next((x for x in it if isinstance(x, (dict, str))), it[0])
    if isinstance(it, dict):
        return it.get('q') or it.get('name')
    return str(it)


def _worker(ctx, fn, it, w):
    ctx.findings, ctx.obligations, ctx.undecided, ctx.analysed, ctx.notes = [], {}, [], {}, []
    try:
        r = fn(ctx, it)
        w.send(('ok', ctx.export(), r))
    except Broken as e:
        w.send(('broken', str(e)))
    except BaseException as e:
        tb = traceback.format_exc().strip().splitlines()
        w.send(('err', f'{type(e).__name__}: {e} [{tb[-3].strip() if len(tb) > 2 else ""}]'))
    w.close()
    os._exit(0)
