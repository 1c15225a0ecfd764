"""Loads the exported syntax tree and answers questions about it."""
import json
import re


def bare(q):
    """qualified name without template arguments"""
    m = re.search(r'(^|::)operator(?![A-Za-z0-9_])', q)
    tail = ''
    if m:
        tail = q[m.start():]
        q = q[:m.start()]
    out = []
    d = 0
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out) + tail


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.files = d['files']
        self.types = d['types']
        self.unsupported = d['unsupported']
        self.funcs = {}
        for f in d['funcs']:
            f['bare'] = bare(f['q'])
            self.funcs[f['id']] = f
        self.recs = {}
        for r in d['records']:
            r['bare'] = bare(r['q'])
            self.recs[r['id']] = r
        self.globals = {g['id']: g for g in d['globals'] if 'id' in g}
        # virtual overriders
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.get('overrides', []):
                self.overriders.setdefault(o, []).append(f['id'])
        self.by_bare = {}
        for f in self.funcs.values():
            self.by_bare.setdefault(f['bare'], []).append(f)
        self.recs_by_bare = {}
        for r in self.recs.values():
            self.recs_by_bare.setdefault(r['bare'], []).append(r)

    # --- types ----------------------------------------------------------------------
    def ty(self, t):
        return self.types[t] if t is not None and t >= 0 else {'k': 'other', 's': '?'}

    def strip_ref(self, t):
        ty = self.ty(t)
        return ty['to'] if ty.get('k') in ('ref', 'rref') else t

    def is_ref(self, t):
        return self.ty(t).get('k') in ('ref', 'rref')

    def pointee(self, t):
        ty = self.ty(t)
        return ty.get('to') if ty.get('k') in ('ptr', 'ref', 'rref', 'array') else None

    def rec_of(self, t):
        ty = self.ty(t)
        if ty.get('k') == 'rec':
            return self.recs.get(ty['rec'])
        return None

    def sizeof(self, t):
        ty = self.ty(t)
        k = ty.get('k')
        if k in ('int', 'enum'):
            return ty.get('bits', 32) // 8
        if k == 'bool':
            return 1
        if k == 'ptr':
            return 8
        if k == 'rec':
            return self.recs[ty['rec']].get('size')
        if k == 'array' and 'n' in ty:
            s = self.sizeof(ty['to'])
            return s * ty['n'] if s else None
        if ty.get('s') == 'double':
            return 8
        if ty.get('s') == 'float':
            return 4
        return None

    def unqual_s(self, t):
        s = self.ty(t)['s']
        return s[6:] if s.startswith('const ') else s

    def fname(self, fid):
        return self.funcs[fid]['q'] if fid in self.funcs else '?'

    def where(self, fid, line=None):
        f = self.funcs.get(fid)
        if not f:
            return '?'
        p = self.files[f['file']] if f.get('file', -1) >= 0 else '?'
        return f"{p}:{line if line else f.get('line')}"

    def driver(self, name):
        for f in self.by_bare.get(name, []):
            if 'body' in f:
                return f
        return None

    def fields(self, rec):
        return rec.get('fields', [])

    def all_fields(self, rec, seen=None):
        out = []
        for b in rec.get('bases', []):
            br = self.recs.get(b)
            if br:
                out += self.all_fields(br)
        return out + list(rec.get('fields', []))

    def derives(self, rid, bid):
        if rid == bid:
            return True
        r = self.recs.get(rid)
        return bool(r) and any(self.derives(b, bid) for b in r.get('bases', []))

    def walk(self, node):
        """all syntax nodes below node"""
        stack = [node]
        while stack:
            n = stack.pop()
            if isinstance(n, dict):
                if 'k' in n:
                    yield n
                stack.extend(n.values())
            elif isinstance(n, list):
                stack.extend(n)
