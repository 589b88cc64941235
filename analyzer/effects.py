"""Flow-insensitive interprocedural effects: which parameters, globals and blocks a function may store through."""
PURE = {'sqrt', 'fabs', 'fmax', 'fmin', 'floor', 'ceil', 'pow', 'exp', 'log', 'isnan', 'printf', 'puts', 'putchar', 'fprintf', 'strlen', 'strcmp', 'free', 'abort', 'exit', 'llabs', 'labs', 'abs', 'mexPrintf', 'mxFree', 'memcmp', '__assert_fail'}
ALLOC = {'malloc', 'calloc', 'realloc', 'mxMalloc', 'mxCalloc', 'mxRealloc', 'aligned_alloc', 'strdup'}
WRITES0 = {'memcpy', 'memmove', 'memset', 'bzero', 'strcpy', 'strcat', 'sprintf', 'snprintf', 'strncpy', 'qsort'}
class Effects:
    def __init__(self, ir):
        self.ir = ir; self.F = ir['functions']; self.G = ir['globals']
        self.fns = {n: f for n, f in self.F.items() if not f['decl']}
        self.mod = {n: {} for n in self.fns}          # base -> first location
        self.ref = {n: {} for n in self.fns}
        self.ret = {n: set() for n in self.fns}
        self.calls = {n: [] for n in self.fns}
        self.bases = {}; self.allocas = {}; self.gstores = {}     # pointers stored in globals
        for n in self.fns: self.prep(n)
        self.solve()
    def prep(self, n):
        f = self.fns[n]
        self.defs = getattr(self, 'defs', {})
        d = {}
        for b in f['blocks']:
            for i in b['ins']:
                if 'id' in i: d[i['id']] = i
        args = {a['id']: k for k, a in enumerate(f['args'])}
        self.defs[n] = (d, args)
    def base(self, n, v, seen=None):
        """abstract objects a pointer value may designate"""
        if seen is None: seen = set()
        if not isinstance(v, str):
            if 'g' in v: return {('g', v['g'])}
            if 'fn' in v: return {('fn', v['fn'])}
            if 'n' in v or 'u' in v or v.get('t') == 'ptr' and 'c' in v: return set()
            return set()
        d, args = self.defs[n]
        if v in args: return {('arg', args[v])}
        if v in seen: return set()
        seen.add(v)
        i = d.get(v)
        if i is None: return {('unknown',)}
        op = i['op']
        if op == 'getelementptr': return self.base(n, i['base'], seen)
        if op == 'phi':
            r = set()
            for x, _ in i['inc']: r |= self.base(n, x, seen)
            return r
        if op == 'select': return self.base(n, i['ops'][1], seen) | self.base(n, i['ops'][2], seen)
        if op in ('bitcast', 'freeze', 'addrspacecast'): return self.base(n, i['ops'][0], seen)
        if op == 'alloca': return {('alloca', n, v)}
        if op == 'load':
            r = set()
            for b in self.base(n, i['ops'][0], seen):
                if b[0] in ('alloca', 'g'): r |= self.allocas.get(b, set()) | ({('deref', b)} if b[0] == 'g' else set())
                else: r.add(('deref', b) if b[0] != 'deref' else b)
            return r
        if op == 'call':
            c = i['callee']; nm = c.get('fn') if isinstance(c, dict) else None
            if nm in ALLOC: return {('heap', n, v)}
            if nm in self.fns:
                r = set()
                for b in self.ret[nm]: r |= self.subst(n, i, b)
                return r
            if nm in ('memcpy', 'memmove', 'memset'): return self.base(n, i['args'][0], seen)
            return {('ext', nm)}
        return {('unknown',)}
    def subst(self, n, call, b):
        if b[0] == 'arg': return self.base(n, call['args'][b[1]]) if b[1] < len(call['args']) else set()
        if b[0] == 'deref' and b[1][0] == 'arg':
            r = set()
            for x in (self.base(n, call['args'][b[1][1]]) if b[1][1] < len(call['args']) else ()):
                if x[0] == 'alloca': r |= self.allocas.get(x, set())
                r.add(x if x[0] == 'deref' else ('deref', x))
            return r
        return {b}
    def solve(self):
        ch = True; rounds = 0
        while ch and rounds < 40:
            ch = False; rounds += 1
            for n, f in self.fns.items():
                def add(kind, bs, loc):
                    nonlocal ch
                    t = (self.mod if kind == 'mod' else self.ref)[n]
                    for b in bs:
                        if b not in t: t[b] = loc; ch = True
                for blk in f['blocks']:
                    for i in blk['ins']:
                        op = i['op']; loc = (i.get('file'), i.get('line'), n)
                        if op == 'store':
                            bs = self.base(n, i['ops'][1]); add('mod', bs, loc)
                            if i.get('oty') == 'ptr':
                                vs = self.base(n, i['ops'][0])
                                for b in bs:
                                    if b[0] in ('alloca', 'g'):
                                        t = self.allocas.setdefault(b, set())
                                        if not vs <= t: t |= vs; ch = True
                        elif op == 'load': add('ref', self.base(n, i['ops'][0]), loc)
                        elif op == 'ret' and i['ops'] and f.get('ret') == 'ptr' or (op == 'ret' and i['ops'] and isinstance(i['ops'][0], str)):
                            r = self.base(n, i['ops'][0]) - {('unknown',)}
                            if not r <= self.ret[n]: self.ret[n] |= r; ch = True
                        elif op == 'call':
                            c = i['callee']; nm = c.get('fn') if isinstance(c, dict) else None
                            if nm in self.fns:
                                for b in list(self.mod[nm]): add('mod', self.subst(n, i, b), loc)
                                for b in list(self.ref[nm]): add('ref', self.subst(n, i, b), loc)
                            elif nm is None:
                                # indirect: every function whose address is taken with that arity
                                for t in self.taken():
                                    if len(self.fns[t]['args']) == len(i['args']):
                                        for b in list(self.mod[t]): add('mod', self.subst(n, i, b), loc)
                            elif nm.startswith('llvm.'):
                                if nm.startswith(('llvm.memcpy', 'llvm.memmove')):
                                    add('mod', self.base(n, i['args'][0]), loc); add('ref', self.base(n, i['args'][1]), loc)
                                elif nm.startswith('llvm.memset'): add('mod', self.base(n, i['args'][0]), loc)
                            elif nm in PURE or nm in ALLOC: pass
                            elif nm in WRITES0: add('mod', self.base(n, i['args'][0]), loc)
                            else:
                                for a in i['args']:
                                    if isinstance(a, str) or 'g' in a: add('mod', {b for b in self.base(n, a)}, loc)
                                add('mod', {('extcall', nm)}, loc)
    def taken(self):
        if not hasattr(self, '_taken'):
            t = set()
            def walk(x):
                if isinstance(x, dict):
                    if 'fn' in x and x['fn'] in self.fns: t.add(x['fn'])
                    for k, y in x.items():
                        if k != 'callee': walk(y)
                elif isinstance(x, list):
                    for y in x: walk(y)
            for f in self.fns.values():
                for b in f['blocks']:
                    for i in b['ins']: walk({k: v for k, v in i.items() if k != 'callee'})
            for g in self.G.values(): walk(g.get('init'))
            self._taken = t
        return self._taken
    def reachable(self, roots):
        seen = set(); todo = [r for r in roots if r in self.fns]
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n)
            for b in self.fns[n]['blocks']:
                for i in b['ins']:
                    if i['op'] == 'call':
                        c = i['callee']; nm = c.get('fn') if isinstance(c, dict) else None
                        if nm in self.fns: todo.append(nm)
                        elif nm is None: todo += list(self.taken())
        return seen
