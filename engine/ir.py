"""Parser for the textual LLVM-18 IR that clang emits from /repo's sources.

Only what the symbolic executor needs is kept: functions, blocks, instructions,
named struct types, constant globals, and the debug line of every instruction.
Function bodies are parsed on demand.
"""
import re, struct as _struct

TOK = re.compile(r'''\s*(
    c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*" |
    [%@!$](?:"[^"]*"|[\w.$-]+) | ! |
    0x[KLMHR]?[0-9A-Fa-f]+ | -?\d+\.\d*(?:[eE][+-]?\d+)? | -?\d+ |
    [A-Za-z_][\w.]* | \.\.\. | [\[\]{}()<>,=*:#|]
)''', re.X)

def tokenize(s):
    pos, n, out = 0, len(s), []
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise ValueError('tokenize: %r' % s[pos:pos + 60])
        out.append(m.group(1))
        pos = m.end()
    return out

class Ty:
    __slots__ = ('k', 'a', 'n')
    def __init__(self, k, a=None, n=None):
        self.k, self.a, self.n = k, a, n
    def __repr__(self):
        return '%s%s%s' % (self.k, '' if self.n is None else ':%s' % (self.n,), '' if self.a is None else repr(self.a))

VOID, PTR, DOUBLE, FLOAT = Ty('void'), Ty('ptr'), Ty('double'), Ty('float')
_ints = {}
def IntTy(w):
    if w not in _ints: _ints[w] = Ty('int', None, w)
    return _ints[w]

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned', 'signext',
               'zeroext', 'inreg', 'immarg', 'nofree', 'readnone', 'noundef', 'nest', 'swiftself', 'allocptr', 'allocalign',
               'inrange', 'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'disjoint', 'nneg', 'dead_on_unwind', 'writable', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'hidden', 'comdat', 'available_externally'}

class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg')
    def __init__(self, op, res, ty, ops, x=None):
        self.op, self.res, self.ty, self.ops, self.x, self.dbg = op, res, ty, ops, x, None
    def __repr__(self):
        return '%s = %s %s %s %s' % (self.res, self.op, self.ty, self.ops, self.x)

class Block:
    __slots__ = ('name', 'insts', 'phis')
    def __init__(self, name):
        self.name, self.insts, self.phis = name, [], []
    def succs(self):
        t = self.insts[-1]
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            return [t.x[0]] + [b for _, b in t.x[1]]
        if t.op == 'invoke':
            return list(t.x['dests'])
        return []

class Loop:
    __slots__ = ('header', 'blocks', 'parent', 'ordinal')

class Func:
    def __init__(self, mod, name, ret, params, vararg, lines):
        self.mod, self.name, self.ret, self.params, self.vararg = mod, name, ret, params, vararg
        self.lines = lines
        self._blocks = None
        self._loops = None
        self.dbg = None

    @property
    def declared_only(self):
        return self.lines is None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        bl = {}
        order = []
        cur = None
        i = 0
        lines, raw = [], self.lines
        while i < len(raw):
            l = raw[i]
            i += 1
            st = l.strip()
            if re.match(r'(%\S+ = )?invoke ', st) and i < len(raw) and raw[i].strip().startswith('to label'):
                l = l + ' ' + raw[i].strip(); i += 1
            elif st.startswith('switch ') and st.endswith('['):
                while True:
                    l = l + ' ' + raw[i].strip(); i += 1
                    if raw[i - 1].strip().startswith(']'): break
            elif ' landingpad ' in l:
                while i < len(raw) and re.match(r'(cleanup|catch|filter)', raw[i].strip()):
                    if raw[i].strip().startswith('catch'): l = l.replace(' landingpad ', ' landingpad_catch ')
                    i += 1
            lines.append(l)
        for line in lines:
            if not line.strip() or line.lstrip().startswith(';'):
                continue
            if not line.startswith(' '):
                m = re.match(r'("[^"]*"|[\w.$-]+):', line)
                nm = m.group(1).strip('"')
                cur = Block(nm)
                bl[nm] = cur
                order.append(nm)
                continue
            if cur is None:
                # unnamed entry block
                cur = Block(str(len(self.params)))
                bl[cur.name] = cur
                order.append(cur.name)
            s = line.strip()
            dbg = None
            m = re.search(r', !dbg !(\d+)', s)
            if m: dbg = int(m.group(1))
            if 'llvm.dbg.' in s: continue
            s = re.sub(r',\s*!(?:[\w.]+ )?!\w+', '', s)
            s = re.sub(r',\s*!(?:[\w.]+ )![\w]+', '', s)
            inst = self.mod.parse_inst(s)
            if inst is None: continue
            inst.dbg = dbg
            if inst.op == 'phi': cur.phis.append(inst)
            else: cur.insts.append(inst)
        self.order = order
        self._blocks = bl

    @property
    def entry(self):
        self.blocks
        return self.order[0]

    @property
    def loops(self):
        if self._loops is None:
            self._find_loops()
        return self._loops

    def _find_loops(self):
        bl = self.blocks
        preds = {b: [] for b in bl}
        reach, stack = set(), [self.entry]
        while stack:
            b = stack.pop()
            if b in reach: continue
            reach.add(b)
            for s in bl[b].succs():
                preds[s].append(b); stack.append(s)
        # dominators by iteration
        rpo, seen = [], set()
        def dfs(b0):
            st = [(b0, iter(bl[b0].succs()))]
            seen.add(b0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(bl[s].succs()))); break
                else:
                    rpo.append(b); st.pop()
        dfs(self.entry)
        rpo.reverse()
        dom = {b: None for b in rpo}
        dom[self.entry] = {self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo:
                if b == self.entry: continue
                ps = [dom[p] for p in preds[b] if dom.get(p) is not None]
                if not ps: continue
                nd = set.intersection(*ps) | {b}
                if nd != dom[b]:
                    dom[b] = nd; changed = True
        loops = {}
        for b in rpo:
            for s in bl[b].succs():
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(p for p in preds[x] if p in reach)
        self._loops = {}
        for idx, h in enumerate([b for b in rpo if b in loops]):
            L = Loop(); L.header, L.blocks, L.parent, L.ordinal = h, loops[h], None, idx
            self._loops[h] = L
        for L in self._loops.values():
            best = None
            for M in self._loops.values():
                if M is not L and L.header in M.blocks and (best is None or len(M.blocks) < len(best.blocks)):
                    best = M
            L.parent = best
        return self._loops


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.globals = {}     # name -> (const?, Ty, token list of initialiser)
        self.md = {}
        self._md_raw = {}
        self._parse(text)
        self._layout = {}

    # ------------------------------------------------------------------ types
    def parse_type(self, t, i):
        """tokens t at i -> (Ty, next)"""
        w = t[i]
        if w == 'ptr':
            ty, i = PTR, i + 1
            if i < len(t) and t[i] == 'addrspace':
                i += 4
        elif w == 'void': ty, i = VOID, i + 1
        elif w == 'double': ty, i = DOUBLE, i + 1
        elif w == 'float': ty, i = FLOAT, i + 1
        elif w in ('x86_fp80', 'fp128', 'half', 'metadata', 'token', 'label', 'opaque'): ty, i = Ty(w), i + 1
        elif re.fullmatch(r'i\d+', w): ty, i = IntTy(int(w[1:])), i + 1
        elif w[0] == '%': ty, i = Ty('named', None, w[1:].strip('"')), i + 1
        elif w == '[':
            n = int(t[i + 1]); assert t[i + 2] == 'x'
            e, i = self.parse_type(t, i + 3)
            assert t[i] == ']'
            ty, i = Ty('arr', e, n), i + 1
        elif w == '{' or (w == '<' and t[i + 1] == '{'):
            packed = w == '<'
            i += 2 if packed else 1
            el = []
            while t[i] != '}':
                e, i = self.parse_type(t, i); el.append(e)
                if t[i] == ',': i += 1
            i += 1
            if packed: i += 1
            ty = Ty('struct', el, packed)
        elif w == '<':
            n = int(t[i + 1])
            e, i = self.parse_type(t, i + 3)
            ty, i = Ty('vec', e, n), i + 1
        else:
            raise ValueError('type? %r' % t[i:i + 6])
        # function type?
        if i < len(t) and t[i] == '(' :
            # only used inside call; caller handles
            pass
        return ty, i

    def resolve(self, ty):
        while ty.k == 'named':
            ty = self.types[ty.n]
        return ty

    def layout(self, ty):
        """(size, align)"""
        k = ty.k
        if k == 'int': s = max(1, (ty.n + 7) // 8); s = {3: 4, 5: 8, 6: 8, 7: 8}.get(s, s); return s, min(s, 16)
        if k == 'double' or k == 'ptr': return 8, 8
        if k == 'float': return 4, 4
        if k in ('x86_fp80', 'fp128'): return 16, 16
        if k == 'named':
            if ty.n not in self._layout: self._layout[ty.n] = self.layout(self.types[ty.n])
            return self._layout[ty.n]
        if k == 'arr' or k == 'vec':
            s, a = self.layout(ty.a); return s * ty.n, a
        if k == 'struct':
            off, al = 0, 1
            for e in ty.a:
                s, a = self.layout(e)
                if ty.n: a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'opaque': return 0, 1
        raise ValueError('layout %r' % ty)

    def size(self, ty): return self.layout(ty)[0]

    def field_off(self, ty, idx):
        off = 0
        for j, e in enumerate(ty.a):
            s, a = self.layout(e)
            if ty.n: a = 1
            off = (off + a - 1) // a * a
            if j == idx: return off
            off += s
        raise IndexError

    # ------------------------------------------------------------------ values
    def parse_value(self, t, i, ty):
        w = t[i]
        if w[0] in '%@': return (w[0] + w[1:].strip('"')), i + 1
        if w in ('null', 'undef', 'poison', 'zeroinitializer', 'true', 'false', 'none'): return w, i + 1
        if re.fullmatch(r'-?\d+', w): return int(w), i + 1
        if re.fullmatch(r'0x[KLMHR]?[0-9A-Fa-f]+', w) or re.match(r'-?\d+\.', w):
            if w.startswith('0x'):
                if w[2] in 'KLMHR': return ('fp80', w), i + 1
                return ('fp', _struct.unpack('>d', int(w, 16).to_bytes(8, 'big'))[0]), i + 1
            return ('fp', float(w)), i + 1
        if w[0] == '"' or w.startswith('c"'):
            return ('str', w), i + 1
        if w == 'getelementptr':
            i += 1
            while t[i] in ('inbounds', 'nuw', 'nusw', 'inrange'): i += 1
            if t[i] == 'inrange': i += 1
            assert t[i] == '('
            i += 1
            bt, i = self.parse_type(t, i)
            assert t[i] == ','
            ops, i = self.parse_args(t, i + 1, ')')
            return ('gep', bt, ops), i
        if w in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            ty1, i = self.parse_type(t, i + 2)
            v, i = self.parse_value(t, i, ty1)
            assert t[i] == 'to'
            ty2, i = self.parse_type(t, i + 1)
            return ('cast', w, ty1, v, ty2), i + 1
        if w in ('add', 'sub', 'mul', 'icmp', 'select', 'xor'):
            depth = 0; j = i + 1
            while t[j] in ('nuw','nsw') or (t[j] != '('): j += 1
            ops, j = self.parse_args(t, j + 1, ')')
            return ('cexpr', w, ops), j
        if w == '{' or w == '[' or w == '<':
            close = {'{': '}', '[': ']', '<': '>'}[w]
            j = i + 1
            if w == '<' and t[j] == '{':
                ops, j = self.parse_args(t, j + 1, '}'); return ('agg', ops), j + 1
            ops, j = self.parse_args(t, j, close)
            return ('agg', ops), j
        if w == 'blockaddress' or w == 'dso_local_equivalent' or w == 'no_cfi':
            return ('opaque', w), i + 1
        if w == 'asm':
            while t[i] != '(':
                i += 1
            return ('asm',), i
        raise ValueError('value? %r' % t[i:i + 8])

    def parse_args(self, t, i, close):
        """list of typed values up to close"""
        out = []
        while t[i] != close:
            if t[i] == ',': i += 1; continue
            if t[i] in ('inrange',): i += 1; continue
            if t[i] == '...': i += 1; continue
            ty, i = self.parse_type(t, i)
            i = self.skip_attrs(t, i)
            if ty.k == 'metadata':
                # metadata operand: skip to , or close at depth 0
                d = 0
                while not (d == 0 and (t[i] == ',' or t[i] == close)):
                    if t[i] in '([{': d += 1
                    if t[i] in ')]}': d -= 1
                    i += 1
                out.append((ty, None)); continue
            v, i = self.parse_value(t, i, ty)
            out.append((ty, v))
        return out, i + 1

    def skip_attrs(self, t, i):
        while i < len(t):
            w = t[i]
            if w in PARAM_ATTRS: i += 1
            elif w in ('align',):
                i += 1
                if t[i] == '(': i += 3
                else: i += 1
            elif w in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'preallocated', 'inalloca', 'elementtype', 'memory', 'nofpclass', 'captures', 'range', 'initializes'):
                if i + 1 < len(t) and t[i + 1] == '(':
                    d = 0; i += 1
                    while True:
                        if t[i] == '(': d += 1
                        if t[i] == ')':
                            d -= 1
                            if d == 0: break
                        i += 1
                i += 1
            else: break
        return i

    # ------------------------------------------------------------------ instructions
    def parse_inst(self, s):
        t = tokenize(s)
        res, i = None, 0
        if len(t) > 1 and t[1] == '=':
            res = t[0][0] + t[0][1:].strip('"'); i = 2
        op = t[i]; i += 1
        if op in ('tail', 'musttail', 'notail'):
            op = t[i]; i += 1
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while t[i] in PARAM_ATTRS: fl.add(t[i]); i += 1
            ty, i = self.parse_type(t, i)
            a, i = self.parse_value(t, i, ty)
            b, i = self.parse_value(t, i + 1, ty)
            return Inst(op, res, ty, [(ty, a), (ty, b)], fl)
        if op == 'fneg' or op == 'freeze':
            while t[i] in PARAM_ATTRS: i += 1
            ty, i = self.parse_type(t, i)
            a, i = self.parse_value(t, i, ty)
            return Inst(op, res, ty, [(ty, a)])
        if op in ('icmp', 'fcmp'):
            while t[i] in PARAM_ATTRS: i += 1
            pred = t[i]; i += 1
            ty, i = self.parse_type(t, i)
            a, i = self.parse_value(t, i, ty)
            b, i = self.parse_value(t, i + 1, ty)
            return Inst(op, res, IntTy(1), [(ty, a), (ty, b)], pred)
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            while t[i] in PARAM_ATTRS: i += 1
            ty, i = self.parse_type(t, i)
            a, i = self.parse_value(t, i, ty)
            assert t[i] == 'to'
            ty2, i = self.parse_type(t, i + 1)
            return Inst(op, res, ty2, [(ty, a)])
        if op == 'alloca':
            if t[i] == 'inalloca': i += 1
            ty, i = self.parse_type(t, i)
            n = None
            if i < len(t) and t[i] == ',' and t[i + 1] != 'align':
                ty1, i = self.parse_type(t, i + 1)
                v, i = self.parse_value(t, i, ty1)
                n = (ty1, v)
            return Inst(op, res, PTR, [], (ty, n))
        if op == 'load':
            while t[i] in ('volatile', 'atomic'): i += 1
            ty, i = self.parse_type(t, i)
            pt, i = self.parse_type(t, i + 1)
            v, i = self.parse_value(t, i, pt)
            return Inst(op, res, ty, [(pt, v)])
        if op == 'store':
            while t[i] in ('volatile', 'atomic'): i += 1
            ty, i = self.parse_type(t, i)
            a, i = self.parse_value(t, i, ty)
            pt, i = self.parse_type(t, i + 1)
            v, i = self.parse_value(t, i, pt)
            return Inst(op, None, ty, [(ty, a), (pt, v)])
        if op == 'getelementptr':
            while t[i] in ('inbounds', 'nuw', 'nusw'): i += 1
            bt, i = self.parse_type(t, i)
            ops, _ = self.parse_args(t + ['<END>'], i + 1, '<END>')
            return Inst(op, res, PTR, ops, bt)
        if op == 'phi':
            while t[i] in PARAM_ATTRS: i += 1
            ty, i = self.parse_type(t, i)
            inc = []
            while i < len(t):
                if t[i] == ',': i += 1; continue
                assert t[i] == '['
                v, i = self.parse_value(t, i + 1, ty)
                b = t[i + 1][1:].strip('"')
                inc.append((v, b))
                i += 3
            return Inst(op, res, ty, [], inc)
        if op == 'select':
            while t[i] in PARAM_ATTRS: i += 1
            ops, _ = self.parse_args(t + ['<END>'], i, '<END>')
            return Inst(op, res, ops[1][0], ops)
        if op == 'br':
            if t[i] == 'label':
                return Inst(op, None, None, [], (t[i + 1][1:].strip('"'),))
            ty, i = self.parse_type(t, i)
            v, i = self.parse_value(t, i, ty)
            b1 = t[i + 2][1:].strip('"'); b2 = t[i + 5][1:].strip('"')
            return Inst(op, None, None, [(ty, v)], (b1, b2))
        if op == 'switch':
            ty, i = self.parse_type(t, i)
            v, i = self.parse_value(t, i, ty)
            dflt = t[i + 2][1:].strip('"'); i += 3
            cases = []
            if i < len(t) and t[i] == '[':
                i += 1
                while t[i] != ']':
                    _, i = self.parse_type(t, i)
                    c = t[i]
                    if c == 'true': c = 1
                    elif c == 'false': c = 0
                    cases.append((int(c), t[i + 3][1:].strip('"'))); i += 4
            return Inst(op, None, None, [(ty, v)], (dflt, cases))
        if op == 'ret':
            ty, i = self.parse_type(t, i)
            if ty.k == 'void': return Inst(op, None, ty, [])
            v, i = self.parse_value(t, i, ty)
            return Inst(op, None, ty, [(ty, v)])
        if op == 'unreachable' : return Inst(op, None, None, [])
        if op == 'resume': return Inst(op, None, None, [])
        if op in ('landingpad', 'landingpad_catch'):
            op_x = op == 'landingpad_catch'; op = 'landingpad'
            ty, i = self.parse_type(t, i)
            return Inst(op, res, ty, [], op_x)
        if op in ('call', 'invoke'):
            while True:
                w = t[i]
                if w in PARAM_ATTRS or w in ('fastcc', 'ccc', 'coldcc'): i += 1
                elif w in ('align', 'dereferenceable', 'dereferenceable_or_null', 'nofpclass', 'range'):
                    i = self.skip_attrs(t, i)
                else: break
            ty, i = self.parse_type(t, i)
            if t[i] == '(':   # full function type
                d = 0
                while True:
                    if t[i] == '(': d += 1
                    if t[i] == ')':
                        d -= 1
                        if d == 0: break
                    i += 1
                i += 1
            fv, i = self.parse_value(t, i, PTR)
            assert t[i] == '(', t[i:i+5]
            args, i = self.parse_args(t, i + 1, ')')
            x = {'fn': fv}
            if op == 'invoke':
                ds = [w for w in t[i:] if w[0] == '%']
                x['dests'] = [ds[0][1:].strip('"'), ds[1][1:].strip('"')]
            return Inst(op, res, ty, args, x)
        if op == 'extractvalue':
            ty, i = self.parse_type(t, i)
            v, i = self.parse_value(t, i, ty)
            idx = [int(w) for w in t[i:] if re.fullmatch(r'\d+', w)]
            return Inst(op, res, None, [(ty, v)], idx)
        if op == 'insertvalue':
            ty, i = self.parse_type(t, i)
            v, i = self.parse_value(t, i, ty)
            ty2, i = self.parse_type(t, i + 1)
            v2, i = self.parse_value(t, i, ty2)
            idx = [int(w) for w in t[i:] if re.fullmatch(r'\d+', w)]
            return Inst(op, res, ty, [(ty, v), (ty2, v2)], idx)
        return Inst('unsupported', res, None, [], s)

    # ------------------------------------------------------------------ module
    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'%("[^"]*"|[\w.$:-]+) = type (.*)', l)
                nm = m.group(1).strip('"')
                tk = tokenize(m.group(2))
                self.types[nm] = self.parse_type(tk, 0)[0]
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)', l)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('define') or l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                nm = m.group(1).strip('"')
                # return type is the last type before @
                head = l[:m.start()]
                ptk = tokenize(l[m.end():])
                rty = self._ret_type(head)
                params, vararg = self._params(ptk)
                if l.startswith('declare'):
                    f = Func(self, nm, rty, params, vararg, None)
                else:
                    j = i + 1
                    while lines[j] != '}': j += 1
                    f = Func(self, nm, rty, params, vararg, lines[i + 1:j])
                    md = re.search(r'!dbg !(\d+)', l)
                    f.dbg = int(md.group(1)) if md else None
                    i = j
                self.funcs[nm] = f
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', l)
                if m: self._md_raw[int(m.group(1))] = m.group(2)
            i += 1
        for nm, d in list(self.globals.items()):
            m = re.search(r'\balias\b.*@("[^"]*"|[\w.$-]+)\s*(,.*)?$', d)
            if m and m.group(1).strip('"') in self.funcs and nm not in self.funcs: self.funcs[nm] = self.funcs[m.group(1).strip('"')]

    def _ret_type(self, head):
        tk = tokenize(head)
        # strip leading keywords; find longest suffix parseable as a type
        for i in range(1, len(tk)):
            try:
                j = self.skip_attrs(tk, i)
                ty, k = self.parse_type(tk, j)
                if k == len(tk): return ty
            except Exception:
                continue
        raise ValueError(head)

    def _params(self, t):
        i, out, va = 0, [], False
        while t[i] != ')':
            if t[i] == ',': i += 1; continue
            if t[i] == '...': va = True; i += 1; continue
            i = self.skip_attrs(t, i)
            ty, i = self.parse_type(t, i)
            i = self.skip_attrs(t, i)
            nm = None
            if t[i][0] == '%':
                nm = '%' + t[i][1:].strip('"'); i += 1
            elif ty.k == 'metadata':
                pass
            else:
                nm = '%' + str(len(out))
            if nm is None: nm = '%' + str(len(out))
            out.append((ty, nm))
        # unnamed params get numbers
        return out, va

    def global_init(self, name):
        """(is_const, Ty, value) or None when external"""
        g = self.globals.get(name)
        if g is None: return None
        if not isinstance(g, str): return g
        tk = tokenize(g)
        j = None
        for k, w in enumerate(tk):
            if w in ('global', 'constant'): j = k; break
        if j is None:
            self.globals[name] = None; return None
        const = tk[j] == 'constant'
        ty, i = self.parse_type(tk, j + 1)
        if 'external' in tk[:j] or i >= len(tk) or tk[i] == ',':
            r = (const, ty, None)
        else:
            v, i = self.parse_value(tk, i, ty)
            r = (const, ty, v)
        self.globals[name] = r
        return r

    # ------------------------------------------------------------------ debug info
    def line(self, dbg):
        while dbg is not None:
            raw = self._md_raw.get(dbg, '')
            m = re.search(r'line: (\d+)', raw)
            return int(m.group(1)) if m else None
        return None

    def _mdfield(self, raw, f):
        m = re.search(r'\b%s: (!\d+|"[^"]*"|\w+)' % f, raw)
        return m.group(1) if m else None

    def is_enum(self, name):
        t = 'DW_TAG_enumeration_type, name: "%s"' % name.split('::')[-1]
        return any(t in r for r in self._md_raw.values())
    def struct_fields(self, name):
        """C struct name -> {field: (offset bytes, size bytes, typestr)}  (from debug info)"""
        key = ('S', name)
        if key in self.md: return self.md[key]
        res = None
        for raw in self._md_raw.values():
            if 'DICompositeType(tag: DW_TAG_structure_type' in raw or 'DICompositeType(tag: DW_TAG_class_type' in raw:
                if self._mdfield(raw, 'name') == '"%s"' % name and self._mdfield(raw, 'elements'):
                    res = {}
                    el = self._md_raw[int(self._mdfield(raw, 'elements')[1:])]
                    for e in re.findall(r'!(\d+)', el):
                        er = self._md_raw[int(e)]
                        if 'DW_TAG_member' not in er and 'DW_TAG_inheritance' not in er: continue
                        if 'DIFlagStaticMember' in er: continue
                        nm = self._mdfield(er, 'name')
                        off = self._mdfield(er, 'offset'); sz = self._mdfield(er, 'size')
                        if nm is None: nm = '"__base"'
                        res[nm.strip('"')] = (int(off or 0) // 8, int(sz or 0) // 8, self._typestr(self._mdfield(er, 'baseType')))
                    break
        self.md[key] = res
        return res

    def _typestr(self, ref, depth=0):
        if ref is None or ref == 'null': return 'void'
        if depth > 8: return '?'
        raw = self._md_raw.get(int(ref[1:]), '')
        tag = self._mdfield(raw, 'tag')
        if 'DIBasicType' in raw: return self._mdfield(raw, 'name').strip('"')
        if tag == 'DW_TAG_pointer_type': return self._typestr(self._mdfield(raw, 'baseType'), depth + 1) + '*'
        if tag in ('DW_TAG_const_type', 'DW_TAG_typedef', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
            return self._typestr(self._mdfield(raw, 'baseType'), depth + 1)
        if tag in ('DW_TAG_structure_type', 'DW_TAG_class_type'): return 'struct ' + (self._mdfield(raw, 'name') or '?').strip('"')
        if tag == 'DW_TAG_enumeration_type': return 'int'
        if tag == 'DW_TAG_array_type': return self._typestr(self._mdfield(raw, 'baseType'), depth + 1) + '[]'
        return '?'
