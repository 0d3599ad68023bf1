"""A small reader for textual LLVM 18 IR (opaque pointers), with the debug metadata the rules need.

Operands:  ('l',name) local  ('i',int) integer/null/bool  ('f',text) floating constant  ('u',) undef/poison
           ('g',name,off) address of a global plus byte offset   ('z',) zeroinitializer  ('x',text) anything else
"""
import re, struct as _struct

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![A-Za-z_0-9]*)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMH]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_][A-Za-z_0-9.]*)
 | (?P<p>[][(){}<>,=*:|])
''', re.X)

def tokenize(s):
    return [m.group() for m in TOK.finditer(s)]

PRIM = {'i1': (1, 1), 'i8': (1, 1), 'i16': (2, 2), 'i32': (4, 4), 'i64': (8, 8), 'i128': (16, 16), 'float': (4, 4), 'double': (8, 8),
        'x86_fp80': (16, 16), 'ptr': (8, 8), 'half': (2, 2), 'fp128': (16, 16)}
ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned',
         'inreg', 'immarg', 'dead_on_unwind', 'writable', 'nofree', 'nest', 'swiftself', 'inbounds', 'nuw', 'nsw', 'exact',
         'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'disjoint', 'nneg'}
LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak', 'linkonce_odr',
        'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr',
        'externally_initialized'}

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line', 'bb', 'fn', 'uid', 'scope')
    # op: opcode; res: local name or None; ty: result/value type; a: operand list; x: extra
    def __repr__(self):
        return '%s%s %s %s %s @%s' % ((self.res + ' = ') if self.res else '', self.op, self.ty, self.a, self.x, self.line)

class Block:
    __slots__ = ('label', 'insts', 'succs', 'preds')

class Fn:
    __slots__ = ('name', 'unit', 'params', 'blocks', 'order', 'ret', 'internal', 'dbg', 'argnames', 'varargs', 'file', 'line',
                 'key', 'nloc', 'cache', 'qual')
    def __repr__(self):
        return 'Fn(%s)' % self.key

class Module:
    def __init__(self):
        self.structs = {}      # name -> (packed, [types])
        self.globals = {}      # name -> dict(type, init, const, tls, internal, external, fn)
        self.fns = {}
        self.decls = {}
        self.di = {}

class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False
    def expect(self, x):
        if not self.accept(x):
            raise ValueError('expected %r at %r' % (x, self.t[max(0, self.i - 5):self.i + 10]))
    def type(self):
        t = self.next()
        if t == 'addrspace':
            pass
        if t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            r = ('arr', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next(); r = ('st', True, self.typelist('}')); self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                r = ('vec', n, e)
        elif t == '{':
            r = ('st', False, self.typelist('}'))
        elif t[0] == '%':
            r = ('named', t[1:].strip('"'))
        else:
            r = t
        while self.peek() == '(' :   # function type
            self.next()
            args = []
            while not self.accept(')'):
                if self.accept('...'):
                    args.append('...')
                else:
                    args.append(self.type())
                self.accept(',')
            r = ('fn', r, tuple(args))
        return r
    def typelist(self, end):
        out = []
        while not self.accept(end):
            out.append(self.type()); self.accept(',')
        return tuple(out)
    def attrs(self):
        d = {}
        while True:
            t = self.peek()
            if t in ATTRS:
                self.next(); d[t] = True
            elif t == 'align':
                self.next(); self.accept('(')
                self.next(); self.accept(')')
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'nofpclass'):
                self.next(); self.expect('(')
                while not self.accept(')'): self.next()
            elif t in ('byval', 'sret', 'byref', 'elementtype'):
                self.next(); self.expect('('); d[t] = self.type(); self.expect(')')
            else:
                return d
    def value(self, ty=None):
        t = self.next()
        c = t[0]
        if c == '%':
            return ('l', t[1:].strip('"'))
        if c == '@':
            return ('g', t[1:].strip('"'), 0)
        if t in ('null', 'false', 'none'):
            return ('i', 0)
        if t == 'true':
            return ('i', 1)
        if t in ('undef', 'poison'):
            return ('u',)
        if t == 'zeroinitializer':
            return ('z',)
        if c == 'c' and len(t) > 1 and t[1] == '"':
            return ('str', unescape(t[2:-1]))
        if t.startswith('0x'):
            return ('f', hexfloat(t))
        if t == 'blockaddress' or t == 'dso_local_equivalent' or t == 'no_cfi':
            return ('x', t)
        if t in ('getelementptr',):
            self.attrs()
            self.expect('(')
            st = self.type(); self.expect(',')
            self.type(); base = self.value(); idx = []
            while self.accept(','):
                self.attrs()
                it = self.type(); idx.append(self.value())
            self.expect(')')
            off = gep_offset(self.m, st, idx)
            if base[0] == 'g' and off is not None:
                return ('g', base[1], base[2] + off)
            return ('x', 'gep')
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext', 'fptrunc', 'fpext'):
            self.expect('('); self.type(); v = self.value(); self.expect('to'); self.type(); self.expect(')')
            return v
        if t in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'icmp', 'fcmp', 'shl', 'lshr', 'ashr', 'select'):
            self.attrs()
            d = 0
            while True:
                x = self.next()
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
            return ('x', t)
        if c == '[' or c == '{' or c == '<':
            if c == '<' and self.peek() == '{':
                self.next(); end = '}'
            else:
                end = {'[': ']', '{': '}', '<': '>'}[c]
            out = []
            while not self.accept(end):
                et = self.type(); out.append((et, self.value(et))); self.accept(',')
            if c == '<' and end == '}':
                self.expect('>')
            return ('agg', out)
        if t == 'asm':
            return ('x', 'asm')
        if re.fullmatch(r'-?\d+', t):
            if ty in ('double', 'float', 'x86_fp80'):
                return ('f', repr(float(t)))
            return ('i', int(t))
        if re.fullmatch(r'-?\d+\.\d+(?:[eE][-+]?\d+)?', t):
            return ('f', repr(float(t)))
        raise ValueError('value? %r in %r' % (t, self.t))

def hexfloat(t):
    if t[2] in 'KLMH':
        if t[2] == 'K':
            h = t[3:].rjust(20, '0')
            se = int(h[:4], 16); man = int(h[4:], 16)
            s = -1 if se & 0x8000 else 1
            e = se & 0x7fff
            if e == 0 and man == 0:
                return repr(0.0)
            if e == 0x7fff:
                return repr(float('nan')) if man & ((1 << 63) - 1) else repr(s * float('inf'))
            try:
                return repr(s * (man / 2.0 ** 63) * 2.0 ** (e - 16383))
            except OverflowError:
                return t
        return t
    return repr(_struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])

def unescape(s):
    return re.sub(r'\\([0-9A-Fa-f]{2}|\\)', lambda m: chr(int(m.group(1), 16)) if m.group(1) != '\\' else '\\', s)

def layout(mod, ty):
    """-> (size, align)"""
    if isinstance(ty, str):
        return PRIM.get(ty, (8, 8))
    k = ty[0]
    if k == 'arr':
        s, a = layout(mod, ty[2]); return s * ty[1], a
    if k == 'vec':
        s, a = layout(mod, ty[2]); return s * ty[1], s * ty[1]
    if k == 'named':
        c = mod.lay.get(ty[1])
        if c is None:
            st = mod.structs.get(ty[1])
            c = layout(mod, ('st',) + st) if st else (0, 1)
            mod.lay[ty[1]] = c
        return c
    if k == 'st':
        off = 0; al = 1
        for t in ty[2]:
            s, a = layout(mod, t)
            if ty[1]: a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al
    return 8, 8

def field_offset(mod, ty, idx):
    if ty[0] == 'named':
        st = mod.structs.get(ty[1])
        if st is None:
            return None, None
        ty = ('st',) + st
    off = 0
    for i, t in enumerate(ty[2]):
        s, a = layout(mod, t)
        if ty[1]: a = 1
        off = (off + a - 1) // a * a
        if i == idx:
            return off, t
        off += s
    return None, None

def gep_offset(mod, st, idx):
    """constant byte offset or None; idx: list of operands"""
    off = 0; ty = st
    for n, v in enumerate(idx):
        if n == 0:
            if v[0] != 'i': return None
            off += v[1] * layout(mod, ty)[0]
            continue
        if not isinstance(ty, tuple): return None
        if ty[0] in ('arr', 'vec'):
            ty = ty[2]
            if v[0] != 'i': return None
            off += v[1] * layout(mod, ty)[0]
        else:
            if v[0] != 'i': return None
            o, ty = field_offset(mod, ty, v[1])
            if o is None: return None
            off += o
    return off

def gep_path(mod, st, idx):
    """(constant prefix, [(variable operand, element size)...], innermost struct name, offset in it)"""
    off = 0; var = []; ty = st; sname = None; soff = 0
    if isinstance(ty, tuple) and ty[0] == 'named':
        sname = ty[1]
    for n, v in enumerate(idx):
        if n == 0:
            sz = layout(mod, ty)[0]
            if v[0] == 'i': off += v[1] * sz
            else: var.append((v, sz))
            continue
        if not isinstance(ty, tuple):
            return None
        if ty[0] in ('arr', 'vec'):
            ty = ty[2]; sz = layout(mod, ty)[0]
            if v[0] == 'i':
                off += v[1] * sz; soff += v[1] * sz
            else:
                var.append((v, sz))
        else:
            o, t2 = field_offset(mod, ty, v[1])
            if o is None: return None
            if ty[0] == 'named':
                sname = ty[1]; soff = o
            else:
                soff += o
            off += o; ty = t2
        if isinstance(ty, tuple) and ty[0] == 'named':
            pass
    return off, var, sname, soff

CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast',
         'addrspacecast'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv',
       'frem'}

def parse_inst(line, m):
    """-> Inst or None"""
    dbg = None
    k = line.rfind(', !dbg !')
    if k >= 0:
        j = k + 8
        e = j
        while e < len(line) and line[e].isdigit(): e += 1
        dbg = int(line[j:e]); line = line[:k]
    k = line.find(', !')
    if k >= 0 and 'llvm.dbg' not in line:
        line = line[:k]
    p = P(tokenize(line), m)
    ins = Inst(); ins.res = None; ins.x = None; ins.ty = None; ins.a = []; ins.line = dbg; ins.scope = None
    if p.peek() is None: return None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        ins.res = p.next()[1:].strip('"'); p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins.op = op
    if op == 'call' or op == 'invoke':
        while p.peek() in ('fastcc', 'ccc', 'coldcc'): p.next()
        p.attrs()
        ty = p.type()
        ft = None
        if isinstance(ty, tuple) and ty[0] == 'fn':
            ft = ty; ty = ty[1]
        ins.ty = ty
        if p.peek() == 'asm':
            ins.a = [('x', 'asm')]; ins.x = ([], ft); return ins
        callee = p.value()
        p.expect('(')
        args = []; ats = []
        while not p.accept(')'):
            if p.peek() == 'metadata':
                # debug or assume metadata: skip the rest
                ins.x = 'meta'; break
            at = p.type(); d = p.attrs(); v = p.value(at)
            args.append(v); ats.append((at, d))
            p.accept(',')
        ins.a = [callee] + args
        if ins.x != 'meta':
            ins.x = (ats, ft)
        return ins
    if op == 'load':
        if p.accept('atomic'): ins.x = 'atomic'
        p.attrs(); ins.ty = p.type(); p.expect(','); p.type(); ins.a = [p.value()]; return ins
    if op == 'store':
        if p.accept('atomic'): ins.x = 'atomic'
        p.attrs(); ins.ty = p.type(); v = p.value(ins.ty); p.expect(','); p.type(); ins.a = [v, p.value()]; return ins
    if op == 'getelementptr':
        p.attrs(); st = p.type(); p.expect(','); p.type(); base = p.value(); idx = []
        while p.accept(','):
            p.attrs()
            it = p.type(); idx.append(p.value(it))
        ins.ty = 'ptr'; ins.a = [base] + idx
        ins.x = (st, gep_path(m, st, idx)); return ins
    if op == 'alloca':
        p.attrs(); ins.ty = 'ptr'; t = p.type(); n = None
        if p.accept(','):
            if p.peek() != 'align':
                nt = p.type(); n = p.value(nt)
        ins.a = [n] if n is not None else []
        ins.x = t; return ins
    if op == 'br':
        if p.accept('label'):
            ins.x = [p.next()[1:].strip('"')]
        else:
            p.type(); c = p.value(); p.expect(','); p.expect('label'); t = p.next()[1:].strip('"'); p.expect(','); p.expect('label')
            f = p.next()[1:].strip('"')
            ins.a = [c]; ins.x = [t, f]
        return ins
    if op == 'ret':
        ins.ty = p.type()
        if ins.ty != 'void': ins.a = [p.value(ins.ty)]
        return ins
    if op == 'switch':
        ty = p.type(); v = p.value(ty); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"'); p.expect('[')
        cases = []
        while not p.accept(']'):
            p.type(); c = p.value(); p.expect(','); p.expect('label'); cases.append((c[1], p.next()[1:].strip('"')))
        ins.ty = ty; ins.a = [v]; ins.x = (d, cases); return ins
    if op == 'phi':
        p.attrs(); ins.ty = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(ins.ty); p.expect(','); l = p.next()[1:].strip('"'); p.expect(']')
            inc.append((v, l))
            if not p.accept(','): break
        ins.x = inc; ins.a = [v for v, _ in inc]; return ins
    if op in ('icmp', 'fcmp'):
        p.attrs(); ins.x = p.next(); p.attrs(); ins.ty = p.type(); a = p.value(ins.ty); p.expect(','); b = p.value(ins.ty); ins.a = [a, b]
        return ins
    if op in BIN:
        p.attrs(); ins.ty = p.type(); a = p.value(ins.ty); p.expect(','); b = p.value(ins.ty); ins.a = [a, b]; return ins
    if op in CASTS:
        p.attrs(); t = p.type(); v = p.value(t); p.expect('to'); ins.ty = p.type(); ins.a = [v]; ins.x = t; return ins
    if op == 'fneg' or op == 'freeze':
        p.attrs(); ins.ty = p.type(); ins.a = [p.value(ins.ty)]; return ins
    if op == 'select':
        p.attrs(); p.type(); c = p.value(); p.expect(','); ins.ty = p.type(); a = p.value(ins.ty); p.expect(','); p.type()
        b = p.value(ins.ty); ins.a = [c, a, b]; return ins
    if op == 'unreachable' or op == 'fence':
        return ins
    if op == 'atomicrmw':
        p.attrs(); ins.x = p.next(); p.type(); ptr = p.value(); p.expect(','); ins.ty = p.type(); v = p.value(ins.ty); ins.a = [ptr, v]; return ins
    if op == 'cmpxchg':
        while p.peek() == 'weak': p.next()
        p.attrs(); p.type(); ptr = p.value(); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
        ins.ty = ('st', False, (t, 'i1')); ins.a = [ptr, a, b]; return ins
    if op in ('extractvalue', 'insertvalue'):
        t = p.type(); v = p.value(t); ins.a = [v]; ins.ty = t
        if op == 'insertvalue':
            p.expect(','); t2 = p.type(); ins.a.append(p.value(t2))
        idx = []
        while p.accept(','): idx.append(int(p.next()))
        ins.x = (t, idx); return ins
    if op == 'va_arg':
        p.type(); v = p.value(); p.expect(','); ins.ty = p.type(); ins.a = [v]; return ins
    ins.op = 'unknown:' + op
    return ins

DIRE = re.compile(r'^!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)$')
DILIST = re.compile(r'^!(\d+) = (?:distinct )?!\{(.*)\}$')

def di_fields(s):
    out = {}
    for mm in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|!DI\w+\([^)]*\)|[^,]+)', s):
        out[mm.group(1)] = mm.group(2).strip()
    return out

def parse_file(path, unit):
    m = Module(); m.lay = {}; m.unit = unit
    di = m.di
    lines = open(path, errors='replace').read().split('\n')
    # pass 1: structs and debug info
    for ln in lines:
        if ln.startswith('!'):
            mm = DIRE.match(ln)
            if mm:
                di[int(mm.group(1))] = (mm.group(2), mm.group(3)); continue
            mm = DILIST.match(ln)
            if mm:
                di[int(mm.group(1))] = ('LIST', [int(x[1:]) if re.fullmatch(r'!\d+', x.strip()) else None for x in
                                                 (y.strip() for y in mm.group(2).split(','))])
        elif ln.startswith('%') and ' = type ' in ln:
            n, t = ln.split(' = type ', 1)
            if t.strip() == 'opaque':
                continue
            ty = P(tokenize(t), m).type()
            if ty[0] == 'st':
                m.structs[n[1:].strip('"')] = (ty[1], ty[2])
    dl = {}
    def loc(n):
        if n is None: return None
        r = dl.get(n)
        if r is None:
            d = di.get(n)
            mm = re.search(r'line: (\d+)', d[1]) if d else None
            r = dl[n] = int(mm.group(1)) if mm else 0
        return r
    cur = None; blk = None; uid = 0; pend = None
    argloc = {}
    m.argtypes = {}; argty = {}
    for d, (k, body) in list(di.items()):
        if k == 'DILocalVariable' and 'arg: ' in body:
            f = di_fields(body)
            argloc.setdefault(int(f['scope'][1:]), {})[int(f['arg'])] = f.get('name', '').strip('"')
            if f.get('type', '').startswith('!'): argty.setdefault(int(f['scope'][1:]), {})[int(f['arg'])] = int(f['type'][1:])
    for ln in lines:
        if cur is None:
            if ln.startswith('define '):
                cur, blk = parse_define(ln, m, unit, di, argloc), None
                continue
            if ln.startswith('declare '):
                mm = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                if mm: m.decls[mm.group(1).strip('"')] = ln
                continue
            if ln.startswith('@'):
                parse_global(ln, m)
            continue
        if ln == '}':
            m.fns[cur.name] = cur; cur = None; continue
        if not ln or ln.startswith(';'):
            continue
        if ln[0] != ' ':
            lab = ln.split(':', 1)[0].strip('"')
            blk = Block(); blk.label = lab; blk.insts = []; blk.succs = []; blk.preds = []
            cur.blocks[lab] = blk; cur.order.append(lab); continue
        if pend is not None:
            pend += ' ' + ln.strip()
            if ']' in ln:
                ln = pend; pend = None
            else:
                continue
        elif ln.startswith('  switch') and ']' not in ln:
            pend = ln; continue
        if '@llvm.dbg.' in ln:
            continue
        ins = parse_inst(ln.strip(), m)
        if ins is None: continue
        if blk is None:
            blk = Block(); blk.label = 'entry'; blk.insts = []; blk.succs = []; blk.preds = []
            cur.blocks['entry'] = blk; cur.order.append('entry')
        if ins.x == 'meta': continue
        ins.line = loc(ins.line); ins.bb = blk.label; ins.fn = cur.key
        ins.uid = cur.nloc; cur.nloc += 1
        blk.insts.append(ins)
        if ins.op == 'br': blk.succs = list(ins.x)
        elif ins.op == 'switch': blk.succs = [ins.x[0]] + [c[1] for c in ins.x[1]]
    for f in m.fns.values():
        for b in f.blocks.values():
            for s in set(b.succs):
                f.blocks[s].preds.append(b.label)
    m.structfields = di_structs(m)
    tdef = di_tdefs(di)
    for f in m.fns.values():
        m.argtypes[f.name] = {n: di_pointee(di, t, tdef) for n, t in argty.get(f.dbg, {}).items()}
        r = di_result(di, f.dbg)
        if r is not None: m.argtypes[f.name][0] = di_pointee(di, r, tdef)
    m.pointees = di_pointees(m, tdef)
    m.di = None
    return m

def parse_define(ln, m, unit, di, argloc):
    f = Fn(); f.unit = unit; f.blocks = {}; f.order = []; f.nloc = 0; f.cache = {}
    mm = re.search(r' !dbg !(\d+)', ln)
    f.dbg = int(mm.group(1)) if mm else None
    p = P(tokenize(ln), m); p.next()
    f.internal = False
    while p.peek() in LINK or p.peek() in ATTRS or p.peek() in ('fastcc', 'range'):
        if p.next() in ('internal', 'private'): f.internal = True
    p.attrs()
    f.ret = p.type(); f.name = p.next()[1:].strip('"'); p.expect('(')
    f.params = []; f.varargs = False
    while not p.accept(')'):
        if p.accept('...'):
            f.varargs = True; continue
        t = p.type(); d = p.attrs(); n = p.next()[1:].strip('"')
        f.params.append((t, n, d)); p.accept(',')
    f.key = f.name if not f.internal else f.name + '@' + unit
    f.argnames = argloc.get(f.dbg, {})
    f.line = 0; f.file = unit
    if f.dbg in di:
        d = di_fields(di[f.dbg][1])
        f.line = int(d.get('line', '0'))
        fi = d.get('file', '')
        if fi.startswith('!') and fi[1:].isdigit() and int(fi[1:]) in di:
            f.file = di_fields(di[int(fi[1:])][1]).get('filename', '""').strip('"').split('/s/')[-1]
    return f

def parse_global(ln, m):
    mm = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', ln)
    if not mm: return
    name = mm.group(1).strip('"'); body = re.sub(r', !dbg !\d+', '', mm.group(2))
    body = re.sub(r', align \d+$', '', body)
    p = P(tokenize(body), m)
    g = {'tls': False, 'internal': False, 'external': False, 'const': False, 'init': None}
    while True:
        t = p.peek()
        if t == 'thread_local':
            p.next(); g['tls'] = True
            if p.accept('('):
                while not p.accept(')'): p.next()
        elif t in LINK:
            if t in ('internal', 'private'): g['internal'] = True
            if t in ('external', 'extern_weak'): g['external'] = True
            p.next()
        elif t in ('global', 'constant'):
            g['const'] = t == 'constant'; p.next(); break
        else:
            if t in ('alias', 'ifunc') or t is None: return
            p.next()
    g['type'] = p.type()
    if not g['external'] and p.peek() is not None:
        try:
            g['init'] = p.value(g['type'])
        except Exception as e:
            g['init'] = ('x', str(e))
    m.globals[name] = g

def di_result(di, n):
    """type of what a function returns"""
    for k in ('type', 'types'):
        b = di_fields(di[n][1]).get(k, '') if n in di else ''
        if not b.startswith('!'): return None
        n = int(b[1:])
    l = di[n][1] if n in di else None
    return l[0] if isinstance(l, list) and l else None

def di_tdefs(di):
    out = {}
    for n, (k, body) in di.items():
        if k == 'DIDerivedType' and 'DW_TAG_typedef' in body:
            f = di_fields(body)
            if f.get('baseType', '').startswith('!'): out.setdefault(int(f['baseType'][1:]), f.get('name', '').strip('"'))
    return out

def di_strip(di, t):
    """-> (id, const) without typedefs and qualifiers"""
    c = False
    while t in di and di[t][0] == 'DIDerivedType' and any(x in di[t][1] for x in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type')):
        if 'DW_TAG_const_type' in di[t][1]: c = True
        b = di_fields(di[t][1]).get('baseType', '')
        if not b.startswith('!'): return None, c
        t = int(b[1:])
    return t, c

def di_sname(di, t, tdef):
    if t is None or t not in di: return None
    k, body = di[t]
    f = di_fields(body)
    if k == 'DICompositeType' and 'DW_TAG_structure_type' in body:
        return 'struct.' + (f['name'].strip('"') if 'name' in f else tdef.get(t, '?'))
    if k == 'DIDerivedType' and 'DW_TAG_pointer_type' in body:
        b = f.get('baseType', '')
        return '*' + ((di_sname(di, di_strip(di, int(b[1:]))[0], tdef) or '?') if b.startswith('!') else '?')
    if k == 'DISubroutineType': return 'fn'
    if k == 'DICompositeType' and 'DW_TAG_enumeration_type' in body: return 'int'
    if k == 'DIBasicType': return f.get('name', '').strip('"')
    return None

def di_pointee(di, t, tdef):
    """what a pointer type points to: (struct or basic type name, '*' and what that points to for another pointer, None; declared const)"""
    t, _ = di_strip(di, t)
    if t not in di or 'DW_TAG_pointer_type' not in di[t][1]: return (di_sname(di, t, tdef), None)
    b = di_fields(di[t][1]).get('baseType', '')
    if not b.startswith('!'): return (None, False)
    u, c = di_strip(di, int(b[1:]))
    return (di_sname(di, u, tdef), c)

def di_pointees(m, tdef):
    """struct name -> {byte offset: what the member points to (or is, for a struct in place)}"""
    di = m.di; out = {}
    for n, (k, body) in di.items():
        if k != 'DICompositeType' or 'DW_TAG_structure_type' not in body: continue
        nm = di_sname(di, n, tdef); el = di_fields(body).get('elements', '')
        if not el.startswith('!') or int(el[1:]) not in di: continue
        fl = {}
        for e in di[int(el[1:])][1]:
            if e is None or e not in di: continue
            g = di_fields(di[e][1])
            if g.get('baseType', '').startswith('!'): fl[int(g.get('offset', '0')) // 8] = di_pointee(di, int(g['baseType'][1:]), tdef)
        out[nm] = fl
    return out

def di_structs(m):
    """struct name (as in the IR) -> {byte offset: field name}"""
    di = m.di; out = {}
    tdef = {}
    for n, (k, body) in di.items():
        if k == 'DIDerivedType' and 'DW_TAG_typedef' in body:
            f = di_fields(body)
            if f.get('baseType', '').startswith('!'):
                tdef.setdefault(int(f['baseType'][1:]), f.get('name', '').strip('"'))
    for n, (k, body) in di.items():
        if k != 'DICompositeType' or 'DW_TAG_structure_type' not in body: continue
        f = di_fields(body)
        names = []
        if 'name' in f: names.append('struct.' + f['name'].strip('"'))
        elif n in tdef: names.append('struct.' + tdef[n])
        el = f.get('elements', '')
        if not el.startswith('!') or int(el[1:]) not in di: continue
        fl = {}
        for e in di[int(el[1:])][1]:
            if e is None or e not in di: continue
            g = di_fields(di[e][1])
            fl[int(g.get('offset', '0')) // 8] = g.get('name', '""').strip('"')
        for nm in names:
            out[nm] = fl
    return out
