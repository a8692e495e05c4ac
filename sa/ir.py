"""Textual LLVM-IR (LLVM 18, opaque pointers) reader.

Only the resolved program is analysed: clang's front end does the parsing and
type checking, this module just loads the IR it prints, together with the debug
information that maps instructions back to file:line and byte offsets back to
C++ field names.
"""
import re

TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%"(?:[^"\\]|\\.)*"|%[-\w.$]+)
  | (?P<glob>@"(?:[^"\\]|\\.)*"|@[-\w.$]+)
  | (?P<meta>!"(?:[^"\\]|\\.)*"|![-\w.]*)
  | (?P<attr>\#\d+)
  | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<num>-?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)
  | (?P<dots>\.\.\.)
  | (?P<id>[A-Za-z_$][-\w.$]*)
  | (?P<p>[()\[\]{}<>,=*:|;])
  | (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    m = TOK.match
    while i < n:
        r = m(s, i)
        if not r:
            raise ValueError('IR token: %r' % s[i:i + 60])
        i = r.end()
        k = r.lastgroup
        if k == 'ws':
            continue
        if k == 'p' and r.group() == ';':
            break
        out.append((k, r.group()))
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k in ('arr', 'vec'):
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.a))
        if self.k == 'named':
            return self.a
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')
META = Ty('metadata')
LABEL = Ty('label')
FLOATS = {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16}
INTS = {}


def ity(n):
    if n not in INTS:
        INTS[n] = Ty('int', n)
    return INTS[n]


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise ValueError('expected %r got %r in %s' % (
                s, self.peek(), ' '.join(x[1] for x in self.t)))

    def end(self):
        return self.i >= len(self.t)


def parse_type(p):
    t = p.next()
    if t == 'ptr':
        if p.peek() == 'addrspace':
            p.next(); p.need('('); p.next(); p.need(')')
        ty = PTR
    elif t == 'void':
        ty = VOID
    elif t == 'metadata':
        ty = META
    elif t == 'label':
        ty = LABEL
    elif t == 'token':
        ty = Ty('token')
    elif t in FLOATS:
        ty = Ty('float', t)
    elif re.fullmatch(r'i\d+', t):
        ty = ity(int(t[1:]))
    elif t == '[':
        n = int(p.next()); p.need('x')
        e = parse_type(p); p.need(']')
        ty = Ty('arr', n, e)
    elif t == '<':
        if p.peek() == '{':
            p.next()
            el = []
            if not p.eat('}'):
                while True:
                    el.append(parse_type(p))
                    if not p.eat(','):
                        break
                p.need('}')
            p.need('>')
            ty = Ty('struct', tuple(el), True)
        else:
            if p.peek() == 'vscale':
                p.next(); p.need('x')
            n = int(p.next()); p.need('x')
            e = parse_type(p); p.need('>')
            ty = Ty('vec', n, e)
    elif t == '{':
        el = []
        if not p.eat('}'):
            while True:
                el.append(parse_type(p))
                if not p.eat(','):
                    break
            p.need('}')
        ty = Ty('struct', tuple(el), False)
    elif t.startswith('%'):
        ty = Ty('named', t)
    elif t == 'opaque':
        ty = Ty('opaque')
    else:
        raise ValueError('type? %r in %s' % (t, ' '.join(x[1] for x in p.t)))
    # function type suffix
    if p.peek() == '(':
        d = 0
        args = []
        p.next()
        if not p.eat(')'):
            while True:
                if p.peek() == '...':
                    p.next(); args.append('...')
                else:
                    args.append(parse_type(p))
                if not p.eat(','):
                    break
            p.need(')')
        return Ty('fn', ty, tuple(args))
    return ty


# ---------------------------------------------------------------- values
class V:
    """operand: k in {local, global, int, float, null, undef, zero, str, agg,
    cexpr, meta, asm, fn}"""
    __slots__ = ('k', 'v', 'ty')

    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return '%s:%s' % (self.k, self.v)


def unq(n):
    if len(n) > 1 and n[1] == '"':
        return n[0] + n[2:-1]
    return n


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'nocapture',
               'readonly', 'readnone', 'writeonly', 'noalias', 'returned',
               'immarg', 'nest', 'swiftself', 'swifterror', 'noext', 'nofree',
               'noreturn', 'allocalign', 'allocptr', 'dead_on_unwind', 'writable'}
PARAM_ATTRS_P = {'byval', 'sret', 'align', 'dereferenceable',
                 'dereferenceable_or_null', 'byref', 'inalloca', 'elementtype',
                 'preallocated', 'nofpclass', 'range', 'initializes'}


def skip_param_attrs(p):
    info = {}
    while True:
        t = p.peek()
        if t in PARAM_ATTRS:
            p.next()
        elif t in PARAM_ATTRS_P:
            p.next()
            if p.peek() == '(':
                p.next()
                if t in ('byval', 'sret', 'elementtype'):
                    info[t] = parse_type(p)
                    p.need(')')
                else:
                    d = 1
                    while d:
                        x = p.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
            else:
                p.next()
        else:
            return info


def parse_value(p, ty):
    k, t = p.kind(), p.peek()
    if k == 'loc':
        p.next(); return V('local', unq(t), ty)
    if k == 'glob':
        p.next(); return V('global', unq(t), ty)
    if k == 'num':
        p.next()
        if ty.k == 'int':
            return V('int', int(t), ty)
        return V('float', t, ty)
    if k == 'hex':
        p.next(); return V('float', t, ty)
    if k == 'meta':
        p.next()
        if t == '!' and p.peek() == '{':
            d = 0
            while True:
                x = p.next()
                if x == '{':
                    d += 1
                elif x == '}':
                    d -= 1
                    if d == 0:
                        break
        elif p.peek() == '(':
            d = 0
            while True:
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        return V('meta', t, ty)
    if t in ('true', 'false'):
        p.next(); return V('int', 1 if t == 'true' else 0, ty)
    if t == 'null':
        p.next(); return V('null', None, ty)
    if t in ('undef', 'poison'):
        p.next(); return V('undef', None, ty)
    if t == 'zeroinitializer':
        p.next(); return V('zero', None, ty)
    if t == 'none':
        p.next(); return V('undef', None, ty)
    if k == 'str':
        p.next(); return V('str', t, ty)
    if t in ('{', '[', '<'):
        packed = False
        p.next()
        close = {'{': '}', '[': ']', '<': '>'}[t]
        if t == '<' and p.peek() == '{':
            p.next(); packed = True; close = '}'
        el = []
        if not p.eat(close):
            while True:
                ety = parse_type(p)
                el.append(parse_value(p, ety))
                if not p.eat(','):
                    break
            p.need(close)
        if packed:
            p.need('>')
        return V('agg', el, ty)
    if t == 'blockaddress' or t == 'dso_local_equivalent' or t == 'no_cfi':
        p.next()
        if p.peek() == '(':
            while p.next() != ')':
                pass
        else:
            p.next()
        return V('undef', None, ty)
    if k == 'id':   # constant expression
        op = p.next()
        flags = []
        while p.peek() != '(':
            flags.append(p.next())
        p.need('(')
        args = []
        ety = None
        if op == 'getelementptr':
            ety = parse_type(p); p.need(',')
        while True:
            if p.peek() == 'inrange':
                p.next()
                if p.peek() == '(':
                    while p.next() != ')':
                        pass
            aty = parse_type(p)
            args.append(parse_value(p, aty))
            if p.peek() == 'to':
                p.next()
                args.append(parse_type(p))
            if not p.eat(','):
                break
        p.need(')')
        return V('cexpr', (op, ety, args), ty)
    raise ValueError('value? %r (%s) in %s' % (t, ty, ' '.join(x[1] for x in p.t)))


class Ins:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'fn', 'blk', 'flags', 'text', 'idx')

    def __repr__(self):
        return self.text.strip()


class Block:
    __slots__ = ('name', 'ins', 'succs', 'preds', 'rpo', 'loops')

    def __init__(self, name):
        self.name, self.ins = name, []
        self.succs, self.preds = [], []
        self.rpo = 0
        self.loops = frozenset()


class Fn:
    def __init__(self, mod, name, head, body):
        self.mod, self.name, self.head, self._body = mod, name, head, body
        self._blocks = None
        self.dbg = None
        m = re.search(r'!dbg !(\d+)', head)
        if m:
            self.dbg = int(m.group(1))
        self._sig = None

    @property
    def pretty(self):
        return self.mod.demangle(self.name)

    @property
    def args(self):
        return self._getsig()[1]

    @property
    def retty(self):
        return self._getsig()[0]

    def _getsig(self):
        if self._sig is None:
            self._sig = parse_sig(self.head)
        return self._sig

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    @property
    def entry(self):
        return self.blocks[next(iter(self.blocks))]

    @property
    def file(self):
        return self.mod.scope_file(self.dbg) if self.dbg else None

    @property
    def line(self):
        return self.mod.md_int(self.dbg, 'line') if self.dbg else 0

    def _parse(self):
        blocks = {}
        nargs = len(self._getsig()[1])
        unnamed = [a[1] for a in self._getsig()[1]]
        # implicit entry label: number after last unnamed arg
        cnt = sum(1 for a in unnamed if re.fullmatch(r'%\d+', a))
        cur = None
        lines = self._body
        i = 0
        buf = None
        joined = []
        # join multi-line instructions (switch, invoke, landingpad)
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            if s.startswith('switch ') and ']' not in s:
                while ']' not in lines[i]:
                    i += 1
                    s += ' ' + lines[i].strip()
            elif ' = invoke ' in s or s.startswith('invoke '):
                if ' unwind label' not in s:
                    i += 1
                    s += ' ' + lines[i].strip()
            elif ' = landingpad' in s:
                while i + 1 < len(lines) and re.match(r'\s+(catch|filter|cleanup)\b', lines[i + 1]):
                    i += 1
                    s += ' ' + lines[i].strip()
            joined.append(s)
            i += 1
        idx = 0
        for s in joined:
            if not s or s.startswith(';'):
                continue
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):(\s|$)', s)
            if m and not s.startswith('%'):
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                cur = Block('%' + nm)
                blocks[cur.name] = cur
                continue
            if cur is None:
                cur = Block('%%%d' % cnt)
                blocks[cur.name] = cur
            if '@llvm.dbg.' in s and 'call void' in s:
                continue
            if '@llvm.lifetime.start' in s or '@llvm.experimental.noalias' in s:
                continue
            ins = parse_ins(s)
            ins.fn, ins.blk, ins.idx = self, cur, idx
            idx += 1
            cur.ins.append(ins)
        for b in blocks.values():
            t = b.ins[-1]
            for s in succ_names(t):
                if s not in b.succs:
                    b.succs.append(s)
        for b in blocks.values():
            for s in b.succs:
                blocks[s].preds.append(b.name)
        # reverse post-order in which the blocks of a loop are contiguous: the second pass
        # visits the successors that leave loops first, so that they come last
        ent = next(iter(blocks))

        def number(key):
            order, seen = [], {ent}

            def succs(n):
                return iter(sorted(blocks[n].succs, key=lambda x: key(n, x)) if key else blocks[n].succs)
            stack = [(ent, succs(ent))]
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, succs(s)))
                        break
                else:
                    order.append(n)
                    stack.pop()
            order.reverse()
            for k, n in enumerate(order):
                blocks[n].rpo = k
            return order

        def find_loops(order):
            reach = set(order)
            body = {}
            for n in order:
                for s in blocks[n].succs:
                    if blocks[s].rpo <= blocks[n].rpo:
                        bd = body.setdefault(s, {s})
                        work = [n]
                        while work:
                            x = work.pop()
                            if x not in bd and x in reach:
                                bd.add(x)
                                work += blocks[x].preds
            for b in blocks.values():
                b.loops = frozenset(h for h, bd in body.items() if b.name in bd)
        find_loops(number(None))
        find_loops(number(lambda n, x: len(blocks[n].loops & blocks[x].loops)))
        self._blocks = blocks

    def instrs(self):
        for b in self.blocks.values():
            for i in b.ins:
                yield i


def succ_names(t):
    if t.op == 'br':
        return t.x
    if t.op == 'switch':
        return [t.x[0]] + [l for _, l in t.x[1]]
    if t.op == 'invoke':
        return [t.x['normal'], t.x['unwind']]
    return []


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr',
       'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi',
        'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz',
         'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'atomic', 'disjoint',
         'nneg', 'weak', 'tail', 'musttail', 'notail', 'samesign', 'nusw'}
CC = {'fastcc', 'coldcc', 'ccc'}


def parse_ins(s):
    ins = Ins()
    ins.text = s
    ins.flags = set()
    ins.ops = []
    ins.x = None
    ins.res = None
    ins.ty = VOID
    m = re.search(r'!dbg !(\d+)', s)
    ins.dbg = int(m.group(1)) if m else None
    core = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*$', '', s)
    core = re.sub(r', !srcloc !\d+', '', core)
    toks = tokenize(core)
    p = P(toks)
    if p.kind() == 'loc' and p.peek(1) == '=':
        ins.res = unq(p.next())
        p.next()
    op = p.next()
    while op in FLAGS:
        ins.flags.add(op)
        op = p.next()
    ins.op = op
    while p.peek() in FLAGS:
        ins.flags.add(p.next())
    if op in BIN:
        ty = parse_type(p)
        a = parse_value(p, ty); p.need(',')
        b = parse_value(p, ty)
        ins.ty, ins.ops = ty, [a, b]
    elif op == 'fneg' or op == 'freeze':
        ty = parse_type(p)
        ins.ty, ins.ops = ty, [parse_value(p, ty)]
    elif op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            ins.flags.add(p.next())
        ins.x = p.next()
        ty = parse_type(p)
        a = parse_value(p, ty); p.need(',')
        b = parse_value(p, ty)
        ins.ty, ins.ops = ity(1), [a, b]
    elif op in CAST:
        ty = parse_type(p)
        a = parse_value(p, ty); p.need('to')
        ins.ty, ins.ops = parse_type(p), [a]
    elif op == 'alloca':
        p.eat('inalloca')
        ty = parse_type(p)
        n = None
        while p.eat(','):
            if p.peek() == 'align':
                p.next(); p.next()
            else:
                nt = parse_type(p)
                n = parse_value(p, nt)
        ins.ty, ins.x, ins.ops = PTR, ty, [n] if n else []
    elif op == 'load':
        ty = parse_type(p); p.need(',')
        pt = parse_type(p)
        ins.ty, ins.ops = ty, [parse_value(p, pt)]
        if 'atomic' in ins.flags:
            ins.x = [x[1] for x in p.t[p.i:]]
    elif op == 'store':
        ty = parse_type(p)
        v = parse_value(p, ty); p.need(',')
        pt = parse_type(p)
        ins.ops = [v, parse_value(p, pt)]
        if 'atomic' in ins.flags:
            ins.x = [x[1] for x in p.t[p.i:]]
    elif op == 'getelementptr':
        sty = parse_type(p)
        ins.x = sty
        while p.eat(','):
            t = parse_type(p)
            ins.ops.append(parse_value(p, t))
        ins.ty = PTR
        if ins.ops[0].ty.k == 'vec':
            ins.ty = ins.ops[0].ty
    elif op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in CC:
            ins.flags.add(p.next())
        skip_param_attrs(p)
        if p.peek() == 'addrspace':
            p.next(); p.next(); p.next(); p.next()
        ty = parse_type(p)
        if ty.k == 'fn':
            ins.ty = ty.a
        else:
            ins.ty = ty
        x = {'byval': {}, 'vararg': ty.k == 'fn' and '...' in ty.b}
        if p.peek() == 'asm':
            p.next()
            fl = []
            while p.kind() == 'id':
                fl.append(p.next())
            code = p.next()
            p.need(',')
            cons = p.next()
            callee = V('asm', (code[1:-1], cons[1:-1], fl), PTR)
        else:
            callee = parse_value(p, PTR)
        p.need('(')
        args = []
        if not p.eat(')'):
            while True:
                at = parse_type(p)
                info = skip_param_attrs(p)
                if at.k == 'metadata':
                    # metadata operand may be 'metadata ptr %x'
                    if p.kind() in ('meta',):
                        args.append(parse_value(p, at))
                    else:
                        it = parse_type(p)
                        args.append(parse_value(p, it))
                else:
                    if info:
                        x['byval'][len(args)] = info
                    args.append(parse_value(p, at))
                if not p.eat(','):
                    break
            p.need(')')
        x['callee'] = callee
        ins.ops = args
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next(); p.need('label'); x['normal'] = unq(p.next())
            p.need('unwind'); p.need('label'); x['unwind'] = unq(p.next())
        ins.x = x
    elif op == 'ret':
        if p.peek() == 'void':
            ins.ops = []
        else:
            ty = parse_type(p)
            ins.ops = [parse_value(p, ty)]
    elif op == 'br':
        if p.peek() == 'label':
            p.next(); ins.x = [unq(p.next())]
        else:
            ty = parse_type(p)
            ins.ops = [parse_value(p, ty)]
            p.need(','); p.need('label'); a = unq(p.next())
            p.need(','); p.need('label'); b = unq(p.next())
            ins.x = [a, b]
    elif op == 'switch':
        ty = parse_type(p)
        ins.ops = [parse_value(p, ty)]
        p.need(','); p.need('label'); d = unq(p.next())
        p.need('[')
        cs = []
        while not p.eat(']'):
            t = parse_type(p)
            v = parse_value(p, t)
            p.need(','); p.need('label')
            cs.append((v.v, unq(p.next())))
        ins.x = (d, cs)
    elif op == 'phi':
        ty = parse_type(p)
        ins.ty = ty
        inc = []
        while True:
            p.need('[')
            v = parse_value(p, ty); p.need(',')
            l = unq(p.next()); p.need(']')
            inc.append((v, l))
            if not p.eat(','):
                break
        ins.x = inc
    elif op == 'select':
        for _ in range(3):
            t = parse_type(p)
            ins.ops.append(parse_value(p, t))
            p.eat(',')
        ins.ty = ins.ops[1].ty
    elif op == 'extractvalue':
        t = parse_type(p)
        ins.ops = [parse_value(p, t)]
        ins.x = []
        while p.eat(','):
            ins.x.append(int(p.next()))
        ins.ty = t
    elif op == 'insertvalue':
        t = parse_type(p)
        a = parse_value(p, t); p.need(',')
        t2 = parse_type(p)
        b = parse_value(p, t2)
        ins.ops = [a, b]
        ins.x = []
        while p.eat(','):
            ins.x.append(int(p.next()))
        ins.ty = t
    elif op == 'landingpad':
        ins.ty = parse_type(p)
        ins.x = [x[1] for x in p.t[p.i:]]
    elif op == 'resume':
        t = parse_type(p)
        ins.ops = [parse_value(p, t)]
    elif op == 'unreachable':
        pass
    elif op == 'fence':
        ins.x = [x[1] for x in p.t[p.i:]]
    elif op == 'atomicrmw':
        ins.x = [p.next()]
        pt = parse_type(p)
        a = parse_value(p, pt); p.need(',')
        t = parse_type(p)
        b = parse_value(p, t)
        ins.ty, ins.ops = t, [a, b]
        ins.x += [x[1] for x in p.t[p.i:]]
    elif op == 'cmpxchg':
        pt = parse_type(p)
        a = parse_value(p, pt); p.need(',')
        t = parse_type(p)
        b = parse_value(p, t); p.need(',')
        t = parse_type(p)
        c = parse_value(p, t)
        ins.ty = Ty('struct', (t, ity(1)), False)
        ins.ops = [a, b, c]
        ins.x = [x[1] for x in p.t[p.i:]]
    elif op in ('extractelement', 'insertelement', 'shufflevector', 'va_arg'):
        ins.x = core
        if op == 'va_arg':
            t = parse_type(p)
            ins.ops = [parse_value(p, t)]
            p.need(',')
            ins.ty = parse_type(p)
        else:
            t = parse_type(p)
            v = parse_value(p, t)
            ins.ty = t.b if op == 'extractelement' else t
            ins.ops = [v]
    else:
        raise ValueError('instruction? ' + s)
    return ins


def parse_sig(head):
    """define <attrs> RET @name(args) ..."""
    h = head
    i = h.index('@')
    pre = h[len('define'):i]
    toks = tokenize(pre)
    # the return type is at the end of the prefix: strip leading attributes
    p = P(toks)
    ret = None
    while not p.end():
        t = p.peek()
        if t in ('dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'private', 'hidden',
                 'available_externally', 'weak', 'linkonce', 'external', 'protected',
                 'unnamed_addr', 'local_unnamed_addr', 'default', 'fastcc', 'ccc', 'coldcc'):
            p.next(); continue
        j = p.i
        skip_param_attrs(p)
        if p.i != j:
            continue
        ret = parse_type(p)
        break
    # args
    rest = h[i:]
    m = re.match(r'@"(?:[^"\\]|\\.)*"|@[-\w.$]+', rest)
    rest = rest[m.end():]
    # find matching paren
    d = 0
    for k, ch in enumerate(rest):
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
            if d == 0:
                break
    p = P(tokenize(rest[:k + 1]))
    p.need('(')
    args = []
    n = 0
    if not p.eat(')'):
        while True:
            if p.peek() == '...':
                p.next()
                break
            t = parse_type(p)
            info = skip_param_attrs(p)
            if p.kind() == 'loc':
                nm = unq(p.next())
            else:
                nm = '%%%d' % n
            if re.fullmatch(r'%\d+', nm):
                n += 1
            args.append((t, nm, info))
            if not p.eat(','):
                break
        p.eat(')')
    return ret, args


class Module:
    def __init__(self, text, name=''):
        self.name = name
        self.fns = {}
        self.decls = {}
        self.globals = {}
        self.types = {}
        self.md = {}
        self._dm = {}
        self._sf = {}
        self._fields = {}
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            c = ln[:1]
            if c == 'd' and ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                self.fns[nm] = Fn(self, nm, ln, lines[i + 1:j])
                i = j
            elif c == 'd' and ln.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
                nm = m.group(1).strip('"')
                self.decls[nm] = ln
            elif c == '@':
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)', ln)
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                self.globals[nm] = m.group(2)
            elif c == '%':
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = type (.*)', ln)
                self.types[m.group(1)] = m.group(2)
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1
        self.aliases = {}
        for nm, d in self.globals.items():
            m = re.search(r'\balias\b.*@("(?:[^"\\]|\\.)*"|[-\w.$]+)\s*$', d)
            if m and not re.search(r'\b(constant|global)\b', d[:m.start()]):
                self.aliases[nm] = m.group(1).strip('"')
        self._lay = {}
        self._pt = {}
        self._ginit = {}

    # ---- types
    def resolve(self, ty):
        while ty.k == 'named':
            if ty.a not in self._pt:
                self._pt[ty.a] = parse_type(P(tokenize(self.types[ty.a])))
            ty = self._pt[ty.a]
        return ty

    def sizeof(self, ty):
        return self.layout(ty)[0]

    def layout(self, ty):
        """(size, align, offsets)"""
        if ty.k == 'named':
            if ty.a not in self._lay:
                self._lay[ty.a] = self.layout(self.resolve(ty))
            return self._lay[ty.a]
        if ty.k == 'int':
            n = (ty.a + 7) // 8
            a = 1
            while a < n and a < 16:
                a *= 2
            s = (n + a - 1) // a * a
            return (s, a, None)
        if ty.k == 'ptr' or ty.k == 'fn':
            return (8, 8, None)
        if ty.k == 'float':
            s = FLOATS[ty.a]
            return (s, s, None)
        if ty.k in ('arr', 'vec'):
            s, a, _ = self.layout(ty.b)
            return (s * ty.a, a if ty.k == 'arr' else s * ty.a, None)
        if ty.k == 'struct':
            off, al, offs = 0, 1, []
            for e in ty.a:
                s, a, _ = self.layout(e)
                if ty.b:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs)
        if ty.k in ('opaque', 'void', 'metadata', 'token', 'label'):
            return (0, 1, None)
        raise ValueError('layout %r' % ty)

    # ---- globals
    def global_init(self, name):
        """(is_const, V or None, type)"""
        if name in self._ginit:
            return self._ginit[name]
        d = self.globals.get(name)
        r = (False, None, None)
        if d is not None:
            d = re.sub(r', (comdat|align|section|!dbg|partition)\b.*$', '', d)
            m = re.search(r'\b(constant|global|alias)\b', d)
            if m and m.group(1) != 'alias':
                rest = d[m.end():]
                p = P(tokenize(rest))
                ty = parse_type(p)
                v = None
                if not p.end() and not re.search(r'\bexternal\b', d[:m.start()]):
                    try:
                        v = parse_value(p, ty)
                    except ValueError:
                        v = None
                r = (m.group(1) == 'constant', v, ty)
        self._ginit[name] = r
        return r

    def cstring(self, name):
        """decoded bytes of a constant string global, or None"""
        c, v, ty = self.global_init(name)
        if v is None:
            return None
        if v.k == 'zero':
            return b'\0' * self.sizeof(ty)
        if v.k == 'str':
            return dec_str(v.v)
        return None

    # ---- names
    def demangle(self, n):
        if n not in self._dm:
            self._demangle_all()
        return self._dm.get(n, n)

    def _demangle_all(self):
        import subprocess
        names = [x for x in list(self.fns) + list(self.decls) + list(self.globals)]
        r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), text=True,
                           capture_output=True)
        outs = r.stdout.split('\n')
        for a, b in zip(names, outs):
            self._dm[a] = b

    # ---- debug info
    def md_field(self, n, f):
        t = self.md.get(n, '')
        m = re.search(r'\b%s: (?:!(\d+)|"((?:[^"\\]|\\.)*)"|([^,)]+))' % f, t)
        if not m:
            return None
        if m.group(1):
            return ('!', int(m.group(1)))
        if m.group(2) is not None:
            return ('s', m.group(2))
        return ('v', m.group(3).strip())

    def md_ref(self, n, f):
        r = self.md_field(n, f)
        return r[1] if r and r[0] == '!' else None

    def md_str(self, n, f):
        r = self.md_field(n, f)
        return r[1] if r and r[0] == 's' else None

    def md_int(self, n, f, d=0):
        r = self.md_field(n, f)
        try:
            return int(r[1]) if r else d
        except (TypeError, ValueError):
            return d

    def scope_file(self, n, depth=0):
        if n is None or depth > 50:
            return None
        if n in self._sf:
            return self._sf[n]
        f = self.md_ref(n, 'file')
        r = None
        t = self.md.get(n, '')
        if 'DIFile(' in t[:20]:
            r = self._fname(n)
        elif f is not None:
            r = self._fname(f)
        else:
            r = self.scope_file(self.md_ref(n, 'scope'), depth + 1)
        self._sf[n] = r
        return r

    def _fname(self, f):
        fn = self.md_str(f, 'filename') or ''
        d = self.md_str(f, 'directory') or ''
        if fn.startswith('/'):
            return fn
        return d + '/' + fn if d else fn

    def loc(self, ins):
        if ins is None or ins.dbg is None:
            return '?:0'
        n = ins.dbg
        return '%s:%d' % (self.scope_file(self.md_ref(n, 'scope')) or '?',
                          self.md_int(n, 'line'))

    def fields(self, cls):
        """byte offsets of the data members of the C++ class whose identifier or
        name matches: {field: (offset, size, base type metadata id)}"""
        if cls in self._fields:
            return self._fields[cls]
        best = None
        for n, t in self.md.items():
            if 'DICompositeType(' not in t[:40] or 'elements:' not in t:
                continue
            if 'name: "%s"' % cls in t or ('identifier: "%s"' % cls) in t:
                if 'DW_TAG_structure_type' in t or 'DW_TAG_class_type' in t or 'DW_TAG_union' in t:
                    best = n
                    break
        out = {}
        if best is not None:
            el = self.md_ref(best, 'elements')
            for m in re.finditer(r'!(\d+)', self.md.get(el, '')):
                k = int(m.group(1))
                t = self.md.get(k, '')
                if 'DW_TAG_member' in t and 'DIFlagStaticMember' not in t:
                    out[self.md_str(k, 'name')] = (self.md_int(k, 'offset') // 8,
                                                   (self.md_int(k, 'size') + 7) // 8,
                                                   self.md_ref(k, 'baseType'))
        self._fields[cls] = out
        return out

    def find(self, *subs, **kw):
        """functions whose demangled name contains all of subs"""
        r = []
        for n, f in self.fns.items():
            d = self.demangle(n)
            if all(s in d for s in subs):
                r.append(f)
        return r


def dec_str(tok):
    """c"..." token to bytes"""
    s = tok[2:-1] if tok.startswith('c"') else tok[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode('utf-8', 'surrogateescape'); i += 1
    return bytes(out)
