"""Parser for the subset of textual LLVM-18 IR that clang emits for C at -O0 after SROA.

The parser is strict: an instruction or operand it does not understand raises, so a
construct the analyses cannot see never silently disappears from the analysed program.
"""
import re

class ParseError(Exception):
    pass

# ---------------------------------------------------------------- types
# type representation: ('i',n) ('ptr',) ('void',) ('s',name) ('anon',[types],packed)
#                      ('arr',n,t) ('fn',) ('meta',) ('float',) ('double',) ('vec',n,t)
TOK = re.compile(r'''
    \s*(?:
      (?P<str>c?"(?:[^"\\]|\\.)*")
    | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
    | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
    | (?P<meta>![-\w.]*)
    | (?P<attr>\#\d+)
    | (?P<dots>\.\.\.)
    | (?P<num>-?\d+(?:\.\d+e[+-]\d+|\.\d+)?|0x[0-9A-Fa-f]+)
    | (?P<word>[A-Za-z_][\w.]*)
    | (?P<punct>[(){}\[\],=*<>:|])
    )''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i].isspace():
            i += 1
            continue
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError('token: %r in %r' % (s[i:i+20], s))
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out

PTR = ('ptr',)
VOID = ('void',)

class P:
    """token cursor"""
    __slots__ = ('t', 'i')
    def __init__(self, toks):
        self.t = toks
        self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def need(self, x):
        if not self.eat(x):
            raise ParseError('expected %r at %r' % (x, self.t[self.i:self.i+6]))

def parse_type(p):
    t = p.next()
    if t == 'ptr':
        ty = PTR
    elif t == 'void':
        ty = VOID
    elif re.fullmatch(r'i\d+', t):
        ty = ('i', int(t[1:]))
    elif t in ('float', 'double', 'x86_fp80', 'half'):
        ty = (t,)
    elif t == 'metadata':
        ty = ('meta',)
    elif t == 'label':
        ty = ('label',)
    elif t[0] == '%':
        ty = ('s', t)
    elif t == '[':
        n = int(p.next())
        if p.next() != 'x':
            raise ParseError('array type')
        e = parse_type(p)
        p.need(']')
        ty = ('arr', n, e)
    elif t == '<' and p.peek() != '{':
        n = int(p.next()); p.next()
        e = parse_type(p)
        p.need('>')
        ty = ('vec', n, e)
    elif t == '{' or (t == '<' and p.peek() == '{'):
        packed = t == '<'
        if packed:
            p.need('{')
        els = []
        if p.peek() != '}':
            els.append(parse_type(p))
            while p.eat(','):
                els.append(parse_type(p))
        p.need('}')
        if packed:
            p.need('>')
        ty = ('anon', tuple(els), packed)
    elif t == 'opaque':
        ty = ('opaque',)
    else:
        raise ParseError('type %r' % t)
    # function type suffix: "i32 (ptr, ...)" in call instructions
    return ty

PARAM_ATTR = {'noundef', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly', 'immarg',
              'nonnull', 'noalias', 'returned', 'inreg', 'readnone', 'nofree', 'noreturn',
              'nest', 'nounwind', 'allocalign', 'allocptr', 'swiftself'}

def skip_param_attrs(p):
    while True:
        t = p.peek()
        if t in PARAM_ATTR:
            p.next()
        elif t in ('align', 'dereferenceable', 'dereferenceable_or_null'):
            p.next()
            if p.eat('('):
                p.next(); p.need(')')
            else:
                p.next()
        elif t in ('byval', 'sret', 'elementtype', 'byref', 'memory', 'captures'):
            p.next()
            p.need('(')
            d = 1
            while d:
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
        else:
            return

UNDEF = ('undef',)

def unescape(s):
    # c"...\00"
    s = s[2:-1] if s[0] == 'c' else s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

def parse_value(p, ty):
    """operand: ('l',name) ('c',int) ('g',name) UNDEF ('agg',[..]) ('zero',) ('bytes',b) ('ce',...)"""
    t = p.next()
    if t[0] == '%':
        return ('l', t)
    if t[0] == '@':
        return ('g', t)
    if t == 'null':
        return ('c', 0)
    if t == 'true':
        return ('c', 1)
    if t == 'false':
        return ('c', 0)
    if t in ('undef', 'poison'):
        return UNDEF
    if t == 'zeroinitializer':
        return ('zero',)
    if t[0] == 'c' and len(t) > 1 and t[1] == '"':
        return ('bytes', unescape(t))
    if re.fullmatch(r'-?\d+', t):
        return ('c', int(t))
    if ty and ty[0] in ('float', 'double'):
        return UNDEF
    if t in ('getelementptr',):
        while p.peek() in ('inbounds', 'inrange'):
            p.next()
        p.need('(')
        sty = parse_type(p)
        ops = []
        while p.eat(','):
            while p.peek() in ('inrange',):
                p.next()
            et = parse_type(p)
            ops.append((et, parse_value(p, et)))
        p.need(')')
        return ('ce', 'gep', sty, ops)
    if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
        p.need('(')
        et = parse_type(p)
        v = parse_value(p, et)
        if p.next() != 'to':
            raise ParseError('const cast')
        parse_type(p)
        p.need(')')
        return ('ce', 'cast', v)
    if t in ('sub', 'add'):
        while p.peek() in ('nuw', 'nsw'):
            p.next()
        p.need('(')
        et = parse_type(p); a = parse_value(p, et)
        p.need(',')
        et = parse_type(p); b = parse_value(p, et)
        p.need(')')
        return ('ce', t, a, b)
    if t in ('{', '['):
        close = '}' if t == '{' else ']'
        els = []
        if p.peek() != close:
            while True:
                et = parse_type(p)
                els.append((et, parse_value(p, et)))
                if not p.eat(','):
                    break
        p.need(close)
        return ('agg', els)
    if t == '<' and p.peek() == '{':
        p.next()
        els = []
        while True:
            et = parse_type(p)
            els.append((et, parse_value(p, et)))
            if not p.eat(','):
                break
        p.need('}'); p.need('>')
        return ('agg', els)
    raise ParseError('value %r' % t)

class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line', 'fn', 'bb', 'idx', 'txt', 'uid', 'scope')
    def __repr__(self):
        return '%s:%s %s' % (self.fn.name, self.line, self.txt[:80])

class Block:
    __slots__ = ('name', 'instrs', 'phis', 'succs', 'preds', 'index', 'livein', 'isheader')

class Function:
    __slots__ = ('name', 'tu', 'params', 'blocks', 'entry', 'rty', 'internal', 'file', 'dname', 'dtype',
                 'line', 'vararg', 'loopheads', 'order', 'text', 'byval', 'counters')
    def __repr__(self):
        return '<%s %s>' % (self.tu.name, self.name)

class Global:
    __slots__ = ('name', 'tu', 'ty', 'init', 'const', 'internal', 'external')

LINKAGE = {'dso_local', 'internal', 'private', 'unnamed_addr', 'local_unnamed_addr', 'external',
           'common', 'weak', 'linkonce_odr', 'available_externally', 'hidden', 'thread_local',
           'protected', 'default', 'linkonce', 'noundef'}

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'}

class TU:
    def __init__(self, name, path):
        self.name = name
        self.structs = {}
        self.globals = {}
        self.functions = {}
        self.decls = set()
        self.meta = {}
        self._sz = {}
        self.fields = {}          # struct ir name -> [field names]
        self.parse(open(path).read())

    # ---- layout
    def size_align(self, ty):
        r = self._sz.get(ty)
        if r:
            return r
        k = ty[0]
        if k == 'i':
            n = max(1, (ty[1] + 7) // 8)
            r = (n, min(n, 8) if n in (1, 2, 4, 8) else 8)
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'float':
            r = (4, 4)
        elif k == 'double':
            r = (8, 8)
        elif k == 'x86_fp80':
            r = (16, 16)
        elif k == 'arr':
            s, a = self.size_align(ty[2])
            r = (s * ty[1], a)
        elif k == 's':
            r = self.size_align(self.structs[ty[1]])
        elif k == 'anon':
            off = 0; al = 1
            for e in ty[1]:
                s, a = self.size_align(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        elif k in ('opaque', 'void', 'meta', 'label'):
            r = (1, 1)
        else:
            raise ParseError('size %r' % (ty,))
        self._sz[ty] = r
        return r

    def sizeof(self, ty):
        return self.size_align(ty)[0]

    def resolve(self, ty):
        while ty[0] == 's':
            ty = self.structs[ty[1]]
        return ty

    def field_off(self, ty, idx):
        ty = self.resolve(ty)
        off = 0
        for k, e in enumerate(ty[1]):
            s, a = self.size_align(e)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            if k == idx:
                return off, e
            off += s
        raise ParseError('field')

    # ---- parsing
    def parse(self, text):
        lines = text.split('\n')
        meta_lines = []
        i = 0
        fn_bodies = []
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] == ';':
                i += 1
                continue
            c = l[0]
            if c == '!':
                meta_lines.append(l)
            elif c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', l)
                self.structs[m.group(1)] = parse_type(P(tokenize(m.group(2))))
            elif c == '@':
                self.parse_global(l)
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls.add('@' + m.group(1))
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                fn_bodies.append((l, lines[i+1:j]))
                i = j
            elif l.startswith(('source_filename', 'target ', 'attributes', 'module asm', '$')):
                pass
            else:
                raise ParseError('line %r' % l)
            i += 1
        self.parse_meta(meta_lines)
        for h, body in fn_bodies:
            self.parse_function(h, body)

    def parse_meta(self, lines):
        raw = {}
        for l in lines:
            m = re.match(r'!(\d+) = (?:distinct )?(.*)$', l)
            if m:
                raw[m.group(1)] = m.group(2)
        self.meta = raw
        self._scope_sub = {}
        # struct field names, by DICompositeType name and typedef'd anonymous structs
        self.di_structs = {}
        typedefs = {}
        for k, v in raw.items():
            if v.startswith('!DIDerivedType(tag: DW_TAG_typedef'):
                m = re.search(r'name: "([^"]*)"', v)
                b = re.search(r'baseType: !(\d+)', v)
                if m and b:
                    typedefs.setdefault(b.group(1), m.group(1))
        for k, v in raw.items():
            if v.startswith('!DICompositeType(tag: DW_TAG_structure_type'):
                m = re.search(r'name: "([^"]*)"', v)
                name = m.group(1) if m else typedefs.get(k)
                e = re.search(r'elements: !(\d+)', v)
                if not name or not e:
                    continue
                els = re.findall(r'!(\d+)', raw[e.group(1)])
                fl = []
                for x in els:
                    d = raw[x]
                    nm = re.search(r'name: "([^"]*)"', d)
                    off = re.search(r'offset: (\d+)', d)
                    fl.append((int(off.group(1)) // 8 if off else 0, nm.group(1) if nm else '?'))
                self.di_structs[name] = fl

    def di_fields(self, irname):
        n = irname[1:].strip('"')
        n = re.sub(r'^(struct|union)\.', '', n)
        if n in self.di_structs:
            return self.di_structs[n]
        n2 = re.sub(r'\.\d+$', '', n)
        return self.di_structs.get(n2)

    def unsigned_params(self, f):
        """the numbers of f's parameters that the source declares with an unsigned integer type"""
        d = self.meta.get(f.dtype)
        m = d and re.search(r'types: !(\d+)', d)
        if not m:
            return set()
        els = [x.strip() for x in self.meta[m.group(1)].strip('!{}').split(',')][1:]
        if len(els) != len(f.params):
            return set()
        out = set()
        for k, x in enumerate(els):
            for _ in range(12):
                v = self.meta.get(x.lstrip('!'))
                if v is None:
                    break
                if v.startswith('!DIBasicType'):
                    if 'DW_ATE_unsigned,' in v or v.rstrip(')').endswith('DW_ATE_unsigned'):
                        out.add(k)
                    break
                b = re.search(r'baseType: !(\d+)', v)
                if not b or not re.match(r'!DIDerivedType\(tag: DW_TAG_(typedef|const_type|volatile_type)', v):
                    break
                x = b.group(1)
        return out

    def param_sizes(self, f):
        """per parameter the size of the structure the source declares it to point to, or None"""
        out = self.psizes.get(f.name) if hasattr(self, 'psizes') else None
        if out is not None:
            return out
        if not hasattr(self, 'psizes'):
            self.psizes = {}
        d = self.meta.get(f.dtype)
        m = d and re.search(r'types: !(\d+)', d)
        els = [x.strip() for x in self.meta[m.group(1)].strip('!{}').split(',')][1:] if m else []
        out = []
        for x in els if len(els) == len(f.params) else ():
            ptrs, size = 0, None
            for _ in range(12):
                v = self.meta.get(x.lstrip('!'))
                if v is None:
                    break
                if 'DW_TAG_structure_type' in v:
                    n = re.search(r'size: (\d+)', v)
                    if ptrs == 1 and n:
                        size = int(n.group(1)) // 8
                    break
                b = re.search(r'baseType: !(\d+)', v)
                if not b:
                    break
                ptrs += 'DW_TAG_pointer_type' in v
                x = b.group(1)
            out.append(size)
        out = self.psizes[f.name] = out if len(out) == len(f.params) else [None] * len(f.params)
        return out

    def param_pointees(self, f):
        """per parameter the name of the type the source declares it to point to, or None"""
        d = self.meta.get(f.dtype)
        m = d and re.search(r'types: !(\d+)', d)
        els = [x.strip() for x in self.meta[m.group(1)].strip('!{}').split(',')][1:] if m else []
        if len(els) != len(f.params):
            return [None] * len(f.params)
        out = []
        for x in els:
            ptr, name = False, None
            for _ in range(12):
                v = self.meta.get(x.lstrip('!'))
                if v is None:
                    break
                n = re.search(r'name: "([^"]*)"', v)
                if ptr and n:
                    name = n.group(1)
                    break
                b = re.search(r'baseType: !(\d+)', v)
                if not b:
                    break
                if 'DW_TAG_pointer_type' in v:
                    ptr = True
                x = b.group(1)
            out.append(name)
        return out

    def subprogram_of(self, sid):
        r = self._scope_sub.get(sid)
        if r is not None:
            return r
        cur = sid
        while True:
            v = self.meta.get(cur)
            if v is None:
                r = None
                break
            if v.startswith('!DISubprogram'):
                r = cur
                break
            m = re.search(r'scope: !(\d+)', v)
            if not m:
                r = None
                break
            cur = m.group(1)
        self._scope_sub[sid] = r
        return r

    def loc(self, mid):
        v = self.meta.get(mid)
        if not v:
            return 0
        m = re.match(r'!DILocation\(line: (\d+)', v)
        return int(m.group(1)) if m else 0

    def parse_global(self, l):
        if l.startswith('@llvm.'):
            return
        m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', l)
        g = Global()
        g.name = m.group(1)
        g.tu = self
        rest = m.group(2)
        rest = re.sub(r', !dbg !\d+', '', rest)
        toks = tokenize(rest)
        p = P(toks)
        g.internal = g.external = g.const = False
        while True:
            t = p.peek()
            if t in LINKAGE:
                p.next()
                if t in ('internal', 'private'):
                    g.internal = True
                if t == 'external':
                    g.external = True
            elif t == 'global':
                p.next(); break
            elif t == 'constant':
                g.const = True
                p.next(); break
            elif t == 'alias':
                raise ParseError('alias')
            else:
                raise ParseError('global %r' % l)
        g.ty = parse_type(p)
        g.init = None
        if p.peek() not in (None, ','):
            g.init = parse_value(p, g.ty)
        self.globals[g.name] = g

    def parse_function(self, head, body):
        f = Function()
        f.tu = self
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
        f.name = '@' + m.group(1)
        f.internal = ' internal ' in head
        pre = head[:m.start()]
        dbg = re.search(r'!dbg !(\d+)', head)
        f.dname = m.group(1)
        f.dtype = None
        f.line = 0
        f.file = self.name
        if dbg:
            d = self.meta[dbg.group(1)]
            nm = re.search(r'name: "([^"]*)"', d)
            f.dname = nm.group(1)
            ty = re.search(r', type: !(\d+)', d)
            f.dtype = ty.group(1) if ty else None
            ln = re.search(r', line: (\d+)', d)
            f.line = int(ln.group(1)) if ln else 0
            fm = re.search(r'file: !(\d+)', d)
            if fm:
                fv = self.meta[fm.group(1)]
                f.file = re.search(r'filename: "([^"]*)"', fv).group(1)
        # params
        depth = 0
        s = head[m.end()-1:]
        for k, ch in enumerate(s):
            if ch == '(':
                depth += 1
            elif ch == ')':
                depth -= 1
                if depth == 0:
                    s = s[1:k]
                    break
        p = P(tokenize(s))
        f.params = []
        f.byval = {}
        f.vararg = False
        while p.peek() is not None:
            if p.eat('...'):
                f.vararg = True
                continue
            ty = parse_type(p)
            st = p.i
            skip_param_attrs(p)
            attrs = p.t[st:p.i]
            nm = p.next()
            if 'byval' in attrs:
                bi = attrs.index('byval')
                f.byval[nm] = parse_type(P(attrs[bi+2:]))
            f.params.append((nm, ty))
            p.eat(',')
        pt = pre.split()
        # return type is the last type before the name
        q = [x for x in pt[1:] if x not in LINKAGE and x not in PARAM_ATTR]
        try:
            f.rty = parse_type(P(tokenize(' '.join(q))))
        except Exception:
            f.rty = PTR
        # blocks
        f.blocks = {}
        f.order = []
        cur = None
        i = 0
        n = len(body)
        uid = 0
        while i < n:
            l = body[i]
            if not l.strip():
                i += 1
                continue
            if l[0] != ' ':
                lab = re.match(r'((?:"[^"]*"|[-\w.$]+)):', l)
                if lab:
                    cur = self.newblock(f, '%' + lab.group(1))
                    i += 1
                    continue
                raise ParseError('block line %r' % l)
            if cur is None:
                # unnamed entry block: never referenced
                cur = self.newblock(f, '%<entry>')
            txt = l.strip()
            if 'llvm.dbg.' in txt:
                i += 1
                continue
            if re.match(r'(%\S+ = )?switch ', txt):
                while not body[i].strip().startswith(']'):
                    i += 1
                    txt += ' ' + body[i].strip()
            i += 1
            ins = self.parse_instr(txt)
            ins.fn = f
            ins.bb = cur
            ins.uid = uid
            uid += 1
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                ins.idx = len(cur.instrs)
                cur.instrs.append(ins)
        f.entry = f.order[0]
        self.finish(f)
        self.functions[f.name] = f

    def newblock(self, f, name):
        b = Block()
        b.name = name
        b.instrs = []
        b.phis = []
        b.succs = []
        b.preds = []
        b.index = len(f.order)
        b.isheader = False
        f.blocks[name] = b
        f.order.append(b)
        return b

    def parse_instr(self, txt):
        ins = Instr()
        ins.txt = txt
        ins.idx = -1
        m = re.search(r', !dbg !(\d+)', txt)
        ins.line = self.loc(m.group(1)) if m else 0
        core = re.sub(r',\s*![\w.]+ !\d+', '', txt)
        ins.dst = None
        m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = (.*)$', core)
        if m:
            ins.dst = m.group(1)
            core = m.group(2)
        p = P(tokenize(core))
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        ins.op = op
        ins.ty = VOID
        if op == 'alloca':
            ins.ty = parse_type(p)
            cnt = ('c', 1)
            while p.eat(','):
                if p.peek() == 'align':
                    p.next(); p.next()
                else:
                    ct = parse_type(p)
                    cnt = parse_value(p, ct)
            ins.a = (cnt,)
        elif op == 'load':
            p.eat('volatile'); p.eat('atomic')
            ins.ty = parse_type(p)
            p.need(',')
            parse_type(p)
            ins.a = (parse_value(p, PTR),)
        elif op == 'store':
            p.eat('volatile'); p.eat('atomic')
            ins.ty = parse_type(p)
            v = parse_value(p, ins.ty)
            p.need(',')
            parse_type(p)
            ins.a = (v, parse_value(p, PTR))
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            ins.ty = parse_type(p)
            ops = []
            while p.eat(','):
                et = parse_type(p)
                ops.append((et, parse_value(p, et)))
            ins.a = tuple(ops)
        elif op == 'call':
            while p.peek() in PARAM_ATTR or p.peek() in ('fastcc', 'ccc', 'nsw'):
                p.next()
            skip_param_attrs(p)
            ins.ty = parse_type(p)
            # optional function type
            if p.peek() == '(':
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            callee = parse_value(p, PTR)
            p.need('(')
            args = []
            while not p.eat(')'):
                at = parse_type(p)
                skip_param_attrs(p)
                if at[0] == 'meta':
                    raise ParseError('metadata arg')
                args.append((at, parse_value(p, at)))
                p.eat(',')
            ins.a = (callee, args)
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                ins.a = (None, p.next(), None)
            else:
                parse_type(p)
                c = parse_value(p, ('i', 1))
                p.need(','); p.need('label')
                t = p.next()
                p.need(','); p.need('label')
                e = p.next()
                ins.a = (c, t, e)
        elif op == 'switch':
            ty = parse_type(p)
            v = parse_value(p, ty)
            p.need(','); p.need('label')
            d = p.next()
            p.need('[')
            cases = []
            while not p.eat(']'):
                parse_type(p)
                cv = parse_value(p, ty)
                p.need(','); p.need('label')
                cases.append((cv[1], p.next()))
            ins.ty = ty
            ins.a = (v, d, cases)
        elif op == 'ret':
            ins.ty = parse_type(p)
            ins.a = (None if ins.ty == VOID else parse_value(p, ins.ty),)
        elif op == 'unreachable':
            ins.a = ()
        elif op == 'icmp':
            pred = p.next()
            ins.ty = parse_type(p)
            a = parse_value(p, ins.ty)
            p.need(',')
            b = parse_value(p, ins.ty)
            ins.a = (pred, a, b)
        elif op == 'phi':
            ins.ty = parse_type(p)
            inc = {}
            while True:
                p.need('[')
                v = parse_value(p, ins.ty)
                p.need(',')
                inc[p.next()] = v
                p.need(']')
                if not p.eat(','):
                    break
            ins.a = (inc,)
        elif op == 'select':
            parse_type(p)
            c = parse_value(p, ('i', 1))
            p.need(',')
            ins.ty = parse_type(p)
            a = parse_value(p, ins.ty)
            p.need(',')
            parse_type(p)
            b = parse_value(p, ins.ty)
            ins.a = (c, a, b)
        elif op in BIN:
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            ins.ty = parse_type(p)
            a = parse_value(p, ins.ty)
            p.need(',')
            b = parse_value(p, ins.ty)
            ins.a = (a, b)
        elif op in CAST:
            p.eat('nneg')
            st = parse_type(p)
            v = parse_value(p, st)
            dt = st
            if p.peek() == 'to':
                p.next()
                dt = parse_type(p)
            ins.ty = dt
            ins.a = (st, v)
        elif op == 'extractvalue':
            st = parse_type(p)
            v = parse_value(p, st)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            ins.ty = st
            ins.a = (v, tuple(idx))
        elif op == 'insertvalue':
            st = parse_type(p)
            v = parse_value(p, st)
            p.need(',')
            et = parse_type(p)
            e = parse_value(p, et)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            ins.ty = st
            ins.a = (v, e, tuple(idx))
        elif op == 'va_arg':
            parse_type(p)
            v = parse_value(p, PTR)
            p.need(',')
            ins.ty = parse_type(p)
            ins.a = (v,)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'sitofp', 'fptosi', 'uitofp', 'fptoui', 'fpext', 'fptrunc', 'fneg'):
            ins.op = 'float'
            ins.ty = ('double',)
            ins.a = ()
        else:
            raise ParseError('instr %r' % txt)
        return ins

    def finish(self, f):
        # cfg
        for b in f.order:
            t = b.instrs[-1]
            if t.op == 'br':
                b.succs = [t.a[1]] + ([t.a[2]] if t.a[2] else [])
            elif t.op == 'switch':
                b.succs = [t.a[1]] + [c[1] for c in t.a[2]]
            b.succs = list(dict.fromkeys(b.succs))
        for b in f.order:
            for s in b.succs:
                f.blocks[s].preds.append(b.name)
        # loop headers: targets of back edges in a DFS
        color = {}
        stack = [(f.entry, iter(f.entry.succs))]
        color[f.entry.name] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in color:
                    color[s] = 1
                    sb = f.blocks[s]
                    stack.append((sb, iter(sb.succs)))
                    adv = True
                    break
                elif color[s] == 1:
                    f.blocks[s].isheader = True
            if not adv:
                color[b.name] = 2
                stack.pop()
        # liveness of SSA names at block entry (after phis)
        use = {}
        dfn = {}
        for b in f.order:
            u = set(); d = set()
            for ph in b.phis:
                d.add(ph.dst)
            for ins in b.instrs:
                for o in operands(ins):
                    if o not in d:
                        u.add(o)
                if ins.dst:
                    d.add(ins.dst)
            use[b.name] = u; dfn[b.name] = d
        live = {b.name: set() for b in f.order}
        changed = True
        while changed:
            changed = False
            for b in reversed(f.order):
                out = set()
                for s in b.succs:
                    sb = f.blocks[s]
                    out |= live[s]
                    for ph in sb.phis:
                        v = ph.a[0].get(b.name)
                        out |= set(locs(v))
                new = use[b.name] | (out - dfn[b.name])
                if new != live[b.name]:
                    live[b.name] = new
                    changed = True
        for b in f.order:
            b.livein = live[b.name] | {ph.dst for ph in b.phis}


def locs(v):
    if v is None:
        return
    if v[0] == 'l':
        yield v[1]
    elif v[0] == 'agg':
        for _, e in v[1]:
            yield from locs(e)

def operands(ins):
    op = ins.op
    a = ins.a
    vs = []
    if op == 'alloca':
        vs = [a[0]]
    elif op in ('load', 'va_arg'):
        vs = [a[0]]
    elif op == 'store':
        vs = [a[0], a[1]]
    elif op == 'getelementptr':
        vs = [v for _, v in a]
    elif op == 'call':
        vs = [a[0]] + [v for _, v in a[1]]
    elif op == 'br':
        vs = [a[0]] if a[0] else []
    elif op == 'switch':
        vs = [a[0]]
    elif op == 'ret':
        vs = [a[0]] if a[0] else []
    elif op == 'icmp':
        vs = [a[1], a[2]]
    elif op == 'select':
        vs = list(a)
    elif op in BIN:
        vs = list(a)
    elif op in CAST:
        vs = [a[1]]
    elif op == 'extractvalue':
        vs = [a[0]]
    elif op == 'insertvalue':
        vs = [a[0], a[1]]
    for v in vs:
        yield from locs(v)
