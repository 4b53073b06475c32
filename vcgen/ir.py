"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits
for the contract files, i.e. for the real delfem2 code they include."""
import re, struct
from fractions import Fraction

# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'a', 'n', 'name', '_sz', '_al', '_offs')
    def __init__(s, k, a=None, n=0, name=None):
        s.k = k; s.a = a; s.n = n; s.name = name; s._sz = None; s._al = None; s._offs = None
    def __repr__(s):
        return f"T({s.k},{s.n},{s.name})"

VOID = T('void'); PTR = T('ptr'); FLOAT = T('fp', n=32); DOUBLE = T('fp', n=64); LABEL = T('label')
X86FP80 = T('fp', n=80); META = T('metadata'); TOKEN = T('token'); HALF = T('fp', n=16)
_ints = {}
def INT(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = T('int', n=n)
    return t

_tok = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")|
  (?P<lv>%(?:"[^"]*"|[-\w.$]+))|
  (?P<gv>@(?:"[^"]*"|[-\w.$]+))|
  (?P<md>!(?:[-\w.$]+)?)|
  (?P<attr>\#\d+)|
  (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
  (?P<num>-?\d+(?:\.\d*(?:[eE][-+]?\d+)?)?)|
  (?P<id>[A-Za-z_][-\w.$]*)|
  (?P<comdat>\$[-\w.$]+)|
  (?P<ell>\.\.\.)|
  (?P<p>[][(){}<>,=*:|^])
)''', re.X)

def lex(s):
    out = []
    pos = 0
    n = len(s)
    m = _tok.match
    while pos < n:
        k = m(s, pos)
        if k is None:
            r = s[pos:].strip()
            if not r or r.startswith(';'):
                break
            raise SyntaxError('lex: ' + s[pos:pos + 80])
        out.append(k.group(k.lastgroup))
        pos = k.end()
    return out

class Module:
    def __init__(self, text):
        self.types = {}
        self.typetxt = {}
        self.globals_txt = {}
        self.functxt = {}      # name -> (header, [lines])
        self.decls = {}
        self.aliases = {}
        self._fcache = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                name = self._fname(l)
                self.functxt[name] = (l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                self.decls[self._fname(l)] = l
            elif l.startswith('%'):
                k = l.index(' = type ')
                self.typetxt[l[:k]] = l[k + 8:]
            elif l.startswith('@'):
                k = l.index(' = ')
                nm = l[:k]
                if re.search(r'\balias\b', l[k:k + 80]):
                    m = re.findall(r'ptr (@(?:"[^"]*"|[-\w.$]+))', l)
                    if m:
                        self.aliases[nm] = m[-1]
                else:
                    self.globals_txt[nm] = l[k + 3:]
            i += 1

    @staticmethod
    def _fname(l):
        m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', l)
        return m.group(1)

    # ---------------------------------------------------------- type parsing
    def ptype(self, tk, i):
        """returns (type, next index)"""
        t = tk[i]
        if t == 'void': r = VOID
        elif t == 'ptr':
            r = PTR
            if i + 1 < len(tk) and tk[i + 1] == 'addrspace':
                i += 4
        elif t == 'double': r = DOUBLE
        elif t == 'float': r = FLOAT
        elif t == 'half': r = HALF
        elif t == 'x86_fp80': r = X86FP80
        elif t == 'label': r = LABEL
        elif t == 'metadata': r = META
        elif t == 'token': r = TOKEN
        elif t[0] == 'i' and t[1:].isdigit(): r = INT(int(t[1:]))
        elif t == '[':
            n = int(tk[i + 1])
            e, j = self.ptype(tk, i + 3)
            assert tk[j] == ']'
            r = T('arr', e, n); i = j
        elif t == '<':
            if tk[i + 1] == '{':
                r, j = self._pstruct(tk, i + 1, True)
                assert tk[j] == '>'
                i = j
            else:
                n = int(tk[i + 1])
                e, j = self.ptype(tk, i + 3)
                assert tk[j] == '>'
                r = T('vec', e, n); i = j
        elif t == '{':
            r, j = self._pstruct(tk, i, False)
            i = j - 1
        elif t[0] == '%':
            r = self.named(t)
        else:
            raise SyntaxError('type ' + ' '.join(tk[i:i + 6]))
        i += 1
        # function type  T (args)
        return r, i

    def _pstruct(self, tk, i, packed):
        assert tk[i] == '{'
        i += 1
        el = []
        if tk[i] == '}':
            return T('struct', el, 1 if packed else 0), i + 1
        while True:
            e, i = self.ptype(tk, i)
            el.append(e)
            if tk[i] == '}':
                return T('struct', el, 1 if packed else 0), i + 1
            assert tk[i] == ',', tk[i]
            i += 1

    def named(self, nm):
        t = self.types.get(nm)
        if t is not None:
            return t
        txt = self.typetxt[nm].strip()
        if txt == 'opaque':
            t = T('struct', [], 0, nm)
            self.types[nm] = t
            return t
        t = T('struct', None, 0, nm)
        self.types[nm] = t
        tk = lex(txt)
        r, _ = self.ptype(tk, 0)
        t.a = r.a; t.n = r.n
        return t

    # ---------------------------------------------------------- layout
    def align(self, t):
        if t._al is None:
            if t.k == 'int':
                b = (t.n + 7) // 8
                a = 1
                while a < b: a *= 2
                t._al = min(a, 16)
            elif t.k == 'fp': t._al = {16: 2, 32: 4, 64: 8, 80: 16}[t.n]
            elif t.k == 'ptr': t._al = 8
            elif t.k == 'arr': t._al = self.align(t.a)
            elif t.k == 'vec':
                t._al = min(16, max(1, self.size(t)))
            elif t.k == 'struct':
                t._al = 1 if t.n else max([1] + [self.align(e) for e in t.a])
            else: t._al = 1
        return t._al

    def size(self, t):
        """alloc size"""
        if t._sz is None:
            if t.k == 'int':
                b = (t.n + 7) // 8
                a = self.align(t)
                t._sz = (b + a - 1) // a * a
            elif t.k == 'fp': t._sz = {16: 2, 32: 4, 64: 8, 80: 16}[t.n]
            elif t.k == 'ptr': t._sz = 8
            elif t.k == 'arr': t._sz = t.n * self.size(t.a)
            elif t.k == 'vec': t._sz = t.n * self.size(t.a)
            elif t.k == 'struct':
                self.offs(t)
            else: t._sz = 0
        return t._sz

    def offs(self, t):
        if t._offs is None:
            o = 0; r = []
            for e in t.a:
                if not t.n:
                    al = self.align(e)
                    o = (o + al - 1) // al * al
                r.append(o)
                o += self.size(e)
            if not t.n:
                al = self.align(t)
                o = (o + al - 1) // al * al
            t._offs = r
            t._sz = o
        return t._offs

    # ---------------------------------------------------------- values
    # operand encoding: ('r', regname) | ('c', value) | ('g', name) | ('zero',) | ('undef',)
    # | ('agg',[ (type,operand) ]) | ('gep', basety, ptr, idx) | ('cast',op,ty,operand,ty2)
    def pval(self, ty, tk, i):
        t = tk[i]
        c = t[0]
        if c == '%':
            return ('r', t), i + 1
        if c == '@':
            return ('g', t), i + 1
        if ty.k == 'int':
            if t == 'true': return ('c', 1), i + 1
            if t == 'false': return ('c', 0), i + 1
            if c == '-' or c.isdigit():
                return ('c', int(t) & ((1 << ty.n) - 1)), i + 1
        if ty.k == 'fp':
            if t.startswith('0x'):
                if t[2] == 'K':
                    v = int(t[3:], 16)
                    sign = -1 if v >> 79 else 1
                    ex = (v >> 64) & 0x7fff
                    man = v & ((1 << 64) - 1)
                    if ex == 0x7fff:
                        return ('f', float('inf') * sign), i + 1
                    return ('f', Fraction(sign * man) * Fraction(2) ** (ex - 16383 - 63)), i + 1
                v = struct.unpack('>d', int(t[2:], 16).to_bytes(8, 'big'))[0]
                return ('f', v), i + 1
            if c == '-' or c.isdigit():
                return ('f', float(t)), i + 1
        if t in ('undef', 'poison'): return ('undef',), i + 1
        if t == 'zeroinitializer' or t == 'null': return ('zero',), i + 1
        if t == 'none': return ('undef',), i + 1
        if t.startswith('c"'):
            return ('str', self._cstr(t)), i + 1
        if c in '[{<':
            if c == '<' and tk[i + 1] == '{':
                i += 1
                close = '}'
            else:
                close = {'[': ']', '{': '}', '<': '>'}[c]
            i += 1
            el = []
            if tk[i] != close:
                while True:
                    et, i = self.ptype(tk, i)
                    v, i = self.pval(et, tk, i)
                    el.append((et, v))
                    if tk[i] == close: break
                    i += 1
            i += 1
            if c == '<' and close == '}':
                i += 1
            return ('agg', el), i
        if t == 'getelementptr':
            i += 1
            while tk[i] in ('inbounds', 'nuw', 'nusw'): i += 1
            if tk[i] == 'inrange': i += 1
            assert tk[i] == '('
            bt, i = self.ptype(tk, i + 1)
            assert tk[i] == ','
            i += 1
            args = []
            while True:
                if tk[i] == 'inrange': i += 1
                at, i = self.ptype(tk, i)
                v, i = self.pval(at, tk, i)
                args.append((at, v))
                if tk[i] == ')': break
                i += 1
            return ('gep', bt, args), i + 1
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            assert tk[i + 1] == '('
            st, i = self.ptype(tk, i + 2)
            v, i = self.pval(st, tk, i)
            assert tk[i] == 'to'
            dt, i = self.ptype(tk, i + 1)
            assert tk[i] == ')'
            return ('cast', t, st, v, dt), i + 1
        if t in ('sub', 'add', 'mul', 'icmp'):
            raise SyntaxError('constexpr ' + t)
        raise SyntaxError('value %s: %s' % (ty, ' '.join(tk[i:i + 8])))

    @staticmethod
    def _cstr(t):
        s = t[2:-1]
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                out.append(int(s[i + 1:i + 3], 16)); i += 3
            else:
                out.append(ord(s[i])); i += 1
        return bytes(out)

    def global_init(self, nm):
        """-> (type, operand or None)"""
        txt = self.globals_txt[nm]
        tk = lex(txt)
        i = 0
        ext = False
        while tk[i] not in ('global', 'constant'):
            if tk[i] in ('external', 'extern_weak'): ext = True
            i += 1
        ty, i = self.ptype(tk, i + 1)
        if ext:
            return ty, None
        v, i = self.pval(ty, tk, i)
        return ty, v

    # ---------------------------------------------------------- functions
    def func(self, name):
        f = self._fcache.get(name)
        if f is None:
            if name not in self.functxt:
                return None
            f = self._fcache[name] = self._pfunc(name)
        return f

    def _skip_attrs(self, tk, i):
        # parameter / return attributes
        while True:
            t = tk[i]
            if t in ('noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'returned',
                     'writeonly', 'readnone', 'immarg', 'inreg', 'nofree', 'nest', 'allocptr', 'dead_on_unwind', 'writable',
                     'internal', 'linkonce_odr', 'weak_odr', 'dso_local', 'hidden', 'available_externally', 'weak', 'linkonce',
                     'private', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc', 'swiftself', 'nnan', 'ninf',
                     'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'tail', 'musttail', 'notail', 'default', 'protected'):
                i += 1
            elif t in ('align',):
                i += 2
                if tk[i - 1] == '(':
                    i += 2
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'inalloca', 'byref', 'preallocated',
                       'elementtype', 'nofpclass', 'allockind', 'allocsize', 'range', 'memory'):
                i += 1
                if tk[i] == '(':
                    d = 0
                    while True:
                        if tk[i] == '(': d += 1
                        if tk[i] == ')': d -= 1
                        i += 1
                        if d == 0: break
            else:
                return i

    def _pfunc(self, name):
        hdr, lines = self.functxt[name]
        tk = lex(hdr)
        i = self._skip_attrs(tk, 1)
        rt, i = self.ptype(tk, i)
        while tk[i] != name: i += 1
        i += 2
        params = []
        pn = 0
        while tk[i] != ')':
            if tk[i] == '...':
                i += 1
                continue
            pt, i = self.ptype(tk, i)
            byval = None
            j = i
            i = self._skip_attrs(tk, i)
            att = tk[j:i]
            if 'byval' in att:
                byval, _ = self.ptype(tk, j + att.index('byval') + 2)
            if tk[i][0] == '%':
                params.append((tk[i], pt, byval)); i += 1
            else:
                params.append(('%' + str(pn), pt, byval))
            pn += 1
            if tk[i] == ',': i += 1
        F = Func(name, rt, params)
        cur = None
        # join multi-line switch / invoke
        buf = []
        k = 0
        nl = len(lines)
        while k < nl:
            l = lines[k]
            k += 1
            s = l.strip()
            if not s or s[0] == ';':
                continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                cur = '%' + m.group(1)
                F.blocks[cur] = []
                if F.entry is None: F.entry = cur
                continue
            if s.startswith('switch ') and not s.endswith(']'):
                while not s.endswith(']'):
                    s += ' ' + lines[k].strip(); k += 1
            if ' invoke ' in s or s.startswith('invoke '):
                if ' unwind label ' not in s:
                    s += ' ' + lines[k].strip(); k += 1
            if 'landingpad' in s:
                while k < nl and re.match(r'\s+(catch|cleanup|filter)', lines[k]):
                    k += 1
            if cur is None:
                cur = '%entry0'
                F.blocks[cur] = []
                F.entry = cur
            F.blocks[cur].append(s)
        if F.entry == '%entry0' or True:
            # implicit entry label number = number of params
            if F.entry == '%entry0':
                F.blocks['%' + str(len(params))] = F.blocks.pop('%entry0')
                F.entry = '%' + str(len(params))
        F.M = self
        return F

class Func:
    def __init__(s, name, rt, params):
        s.name = name; s.rt = rt; s.params = params; s.blocks = {}; s.entry = None; s.pblocks = {}
    def block(s, b):
        r = s.pblocks.get(b)
        if r is None:
            r = s.pblocks[b] = [pinst(s.M, l) for l in s.blocks[b]]
        return r

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr',
        'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'inbounds', 'volatile', 'nneg',
         'disjoint', 'nusw'}

def pinst(M, l):
    tk = lex(l)
    i = 0
    dst = None
    if len(tk) > 1 and tk[1] == '=':
        dst = tk[0]
        i = 2
    op = tk[i]
    if op in ('tail', 'musttail', 'notail'):
        i += 1
        op = tk[i]
    i += 1
    if op in BIN or op in FBIN:
        while tk[i] in FLAGS: i += 1
        ty, i = M.ptype(tk, i)
        a, i = M.pval(ty, tk, i)
        b, i = M.pval(ty, tk, i + 1)
        return (op, dst, ty, a, b)
    if op in ('load',):
        while tk[i] in ('volatile', 'atomic'): i += 1
        ty, i = M.ptype(tk, i)
        pt, i = M.ptype(tk, i + 1)
        p, i = M.pval(pt, tk, i)
        return ('load', dst, ty, p)
    if op == 'store':
        while tk[i] in ('volatile', 'atomic'): i += 1
        ty, i = M.ptype(tk, i)
        v, i = M.pval(ty, tk, i)
        pt, i = M.ptype(tk, i + 1)
        p, i = M.pval(pt, tk, i)
        return ('store', None, ty, v, p)
    if op == 'getelementptr':
        while tk[i] in FLAGS: i += 1
        bt, i = M.ptype(tk, i)
        args = []
        while i < len(tk) and tk[i] == ',':
            if tk[i + 1][0] == '!': break
            at, i = M.ptype(tk, i + 1)
            v, i = M.pval(at, tk, i)
            args.append((at, v))
        return ('gep', dst, bt, args)
    if op in ('icmp', 'fcmp'):
        while tk[i] in FLAGS: i += 1
        pr = tk[i]
        ty, i = M.ptype(tk, i + 1)
        a, i = M.pval(ty, tk, i)
        b, i = M.pval(ty, tk, i + 1)
        return (op, dst, ty, pr, a, b)
    if op == 'br':
        if tk[i] == 'label':
            return ('jmp', None, tk[i + 1])
        ty, i = M.ptype(tk, i)
        c, i = M.pval(ty, tk, i)
        return ('br', None, c, tk[i + 2], tk[i + 5])
    if op == 'ret':
        if tk[i] == 'void':
            return ('ret', None, None, None)
        ty, i = M.ptype(tk, i)
        v, i = M.pval(ty, tk, i)
        return ('ret', None, ty, v)
    if op == 'alloca':
        ty, i = M.ptype(tk, i)
        cnt = None
        if i < len(tk) and tk[i] == ',' and tk[i + 1] != 'align' and tk[i + 1][0] != '!':
            ct, i = M.ptype(tk, i + 1)
            cnt, i = M.pval(ct, tk, i)
        return ('alloca', dst, ty, cnt)
    if op in CAST:
        while tk[i] in FLAGS: i += 1
        st, i = M.ptype(tk, i)
        v, i = M.pval(st, tk, i)
        dt, i = M.ptype(tk, i + 1)
        return (op, dst, st, v, dt)
    if op == 'phi':
        while tk[i] in FLAGS: i += 1
        ty, i = M.ptype(tk, i)
        inc = {}
        while True:
            v, i = M.pval(ty, tk, i + 1)
            inc[tk[i + 1]] = v
            i += 3
            if i >= len(tk) or tk[i] != ',' or tk[i + 1][0] == '!': break
            i += 1
        return ('phi', dst, ty, inc)
    if op == 'select':
        while tk[i] in FLAGS: i += 1
        ct, i = M.ptype(tk, i)
        c, i = M.pval(ct, tk, i)
        ty, i = M.ptype(tk, i + 1)
        a, i = M.pval(ty, tk, i)
        _, i = M.ptype(tk, i + 1)
        b, i = M.pval(ty, tk, i)
        return ('select', dst, ty, c, a, b)
    if op == 'fneg':
        while tk[i] in FLAGS: i += 1
        ty, i = M.ptype(tk, i)
        a, i = M.pval(ty, tk, i)
        return ('fneg', dst, ty, a)
    if op in ('call', 'invoke'):
        while tk[i] in FLAGS or tk[i] in ('fastcc', 'ccc', 'coldcc'): i += 1
        i = M._skip_attrs(tk, i)
        rt, i = M.ptype(tk, i)
        if tk[i] == '(':   # function type (varargs)
            d = 0
            while True:
                if tk[i] == '(': d += 1
                if tk[i] == ')': d -= 1
                i += 1
                if d == 0: break
        if tk[i] == 'asm':
            return ('unsupported', dst, 'inline asm')
        callee, i = M.pval(PTR, tk, i)
        assert tk[i] == '(', tk[i:i + 3]
        i += 1
        args = []
        while tk[i] != ')':
            at, i = M.ptype(tk, i)
            if at is META:
                d = 0
                while not (d == 0 and tk[i] in (',', ')')):
                    if tk[i] == '(': d += 1
                    if tk[i] == ')': d -= 1
                    i += 1
                args.append((at, ('undef',), None))
                if tk[i] == ',': i += 1
                continue
            byval = None
            j = i
            i = M._skip_attrs(tk, i)
            att = tk[j:i]
            if 'byval' in att:
                byval, _ = M.ptype(tk, j + att.index('byval') + 2)
            v, i = M.pval(at, tk, i)
            args.append((at, v, byval))
            if tk[i] == ',': i += 1
        i += 1
        nrm = None
        if op == 'invoke':
            while tk[i] != 'to': i += 1
            nrm = tk[i + 2]
        return ('call', dst, rt, callee, args, nrm)
    if op == 'switch':
        ty, i = M.ptype(tk, i)
        v, i = M.pval(ty, tk, i)
        dflt = tk[i + 2]
        i += 4
        cases = []
        while tk[i] != ']':
            ct, i = M.ptype(tk, i)
            cv, i = M.pval(ct, tk, i)
            cases.append((cv[1], tk[i + 2]))
            i += 3
        return ('switch', None, ty, v, dflt, cases)
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'extractvalue':
        ty, i = M.ptype(tk, i)
        v, i = M.pval(ty, tk, i)
        idx = []
        while i < len(tk) and tk[i] == ',':
            idx.append(int(tk[i + 1])); i += 2
        return ('extractvalue', dst, ty, v, idx)
    if op == 'insertvalue':
        ty, i = M.ptype(tk, i)
        v, i = M.pval(ty, tk, i)
        et, i = M.ptype(tk, i + 1)
        e, i = M.pval(et, tk, i)
        idx = []
        while i < len(tk) and tk[i] == ',':
            idx.append(int(tk[i + 1])); i += 2
        return ('insertvalue', dst, ty, v, e, idx)
    if op == 'extractelement':
        ty, i = M.ptype(tk, i)
        v, i = M.pval(ty, tk, i)
        it, i = M.ptype(tk, i + 1)
        x, i = M.pval(it, tk, i)
        return ('extractelement', dst, ty, v, x)
    if op == 'insertelement':
        ty, i = M.ptype(tk, i)
        v, i = M.pval(ty, tk, i)
        et, i = M.ptype(tk, i + 1)
        e, i = M.pval(et, tk, i)
        it, i = M.ptype(tk, i + 1)
        x, i = M.pval(it, tk, i)
        return ('insertelement', dst, ty, v, e, x)
    if op == 'freeze':
        ty, i = M.ptype(tk, i)
        v, i = M.pval(ty, tk, i)
        return ('freeze', dst, ty, v)
    if op in ('landingpad', 'resume', 'fence', 'atomicrmw', 'cmpxchg', 'shufflevector', 'va_arg'):
        return ('unsupported', dst, op + ': ' + l[:100])
    raise SyntaxError('inst ' + l)
