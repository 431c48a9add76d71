"""Parser for the subset of LLVM IR text that rustc emits for this crate without optimisation.
Nothing is dropped except debug metadata (kept only as source line numbers) and attributes."""
import re, subprocess

class Unsupported(Exception):
    pass

_int_ty = re.compile(r'i(\d+)$')

class Func:
    __slots__ = ('name','params','ret','blocks','entry','demangled','noreturn','heads')
    def __init__(self, name): self.name = name; self.heads = None
    def loop_heads(self):
        """targets of the back edges of a depth-first search"""
        if self.heads is None:
            self.heads = set(); state = {}
            def succ(b):
                i = self.blocks[b][-1]
                if i[0] == 'br': return [i[3]]
                if i[0] == 'cbr': return [i[4], i[5]]
                if i[0] == 'switch': return [i[5]] + [l for _, l in i[6]]
                return [i[6]] if i[0] == 'call' and i[6] else []
            todo = [(self.entry, iter(succ(self.entry)))]; state[self.entry] = 1
            while todo:
                b, it = todo[-1]
                n = next(it, None)
                if n is None: state[b] = 2; todo.pop(); continue
                if state.get(n) == 1: self.heads.add(n)
                elif n not in state: state[n] = 1; todo.append((n, iter(succ(n))))
        return self.heads

def split_top(s, sep=','):
    out, depth, cur, q = [], 0, [], False
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in '([{<': depth += 1
            elif ch in ')]}>': depth -= 1
            elif ch == sep and depth == 0:
                out.append(''.join(cur).strip()); cur = []; continue
        cur.append(ch)
    t = ''.join(cur).strip()
    if t: out.append(t)
    return out

def type_size(t):
    t = t.strip()
    m = _int_ty.match(t)
    if m: return (int(m.group(1)) + 7)//8
    if t == 'ptr': return 8
    if t.startswith('['):
        m = re.match(r'\[(\d+) x (.*)\]$', t)
        return int(m.group(1))*type_size(m.group(2))
    if t.startswith('{') or t.startswith('<{'):
        off, mx = 0, 1
        packed = t.startswith('<{')
        inner = t.strip('<>')[1:-1]
        for e in split_top(inner):
            a = 1 if packed else type_align(e)
            off = (off + a - 1)//a*a + type_size(e); mx = max(mx, a)
        return (off + mx - 1)//mx*mx
    raise Unsupported('type ' + t)

def type_align(t):
    t = t.strip()
    m = _int_ty.match(t)
    if m: return min(8, max(1, (int(m.group(1))+7)//8)) if int(m.group(1)) != 128 else 16
    if t == 'ptr': return 8
    if t.startswith('['):
        return type_align(re.match(r'\[(\d+) x (.*)\]$', t).group(2))
    if t.startswith('<{'): return 1
    if t.startswith('{'): return max([type_align(e) for e in split_top(t[1:-1])] or [1])
    raise Unsupported('align ' + t)

def struct_offsets(t):
    packed = t.startswith('<{'); inner = t.strip('<>')[1:-1]
    offs, off = [], 0
    for e in split_top(inner):
        a = 1 if packed else type_align(e)
        off = (off + a - 1)//a*a
        offs.append((off, e)); off += type_size(e)
    return offs

_cstr = re.compile(r'\\([0-9A-Fa-f]{2})')
def cbytes(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(0x5c); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out += s[i].encode('latin1') if ord(s[i]) < 256 else s[i].encode(); i += 1
    return bytes(out)

class Module:
    """A set of textual modules, indexed; functions are parsed on demand."""
    def __init__(self, paths):
        self.text = {}     # symbol -> (file lines, start)
        self.demangled = {}
        self.glob = {}     # name -> raw text
        self.named = {}
        self.dbg = {}      # file -> {id: line}
        self.cache = {}; self.only_loaded = {}
        self.decl_noreturn = set()
        self.nlines = 0
        for p in paths: self._index(p)
        for _ in range(20):
            ch = False
            for k, v in self.named.items():
                n = self._named(v)
                if n != v: self.named[k] = n; ch = True
            if not ch: break
        self._g = {}

    _nm = re.compile(r'%"[^"]*"|%[A-Za-z_][\w.:$]*')
    def _named(self, t):
        if '%' not in t: return t
        return self._nm.sub(lambda m: self.named.get(m.group(0), m.group(0)), t)

    def _index(self, path):
        text = open(path, encoding='utf-8', errors='surrogateescape').read()
        # private and internal constants are per file; names made of a content hash can be shared
        local = [n for n in re.findall(r'^@([\w.$]+) = (?:private|internal) ', text, re.M) if not re.match(r'alloc_[0-9a-f]{32}$|_R|_ZN', n)]
        if local:
            k = len(self.dbg); text = re.sub(r'@(%s)(?![\w.$])' % '|'.join(sorted(map(re.escape, local), key=len, reverse=True)), lambda m: '@%s.file%d' % (m.group(1), k), text)
        lines = text.split('\n')
        dbg = {}
        prev = prev2 = ''
        attrs = {}
        pend = []
        for i, l in enumerate(lines):
            if l.startswith('define '):
                m = re.search(r'@("[^"]*"|[^\s(]+)\(', l)
                nm = m.group(1).strip('"')
                d = None
                for back in (1, 2, 3):
                    if i - back >= 0 and lines[i-back].startswith('; ') and not lines[i-back].startswith('; Function Attrs'):
                        d = lines[i-back][2:].strip()
                if nm not in self.text:
                    self.text[nm] = (path, lines, i)
                    self.demangled[nm] = d or nm
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[^\s(]+)\(', l)
                pend.append((m.group(1).strip('"'), l))
                if i and lines[i-1].startswith('; Function Attrs') and 'noreturn' in lines[i-1]:
                    self.decl_noreturn.add(m.group(1).strip('"'))
                for back in (1, 2, 3):
                    if i-back >= 0 and lines[i-back].startswith('; ') and not lines[i-back].startswith('; Function Attrs'):
                        self.demangled.setdefault(m.group(1).strip('"'), lines[i-back][2:].strip())
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[^\s=]+) = (.*)$', l)
                nm = m.group(1).strip('"')
                if nm not in self.glob or self.glob[nm].startswith('external'): self.glob[nm] = m.group(2)
            elif l.startswith('%'):
                m = re.match(r'(%"[^"]*"|%[^\s=]+) = type (.*)$', l)
                if m: self.named[m.group(1)] = m.group(2)
            elif l.startswith('!') and '!DILocation' in l:
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
                if m: dbg[m.group(1)] = int(m.group(2))
            elif l.startswith('attributes #'):
                m = re.match(r'attributes #(\d+) = \{(.*)\}', l)
                attrs[m.group(1)] = m.group(2)
        for nm, l in pend:
            m = re.search(r'\) .*#(\d+)|\)\s*#(\d+)', l)
            for a in re.findall(r'#(\d+)', l):
                if 'noreturn' in attrs.get(a, ''): self.decl_noreturn.add(nm)
        self.dbg[path] = dbg
        self.nlines += len(lines)

    def has(self, nm): return nm in self.text

    def func(self, nm):
        if nm in self.cache: return self.cache[nm]
        if nm not in self.text: raise Unsupported('no body for function ' + self.demangled.get(nm, nm))
        path, lines, i = self.text[nm]
        f = Func(nm); f.demangled = self.demangled.get(nm, nm)
        head = lines[i]
        m = re.match(r'define (.*?)@("[^"]*"|[^\s(]+)\(', head)
        f.ret = self._clean_ty(m.group(1))
        depth, j = 1, m.end()
        while depth:
            c = head[j]
            depth += c == '('; depth -= c == ')'; j += 1
        f.params = []
        for a in split_top(head[m.end():j-1]):
            if a == '...': raise Unsupported('varargs')
            f.params.append((a.split()[-1], self._clean_ty(a.rsplit(None, 1)[0]), 'sret' in a))
        f.noreturn = False
        dbg = self.dbg[path]
        blocks = {}; cur = None; i += 1
        buf = ''
        while lines[i] != '}':
            l = lines[i].strip(); i += 1
            if not l or l.startswith(';'): continue
            m = re.match(r'("[^"]*"|[-\w$.]+):(\s|$)', l)
            if m and not l.startswith('%'):
                cur = []; blocks['%' + m.group(1)] = cur
                if len(blocks) == 1: f.entry = '%' + m.group(1)
                continue
            if cur is None:
                cur = []; blocks['%0'] = cur; f.entry = '%0'
            if l.startswith('#dbg_'): continue
            # multi-line switch / landingpad
            if l.startswith('switch ') and not l.endswith(']'):
                while ']' not in l: l += ' ' + lines[i].strip(); i += 1
            elif re.search(r'= landingpad ', l) or l.startswith('cleanup') or l.startswith('filter') or l.startswith('catch '):
                while lines[i].strip().split(' ')[0] in ('cleanup','filter','catch'): i += 1
                cur.append(('landingpad', None, 0, l)); continue
            elif re.search(r'(= |^)(tail )?invoke ', l) and ' to label ' not in l:
                l += ' ' + lines[i].strip(); i += 1
            line = 0
            md = re.search(r', !dbg !(\d+)', l)
            if md: line = dbg.get(md.group(1), 0)
            l = re.sub(r'(, ![A-Za-z_.]+ !\w*(\{[^}]*\})?)+\s*$', '', l)
            l = re.sub(r', !\w+ ![\d]+', '', l)
            cur.append(self._instr(l, line))
        f.blocks = blocks
        self.cache[nm] = f
        return f

    _attr = re.compile(r'\b(private|internal|hidden|dso_local|linkonce_odr|weak_odr|available_externally|unnamed_addr|local_unnamed_addr|noundef|zeroext|signext|nonnull|noalias|nofree|nocapture|captures\([^)]*\)|readonly|readnone|writeonly|writable|dead_on_unwind|dead_on_return|inreg|returned|allocptr|immarg|fastcc|coldcc|tailcc|preserve_\w+|range\([^)]*\)|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|sret\([^)]*(?:\([^)]*\))?[^)]*\)|byval\([^)]*\)|initializes\(\(.*?\)\)|nest|swiftself|memory\([^)]*\))\s*')
    def _clean_ty(self, t):
        t = self._attr.sub('', t).strip()
        return self._named(t)

    def _val(self, ty, v):
        """operand -> ('v', name) | ('c', int) | ('g', symbol, off) | ('null',) | ('undef',) | ('agg', ...)"""
        v = v.strip()
        if v[0] == '%': return ('v', v)
        if v[0] == '@': return ('g', v[1:].strip('"'), 0)
        if v == 'true': return ('c', 1)
        if v == 'false': return ('c', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero', ty)
        if re.match(r'-?\d+$', v): return ('c', int(v))
        m = re.match(r'getelementptr (?:inbounds |nuw |nusw )*\((.*)\)$', v)
        if m:
            parts = split_top(m.group(1))
            ety = self._clean_ty(parts[0]); base = self._val('ptr', parts[1].split(None, 1)[1])
            off = 0
            idx = [int(p.split()[-1]) for p in parts[2:]]
            off = self.gep_const(ety, idx)
            return ('g', base[1], base[2] + off)
        m = re.match(r'inttoptr \(i64 (\d+) to ptr\)$', v)
        if m: return ('intptr', int(m.group(1)))
        m = re.match(r'ptrtoint \(ptr (.*) to i64\)$', v)
        if m: return self._val('ptr', m.group(1))
        if v[0] in '{[': return ('agg', [self._tv(e) for e in split_top(v[1:-1])])
        raise Unsupported('operand ' + v)

    def gep_const(self, ety, idx):
        off = idx[0]*type_size(ety)
        t = ety
        for k in idx[1:]:
            t = self.named.get(t, t)
            if t.startswith('['):
                t = re.match(r'\[\d+ x (.*)\]$', t).group(1); off += k*type_size(t)
            else:
                o, t = struct_offsets(t)[k]; off += o
        return off

    def _tv(self, s):
        """'i64 noundef %x' -> (type, operand)"""
        s = self._attr.sub('', s).strip()
        if s.startswith('%"') :
            m = re.match(r'(%"[^"]*")\s+(.*)$', s); return self.named[m.group(1)], self._val('', m.group(2))
        if s[0] in '[{<':
            depth = 0
            for i, c in enumerate(s):
                depth += c in '[{<('; depth -= c in ']}>)'
                if depth == 0: break
            return s[:i+1], self._val(s[:i+1], s[i+1:])
        t, v = s.split(None, 1)
        return t, self._val(t, v)

    def _instr(self, l, line):
        m = re.match(r'(%"[^"]*"|%[-\w$.]+) = (.*)$', l)
        dst = None
        if m: dst, l2 = m.group(1), m.group(2)
        else: l2 = l
        op = l2.split(' ', 1)[0]
        rest = l2[len(op):].strip()
        if op in ('add','sub','mul','and','or','xor','shl','lshr','ashr','udiv','sdiv','urem','srem'):
            flags = []
            while True:
                w = rest.split(' ', 1)[0]
                if w in ('nuw','nsw','exact','disjoint'): flags.append(w); rest = rest.split(' ', 1)[1]
                else: break
            ty, ab = rest.split(' ', 1)
            a, b = split_top(ab)
            return ('bin', dst, line, op, ty, self._val(ty, a), self._val(ty, b), tuple(flags))
        if op == 'icmp':
            parts = rest.split(' ')
            if parts[0] == 'samesign': parts = parts[1:]
            pred = parts[0]; ty = parts[1]; a, b = split_top(' '.join(parts[2:]))
            return ('icmp', dst, line, pred, ty, self._val(ty, a), self._val(ty, b))
        if op in ('zext','sext','trunc','ptrtoint','inttoptr','bitcast','freeze'):
            rest = re.sub(r'^((nneg|nuw|nsw)\s+)*', '', rest)
            if op == 'freeze':
                t, v = self._tv(rest); return ('cast', dst, line, op, t, v, t)
            m = re.match(r'(.*) to (\S+)$', rest)
            t, v = self._tv(m.group(1))
            return ('cast', dst, line, op, t, v, m.group(2))
        if op == 'getelementptr':
            rest = re.sub(r'^((inbounds|nuw|nusw)\s+)*', '', rest)
            parts = split_top(rest)
            ety = self._clean_ty(parts[0])
            base = self._tv(parts[1])[1]
            return ('gep', dst, line, ety, base, [self._tv(p) for p in parts[2:]])
        if op == 'load':
            rest = re.sub(r'^(atomic\s+|volatile\s+)*', '', rest)
            parts = [re.sub(r'\s+(syncscope\("[^"]*"\)\s+)?(unordered|monotonic|acquire|seq_cst)$', '', x) for x in split_top(rest)]
            return ('load', dst, line, self._clean_ty(parts[0]), self._tv(parts[1])[1])
        if op == 'store':
            rest = re.sub(r'^(atomic\s+|volatile\s+)*', '', rest)
            parts = [re.sub(r'\s+(syncscope\("[^"]*"\)\s+)?(unordered|monotonic|release|seq_cst)$', '', x) for x in split_top(rest)]
            t, v = self._tv(parts[0])
            return ('store', None, line, t, v, self._tv(parts[1])[1])
        if op == 'alloca':
            parts = split_top(rest)
            t = self._clean_ty(parts[0])
            return ('alloca', dst, line, type_size(t), rest.rstrip().endswith('align 1') and t[0] == '[')
        if op == 'br':
            if rest.startswith('label '): return ('br', None, line, rest[6:])
            parts = split_top(rest)
            return ('cbr', None, line, self._tv(parts[0])[1], parts[1][6:], parts[2][6:])
        if op == 'switch':
            m = re.match(r'(\S+) (\S+), label (\S+) \[(.*)\]', rest)
            cases = re.findall(r'i\d+ (-?\d+), label (%\S+)', m.group(4))
            return ('switch', None, line, m.group(1), self._val(m.group(1), m.group(2).rstrip(',')), m.group(3), [(int(a), b) for a, b in cases])
        if op == 'phi':
            m = re.match(r'(.*?) (\[ .*\])$', rest)
            ty = self._clean_ty(m.group(1))
            prs = re.findall(r'\[ (.*?), (%"[^"]*"|%[-\w$.]+) \]', m.group(2))
            return ('phi', dst, line, ty, {b: self._val(ty, v) for v, b in prs})
        if op == 'select':
            parts = split_top(rest)
            return ('select', dst, line, self._tv(parts[0])[1], self._tv(parts[1]), self._tv(parts[2]))
        if op == 'extractvalue':
            parts = split_top(rest)
            return ('extractvalue', dst, line, self._tv(parts[0])[1], [int(x) for x in parts[1:]])
        if op == 'insertvalue':
            parts = split_top(rest)
            return ('insertvalue', dst, line, self._tv(parts[0]), self._tv(parts[1]), [int(x) for x in parts[2:]])
        if op == 'ret':
            if rest == 'void': return ('ret', None, line, None, None)
            t, v = self._tv(rest)
            return ('ret', None, line, t, v)
        if op == 'unreachable': return ('unreachable', None, line)
        if op in ('call','tail','musttail','notail','invoke'):
            normal = None
            if op == 'invoke':
                m = re.match(r'(.*) to label (\S+) unwind label (\S+)$', rest)
                rest, normal = m.group(1), m.group(2)
            elif op != 'call': rest = rest.split(' ', 1)[1]
            rest = re.sub(r'(\s+#\d+)+$', '', rest)
            rest = re.sub(r'\s+\[ .* \]$', '', rest)
            m = re.match(r'(.*?)(@"[^"]*"|@[^\s(]+|%"[^"]*"|%[-\w$.]+|asm .*?)\((.*)\)$', rest)
            if not m: raise Unsupported('call ' + rest)
            rty = self._clean_ty(m.group(1)).strip()
            rty = re.sub(r'\s*\(.*\)$', '', rty)
            callee = m.group(2)
            args = []
            for a in split_top(m.group(3)):
                if a.startswith('metadata'): args.append(('metadata', ('undef',)))
                else: args.append(self._tv(a))
            if callee[0] == '@': callee = ('g', callee[1:].strip('"'))
            elif callee[0] == '%': callee = ('v', callee)
            else: callee = ('asm', callee)
            return ('call', dst, line, rty, callee, args, normal)
        if op in ('atomicrmw', 'cmpxchg'):
            rest = re.sub(r'^(weak\s+|volatile\s+)*', '', rest)
            rest = re.sub(r'(\s+(syncscope\("[^"]*"\)|monotonic|acquire|release|acq_rel|seq_cst|unordered))+(, align \d+)?$', '', rest)
            k = ''
            if op == 'atomicrmw': k, rest = rest.split(' ', 1)
            parts = [self._tv(x) for x in split_top(rest)]
            if op == 'cmpxchg': return ('cmpxchg', dst, line, parts[0][1], parts[1][0], parts[1][1], parts[2][1])
            return ('atomicrmw', dst, line, k, parts[0][1], parts[1][0], parts[1][1])
        if op == 'fence': return ('nop', None, line)
        if op == 'resume': return ('unreachable', None, line)
        return ('unsupported', dst, line, l)

    def global_init(self, nm):
        """-> (size, [(off, 'bytes', b) | (off, 'ptr', symbol, addend)], const)"""
        if nm in self._g: return self._g[nm]
        raw = self.glob.get(nm)
        if raw is None: raise Unsupported('global ' + nm)
        m = re.match(r'((?:private|internal|external|hidden|dso_local|linkonce_odr|weak_odr|unnamed_addr|local_unnamed_addr|thread_local|constant|global|available_externally)\s+)*', raw)
        quals = raw[:m.end()]
        rest = raw[m.end():]
        if rest[0] in '[{<':
            depth = 0
            for i, c in enumerate(rest):
                depth += c in '[{<('; depth -= c in ']}>)'
                if depth == 0: break
            ty, init = rest[:i+1], rest[i+1:].strip()
        elif rest.startswith('%"'):
            mm = re.match(r'(%"[^"]*")\s?(.*)$', rest); ty, init = self.named[mm.group(1)], mm.group(2)
        else: ty, init = (rest.split(' ', 1) + ['undef'])[:2]
        if 'external' in quals: init = 'undef'
        items = []
        init = split_top(init)[0] if not init.startswith('c"') else re.match(r'c"(?:[^"])*"', init).group(0)
        self._ginit(ty, init, 0, items)
        r = (type_size(ty), items, 'constant' in quals and 'external' not in quals)
        self._g[nm] = r
        return r

    def _ginit(self, ty, init, off, out):
        init = init.strip()
        if init.startswith('c"'): out.append((off, 'bytes', cbytes(init[2:-1]))); return
        if init == 'zeroinitializer': out.append((off, 'bytes', b'\0'*type_size(ty))); return
        if init in ('undef', 'poison'): return
        m = _int_ty.match(ty)
        if m:
            n = type_size(ty); v = {'true':1,'false':0}.get(init)
            if v is None: v = int(init)
            out.append((off, 'bytes', (v & ((1 << (8*n)) - 1)).to_bytes(n, 'little'))); return
        if ty == 'ptr':
            v = self._val('ptr', init)
            if v[0] == 'null': out.append((off, 'bytes', b'\0'*8)); return
            if v[0] == 'intptr': out.append((off, 'bytes', v[1].to_bytes(8, 'little'))); return
            out.append((off, 'ptr', v[1], v[2])); return
        if ty[0] == '[':
            n, et = re.match(r'\[(\d+) x (.*)\]$', ty).groups()
            es = type_size(et)
            for k, e in enumerate(split_top(init[1:-1])):
                e = e.strip(); self._ginit(et, e[len(et):].strip(), off + k*es, out)
            return
        body = init.strip()
        body = body[2:-2] if body.startswith('<{') else body[1:-1]
        for (o, et), e in zip(struct_offsets(ty), split_top(body)):
            e = e.strip()
            self._ginit(et, e[len(et):].strip(), off + o, out)
