"""Inputs beyond the exhaustively enumerated ones: random structured class files,
damage to them, sizes at the limits of their counts, deep nesting, and class files
made by a Java compiler.  Nothing here says what is right: the specification judges
every run."""
import glob, itertools, random, struct, zipfile

def u1(n): return bytes([n & 255])
def u2(n): return struct.pack('>H', n & 65535)
def u4(n): return struct.pack('>I', n & 0xffffffff)

def mutf8(s):
    out = bytearray()
    for c in s:
        n = ord(c)
        units = [n] if n < 0x10000 else [0xD800 + ((n - 0x10000) >> 10), 0xDC00 + ((n - 0x10000) & 0x3ff)]
        for x in units:
            if 1 <= x < 0x80: out.append(x)
            elif x < 0x800: out += bytes([0xC0 | x >> 6, 0x80 | x & 63])
            else: out += bytes([0xE0 | x >> 12, 0x80 | x >> 6 & 63, 0x80 | x & 63])
    return bytes(out)

def utf(s): return b'\1' + u2(len(s)) + s
def name(n): return utf(mutf8(n))

HEADER = bytes([202, 254, 186, 190, 0, 0, 0, 52])
LISTS = ['Exceptions', 'ModulePackages']
FIXED = {'ConstantValue': 2, 'ModuleMainClass': 2, 'SourceFile': 2, 'Signature': 2, 'Deprecated': 0,
         'Synthetic': 0, 'EnclosingMethod': 4}
TABLES = {'InnerClasses': 8, 'LineNumberTable': 4, 'LocalVariableTable': 10, 'LocalVariableTypeTable': 10}
ANN = ['RuntimeVisibleAnnotations', 'RuntimeInvisibleAnnotations']
PANN = ['RuntimeVisibleParameterAnnotations', 'RuntimeInvisibleParameterAnnotations']
TANN = ['RuntimeVisibleTypeAnnotations', 'RuntimeInvisibleTypeAnnotations']
PLAIN = LISTS + list(FIXED) + list(TABLES) + ['MethodParameters', 'BootstrapMethods', 'Module', 'SourceDebugExtension']
KINDS = PLAIN + ANN + PANN + TANN + ['AnnotationDefault', 'StackMapTable', 'Code', 'Foo', 'Unk']

NOARG = [x for x in range(202) if x not in range(16, 26) and x not in range(54, 59) and x not in (132, 169, 170, 171, 188, 196, 197)
         and x not in range(153, 169) and x not in range(178, 188) and x not in (189, 192, 193, 198, 199, 200, 201)] + [202, 254, 255]
ONE = [16, 18] + list(range(21, 26)) + list(range(54, 59)) + [169]
TWO = [17, 19, 20, 132] + list(range(153, 169)) + list(range(178, 185)) + [187, 189, 192, 193, 198, 199]
FOUR = [200, 201]

# names that mean something to a virtual machine, and names that nearly do
SPECIAL = ['<init>', '<clinit>', 'main', 'this', 'java/lang/Object', 'java/lang/String', 'module-info', 'package-info', 'serialVersionUID', 'value',
           'A', 'A$B', '', 'I', 'V', '()V', '(I)V', '([Ljava/lang/String;)V', 'Ljava/lang/Object;', 'Ljava/lang/Deprecated;', '[I', 'A.java', '$VALUES', 'values', 'lambda$0']
SPECIAL += [f(k) for k in KINDS for f in (str.lower, str.upper, lambda k: k + ' ', lambda k: ' ' + k, lambda k: k + '\0', lambda k: k[:-1], lambda k: k + 's', lambda k: k[1:],
                                          lambda k: k + ';', lambda k: 'org.' + k, lambda k: k.replace('Visible', ''), lambda k: k.replace('e', '\u00e9'))]
SPECIAL += ['NestHost', 'NestMembers', 'Record', 'PermittedSubclasses', 'ModuleHashes', 'ModuleTarget', 'ModuleResolution', 'SourceID', 'CompilationID',
            'StackMap', 'LocalVariables', 'Varargs', 'Bridge', 'Enum', 'Annotation', 'Scala', 'ScalaSig', 'org.aspectj.weaver.Aspect', 'AnnotationsDefault', 'Methods']
VERSIONS = [(0, 45), (3, 45), (0, 46), (0, 48), (0, 49), (0, 50), (0, 51), (0, 52), (0, 53), (0, 54), (0, 55), (65535, 56), (0, 61), (0, 44), (0, 0), (65535, 65535), (1, 52), (3, 52)]
ENDS = [0xffff, 0x7fff, 0x8000, 0x00ff, 0x0100, 0xfffe, 0]

class Pool:
    def __init__(self): self.items, self.slots, self.idx = [], 0, {}
    def add(self, b):
        i = self.slots + 1
        self.items.append(b)
        self.slots += 2 if b[0] in (5, 6) else 1
        return i
    def name(self, n):
        if n not in self.idx: self.idx[n] = self.add(name(n))
        return self.idx[n]
    def bytes(self): return u2(self.slots + 1) + b''.join(self.items)

def r_hurt(g):
    """whether to damage this content, inside an extent that fits what is left of it"""
    return g.hurt and g.r.random() < g.hurt

MODES = ['any', 'any', 'few', 'few', 'pool', 'pool', 'ends', 'mix', 'mix', 'mix']

def mixed(r, recent):
    """a two-byte value of some size, or one of the recent values or next to one"""
    k = r.random()
    if recent and k < .3: return (r.choice(recent) + r.choice([0, 0, 1, -1])) & 65535
    if k < .5: return r.choice([0, 0, 1, 1, 2])
    if k < .6: return r.randrange(3, 16)
    if k < .7: return r.randrange(16, 255)
    if k < .8: return r.choice([255, 256, 32767, 32768, 65534, 65535, 65535])
    if k < .9: return r.randrange(257, 32767)
    return r.randrange(32769, 65534)

class Gen:
    def __init__(self, rng, focus):
        self.r, self.focus = rng, focus
        self.pool = Pool()
        # where the values come from: anywhere, a few values that coincide, the ends of the ranges
        self.mode = rng.choice(MODES)
        self.recent = [0]
        self.same = rng.choice([0, 0, .1, .5])
        self.hurt = 0
    def bytes(self, n):
        r = self.r
        if self.mode == 'any' or r.random() < .1: return bytes(r.getrandbits(8) for _ in range(n))
        b = b''
        if self.mode == 'mix':
            for _ in range(n // 2):
                x = mixed(r, self.recent)
                self.recent = self.recent[-7:] + [x]
                b += u2(x)
            return b + (u1(mixed(r, [0, 1, 255])) if n % 2 else b'')
        while len(b) < n:
            if n - len(b) > 1:
                b += u2(r.choice([0, 0, 1, 1, 2, 3]) if self.mode == 'few' else r.randint(0, self.pool.slots + 2) if self.mode == 'pool' else r.choice(ENDS))
            else: b += u1(r.choice([0, 1, 2, 255]))
        return b
    def u4s(self, n):
        """n four-byte values"""
        if self.mode == 'few': return b''.join(u4(self.r.choice([0, 0, 1, 2, -1])) for _ in range(n))
        if self.mode == 'ends': return b''.join(u4(self.r.choice([-1, 0x7fffffff, 0x80000000, 0xffff, 0x10000, 0x8000, 0])) for _ in range(n))
        return self.bytes(4 * n)
    def count(self, top=4):
        r = self.r.random()
        if r < 0.7: return self.r.randint(0, top)
        if r < 0.97: return self.r.randint(0, 4 * top)
        return self.r.choice([16, 17, 31, 33, 63, 64])
    def rep(self, f, top=4, cw=2):
        n = self.count(top)
        out = []
        for _ in range(n):
            out.append(self.r.choice(out) if out and self.r.random() < self.same else f())
        return (u1(n) if cw == 1 else u2(n)) + b''.join(out)
    def text(self):
        r = self.r
        pools = [(0x20, 0x7e), (0, 0x7f), (0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)]
        out = []
        for _ in range(self.count(6)):
            lo, hi = r.choice(pools)
            out.append(chr(r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)])))
        return ''.join(out)
    def const(self):
        t = self.r.choice([1, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 18, 19, 20])
        if t == 1 and self.r.random() < .3: return utf(mutf8(self.r.choice(SPECIAL)))
        if t == 1: return utf(mutf8(self.text()))
        if t == 15: return b'\x0f' + u1(self.r.randint(1, 9)) + self.bytes(2)
        w = {5: 8, 6: 8, 3: 4, 4: 4, 9: 4, 10: 4, 11: 4, 12: 4, 18: 4}.get(t, 2)
        p = self.bytes(w)
        if t in (4, 6) and self.r.random() < .3:
            p = self.r.choice([b'\x7f\xc0\0\1', b'\xff\xff\xff\xff', b'\x80\0\0\0', b'\x7f\x80\0\1'])[:4] + self.bytes(w - 4)
        return u1(t) + p
    def value(self, d=0):
        t = self.r.choice(b'BCDFIJSZsce@[[' if d < 6 else b'BCDFIJSZsce')
        if t == ord('e'): return u1(t) + self.bytes(4)
        if t == ord('@'): return u1(t) + self.ann(d + 1)
        if t == ord('['): return u1(t) + self.rep(lambda: self.value(d + 2), 2)
        return u1(t) + self.bytes(2)
    def ann(self, d=0): return self.bytes(2) + self.rep(lambda: self.bytes(2) + self.value(d + 1), 2)
    def target(self):
        t = self.r.choice([0, 1, 16, 17, 18, 19, 20, 21, 22, 23, 64, 65] + list(range(66, 76)))
        if t in (64, 65): b = self.rep(lambda: self.bytes(6), 3)
        elif t in (0, 1, 22): b = self.bytes(1)
        elif t in (19, 20, 21): b = b''
        elif t >= 71: b = self.bytes(3)
        else: b = self.bytes(2)
        return u1(t) + b
    def vtype(self):
        t = self.r.randint(0, 8)
        return u1(t) + (self.bytes(2) if t > 6 else b'')
    def frame(self):
        t = self.r.choice([self.r.randint(0, 63), self.r.randint(64, 127), self.r.randint(247, 255), self.r.randint(247, 255)])
        b = u1(t)
        if 64 <= t < 128: b += self.vtype()
        if t >= 247: b += self.bytes(2)
        if t == 247: b += self.vtype()
        if 252 <= t < 255: b += b''.join(self.vtype() for _ in range(t - 251))
        if t == 255: b += self.rep(self.vtype, 4) + self.rep(self.vtype, 4)
        return b
    def insn(self, at):
        r = self.r
        k = r.random()
        sw = .5 if self.focus == 'C10' else .06
        if k < sw:
            pad = self.bytes(3 - at % 4)
            if r.random() < .5:
                n = self.count(4) or 1
                low = r.choice([0, 1, -1, -5, 2 ** 31 - 1 - n, -2 ** 31, r.randint(-2 ** 31, 2 ** 31 - n)])
                return b'\xaa' + pad + self.u4s(1) + u4(low) + u4(low + n - 1) + self.u4s(n)
            n = self.count(4)
            keys = sorted(r.sample(range(-3 - n, 4 + n), n) if self.mode == 'few' else r.sample(range(-10, 70), n) if r.random() < .5 else {r.randint(-2 ** 31, 2 ** 31 - 1) for _ in range(n)})
            keys = list(keys)
            if r.random() < .3: r.shuffle(keys)
            return b'\xab' + pad + self.u4s(1) + u4(len(keys)) + b''.join(u4(x) + self.u4s(1) for x in keys)
        if k < sw + .1:
            op = r.choice([21, 22, 23, 24, 25, 54, 55, 56, 57, 58, 169, 132])
            return bytes([196, op]) + self.bytes(4 if op == 132 else 2)
        if k < sw + .15: return b'\xb9' + self.bytes(3) + (b'\0' if r.random() < .9 else self.bytes(1))
        if k < sw + .2: return b'\xba' + self.bytes(2) + (b'\0\0' if r.random() < .9 else self.bytes(2))
        if k < sw + .24: return bytes([188, r.randint(4, 11)])
        if k < sw + .28: return b'\xc5' + self.bytes(3)
        if k < sw + .34: return u1(r.choice(FOUR)) + self.bytes(4)
        if k < sw + .55:
            op = r.choice(TWO)
            # jumps to the start, to itself, to what follows
            if (153 <= op <= 168 or op > 197) and self.mode == 'mix' and r.random() < .5: return u1(op) + u2(r.choice([-at, 3, 0, 1, -1, 1 - at, r.randint(-at - 1, 9)]))
            return u1(op) + self.bytes(2)
        if k < .85: return u1(r.choice(ONE)) + self.bytes(1)
        return u1(r.choice(NOARG))
    def code(self, d):
        b = b''
        n = self.count(12) + 1
        for _ in range(n): b += self.insn(len(b))
        if r_hurt(self): b = damage(self.r, b) or b'\0'
        # numbers that are offsets into this code
        mode, ends = self.mode, [0, len(b), len(b) - 1] + [self.r.randrange(len(b)) for _ in range(3)]
        if self.r.random() < .4: self.mode = 'mix'
        def near(f):
            self.recent = ends[:]
            return f()
        head, rows = near(lambda: self.bytes(4)), self.rep(lambda: near(lambda: self.bytes(8)), 2)
        attrs = [near(lambda: self.attr(d + 1)) for _ in range(self.r.choice([0, 0, 1, 2]))]
        self.mode = mode
        return head + u4(len(b)) + b + rows + u2(len(attrs)) + b''.join(attrs)
    def content(self, k, d):
        r = self.r
        h = lambda n: self.bytes(2 * n) + self.rep(lambda: self.bytes(2), 3)
        if k in FIXED: return self.bytes(FIXED[k])
        if k in LISTS: return self.rep(lambda: self.bytes(2))
        if k in TABLES: return self.rep(lambda: self.bytes(TABLES[k]))
        if k == 'MethodParameters': return self.rep(lambda: self.bytes(4), 4, 1)
        if k == 'BootstrapMethods': return self.rep(lambda: h(1))
        if k == 'Module':
            return (self.bytes(6) + self.rep(lambda: self.bytes(6), 3) + self.rep(lambda: h(2), 3) + self.rep(lambda: h(2), 3)
                    + self.rep(lambda: self.bytes(2)) + self.rep(lambda: h(1), 3))
        if k in ANN: return self.rep(self.ann, 3)
        if k in PANN: return self.rep(lambda: self.rep(self.ann, 2), 3, 1)
        if k in TANN:
            return self.rep(lambda: self.target() + self.rep(lambda: bytes([r.randint(0, 3), r.randint(0, 255)]), 2, 1) + self.ann(), 3)
        if k == 'AnnotationDefault': return self.value()
        if k == 'StackMapTable': return self.rep(self.frame, 6)
        if k == 'SourceDebugExtension': return mutf8(self.text())
        if k == 'Code': return self.code(d)
        return self.bytes(self.count(10))
    def attr(self, d=0):
        f = {'C08': ['Code'], 'C09': ['Code'], 'C10': ['Code'], 'C11': ['StackMapTable'], 'C12': ANN + PANN + ['AnnotationDefault'],
             'C13': TANN, 'C07': PLAIN, 'C04': ['SourceDebugExtension'], 'C02': ['Foo'], 'C03': ['Foo'],
             'C23': ['InnerClasses', 'MethodParameters', 'Module'], 'C05': ['Foo', 'Deprecated', 'Signature']}.get(self.focus, KINDS)
        k = self.r.choice(f if self.r.random() < .8 else KINDS)
        if d > 3 and k == 'Code': k = 'Foo'
        n = k
        if k == 'Foo': n = self.r.choice(['Foo', 'Foo', self.r.choice(SPECIAL)])
        i = self.pool.name(n)
        c = self.content(k, d)
        if r_hurt(self): c = damage(self.r, c)
        return u2(i) + u4(len(c)) + c
    def cls(self):
        r = self.r
        heavy = self.focus in ('C02', 'C03', 'C04', 'C16', 'C18', 'C19')
        if r.random() < .3: self.pool.add(name(r.choice(SPECIAL)))
        for _ in range(self.count(12 if heavy else 3)):
            c = self.const()
            if self.pool.items and r.random() < .2: c = r.choice(self.pool.items)
            self.pool.add(c)
        attrs = lambda n: [self.attr() for _ in range(r.randint(0, n))]
        def member():
            a = attrs(2)
            return self.bytes(6) + u2(len(a)) + b''.join(a)
        fs = [member() for _ in range(r.choice([0, 0, 1, 2]))]
        ms = [member() for _ in range(r.choice([0, 1, 1, 2]))]
        ca = attrs(3)
        tail = (self.bytes(6) + self.rep(lambda: self.bytes(2), 2) + u2(len(fs)) + b''.join(fs) + u2(len(ms)) + b''.join(ms)
                + u2(len(ca)) + b''.join(ca))
        for _ in range(r.choice([0, 0, 1, 2])): self.pool.add(self.const())
        v = r.choice(VERSIONS)
        return HEADER[:4] + (u2(v[0]) + u2(v[1]) if r.random() < .7 else self.bytes(4)) + self.pool.bytes() + tail

def damage(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k, p = r.random(), r.randrange(len(b)) if b else 0
        if not b: break
        if k < .35: b[p] = r.choice([0, 1, 2, 3, 127, 128, 255, r.getrandbits(8)])
        elif k < .5: b[p] ^= 1 << r.randrange(8)
        elif k < .6: del b[p:]
        elif k < .75: del b[p:p + r.randint(1, 4)]
        elif k < .9: b[p:p] = bytes(r.getrandbits(8) for _ in range(r.randint(1, 4)))
        else:
            q = r.randrange(len(b))
            b[p:p] = b[q:q + r.randint(1, 12)]
    return bytes(b)

def randoms(focus, seed, n):
    """n inputs, most of them damaged for the properties about rejection"""
    r = random.Random('%s/%s' % (focus, seed))
    hurt = {'C01': .7, 'C06': .5, 'C14': .2, 'C15': .8}.get(focus, .25)
    out = []
    while len(out) < n:
        g = Gen(r, focus)
        q = r.random()
        if focus != 'C14' and q < hurt / 2: g.hurt = .2
        b = g.cls()
        if len(b) > 6000: continue
        if focus == 'C14':
            ks = sorted({len(b)} | {r.randrange(len(b)) for _ in range(12)} | set(range(max(0, len(b) - 6), len(b))))
            out += [b[:k] for k in ks]
            continue
        if hurt / 2 <= q < hurt:
            b = damage(r, b)
        elif r.random() < .05: b += r.randbytes(r.randint(1, 9))
        out.append(b)
    return out[:n]

# ---------------------------------------------------------------------------------
def file(items, attrs=b'\0\0', fields=b'\0\0', methods=b'\0\0', ifs=b'\0\0', count=None):
    p = Pool()
    for i in items: p.add(i)
    return HEADER + (p.bytes() if count is None else u2(count) + b''.join(items)) + b'\0\x21\0\3\0\4' + ifs + fields + methods + attrs

def one(kind, content, ctx='class', extra=()):
    items = [name(kind), name('Code')] + list(extra)
    a = u2(1) + u2(1) + u4(len(content)) + content
    if ctx == 'class': return file(items, a)
    if ctx == 'field': return file(items, fields=b'\0\1\0\1\0\1\0\1' + a)
    m = a
    if ctx == 'code':
        c = b'\0\1\0\1\0\0\0\1\xb1\0\0' + a
        m = u2(1) + u2(2) + u4(len(c)) + c
    return file(items, methods=b'\0\1\0\1\0\1\0\1' + m)

def method(code):
    c = b'\0\1\0\1' + u4(len(code)) + code + b'\0\0\0\0'
    return file([name('Code')], methods=b'\0\1\0\1\0\1\0\1' + u2(1) + u2(1) + u4(len(c)) + c)

def nest_values(n, kind):
    head = {'a': b'[\0\1', 'n': b'@\0\1\0\1\0\1'}
    return b''.join(head[kind[i % len(kind)]] for i in range(n)) + b'I\0\1'

def nest_code(n, claim=1):
    c = b'\0\1\0\1\0\0\0\1\xb1\0\0\0\0'
    for _ in range(n):
        c = b'\0\1\0\1\0\0\0\1\xb1\0\0' + u2(claim) + u2(1) + u4(len(c)) + c
    return file([name('Code')], methods=b'\0\1\0\1\0\1\0\1' + u2(1) + u2(1) + u4(len(c)) + c)

def together():
    """deep and wide at once: reading these takes long at great depth"""
    for k in ('a', 'n', 'an'):
        yield one('RuntimeVisibleAnnotations', u2(1) + u2(5) + u2(60) + b''.join(u2(6) + nest_values(d, k) for d in [90, 1, 60] * 20))
        yield one('RuntimeInvisibleTypeAnnotations', u2(20) + b''.join(b'\x13\0\0\5\0\1\0\6' + nest_values(d, k) for d in [90, 3] * 10))
    c = b'\0\1\0\1\0\0\0\1\xb1\0\0\0\0'
    for _ in range(50): c = b'\0\1\0\1\0\0\0\1\xb1\0\0\0\1\0\1' + u4(len(c)) + c
    yield file([name('Code')], methods=u2(20) + (u2(9) + u2(1) * 2 + u2(1) + u2(1) + u4(len(c)) + c) * 20)

# characters that text processing likes to treat in its own way
ODD = [0, 1, 9, 10, 13, 32, 34, 36, 39, 46, 47, 59, 60, 91, 92, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xbf, 0xc0, 0xd7, 0xdf, 0xe9, 0xff, 0x100, 0x130, 0x131, 0x17f, 0x300, 0x301,
       0x400, 0x7ff, 0x800, 0xfff, 0x1000, 0x200b, 0x200d, 0x200e, 0x2028, 0x20ac, 0x212b, 0x3000, 0xac00, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xefff, 0xf000, 0xfdd0, 0xfe0f, 0xfeff,
       0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1f600, 0x1ffff, 0x20000, 0x2ffff, 0x30000, 0xe0001, 0xfffff, 0x100000, 0x10fc00, 0x10fffe, 0x10ffff]

def texts():
    for x in map(chr, ODD):
        for t in (x, x + 'a', 'a' + x, x + x, 'a' + x + 'b', 'e' + x, x + '\u0301', x + '\U0001f600', '\U0001f600' + x): yield t

# bytes that are not text, and characters, to be put anywhere in otherwise plain text
BADS = [b'\0', b'\x80', b'\xbf', b'\xf0', b'\xff', b'\xf0\x9f\x98\x80', b'\xc3', b'\xe2\x82', b'\xc3\x41', b'\xe2\x41\x82', b'\xe2\x82\x41', b'\xed\xa0\x80', b'\xed\xb0\x80',
        b'\xed\xb0\x80\xed\xa0\x80', b'\xc3\xc3\xa9', b'\xed\xa0\x80\xed\xa0\x80\xed\xb0\x80', b'\xe0\xc0\x80', b'\xf8']
GOODS = [mutf8(x) for x in '\0\x7f\x80\u07ff\u0800\u0fff\ucfff\ud7ff\ue000\uffff\U00010000\U0001f600\U0010ffff']

def placed(deep):
    """text with one odd thing at every place: readers that take several bytes at a time see
    it at every offset, after plain text or after characters of several bytes"""
    good, bad = [], []
    lens = list(range(0, 18)) + [23, 24, 25, 31, 32, 33, 63, 64, 65] + ([47, 48, 49, 127, 128, 129, 255, 256, 257] if deep else [])
    k = 0
    for n in lens:
        for at in range(n + 1):
            fill = [b'a' * at, b'z' * (n - at)]
            for x in GOODS: good.append(fill[0] + x + fill[1])
            good += [mutf8('\u00e9') * at + b'b' * (n - at), b'b' * at + mutf8('\u00e9\u20ac') * (n - at)]
            for x in (BADS if deep or n in (0, 1, 2, 3, 4, 8, 16) else [BADS[(k + i) % len(BADS)] for i in range(4)] + [b'\0', b'\xff']):
                bad.append((fill[0] if (k % 5 or n > 40) else mutf8('\u20ac') * at) + x + fill[1])
                k += 1
    out = [file([utf(x) for x in good[i:i + 3000]]) for i in range(0, len(good), 3000)]
    return out + [file([utf(x)]) if i % 3 else one('SourceDebugExtension', x) for i, x in enumerate(bad)]

def flag_words(deep):
    """flag words at every place that has them: all of them in the thorough tier"""
    ws = list(range(65536)) if deep else sorted({(x * 11) & 0xffff for x in range(5958)} | {1 << i for i in range(16)} | {1 << i | 1 << j for i in range(16) for j in range(i)} | {0xffff ^ 1 << i for i in range(16)} | {0, 0xffff})
    foo = [name('Foo')]
    for i in range(0, len(ws), 32768):
        w = ws[i:i + 32768]
        yield one('InnerClasses', u2(len(w)) + b''.join(u2(1) * 3 + u2(x) for x in w))
        yield one('Module', u2(1) + u2(w[-1]) + u2(1) + u2(len(w)) + b''.join(u2(1) + u2(x) + u2(1) for x in w) + u2(0) * 4)
        yield one('Module', u2(1) + u2(w[0]) + u2(1) + u2(0) + u2(len(w)) + b''.join(u2(1) + u2(x) + u2(0) for x in w) + u2(len(w)) + b''.join(u2(1) + u2(x) + u2(0) for x in w) + u2(0) * 2)
        yield file(foo, fields=u2(len(w)) + b''.join(u2(x) + u2(1) * 2 + u2(0) for x in w), methods=u2(len(w)) + b''.join(u2(x) + u2(1) * 2 + u2(0) for x in w))
    for i in range(0, len(ws), 255):
        w = ws[i:i + 255]
        yield one('MethodParameters', u1(len(w)) + b''.join(u2(1) + u2(x) for x in w), 'method')
    some = ws if deep else [x for x in ws if bin(x).count('1') in (0, 1, 2, 15, 16)] + ws[::20]
    for x in some:
        yield HEADER + u2(1) + u2(x) + u2(0) * 6
        if not deep or x % 16 == 1: yield one('Module', u2(1) + u2(x) + u2(1) + u2(0) * 5)

def first_flags():
    """each word of at most three flags in the first (and only) row of an attribute of its own"""
    ws = [w for w in range(65536) if bin(w).count('1') <= 3] + [0xffff ^ 1 << i for i in range(16)] + [0xffff]
    def many(k, bodies):
        return file([name(k)], attrs=u2(len(bodies)) + b''.join(u2(1) + u4(len(b)) + b for b in bodies))
    yield many('MethodParameters', [b'\1' + u2(9) + u2(w) for w in ws])
    yield many('MethodParameters', [b'\2' + u2(0) + u2(w) + u2(0) + u2(w ^ 0xffff) for w in ws])
    yield many('InnerClasses', [u2(1) + u2(7) + u2(8) + u2(9) + u2(w) for w in ws])
    yield many('InnerClasses', [u2(1) + u2(7) + u2(0) * 2 + u2(w) for w in ws])
    yield many('Module', [u2(7) + u2(w) + u2(8) + u2(0) * 5 for w in ws])
    yield many('Module', [u2(7) + u2(0) + u2(8) + u2(1) + u2(9) + u2(w) + u2(10) + u2(0) * 4 for w in ws])
    yield many('Module', [u2(7) + u2(0) * 2 + u2(1) + u2(9) + u2(w) + u2(0) * 5 for w in ws])
    yield many('Module', [u2(7) + u2(0) * 3 + u2(1) + u2(9) + u2(w) + u2(2) + u2(11) + u2(12) + u2(0) * 3 for w in ws])
    yield many('Module', [u2(7) + u2(0) * 4 + u2(1) + u2(9) + u2(w) + u2(2) + u2(11) + u2(12) + u2(0) * 2 for w in ws])
    yield many('LocalVariableTable', [u2(1) + u2(w) + u2(7) + u2(8) + u2(9) + u2(w ^ 1) for w in ws])

EDGES = [0, 1, 2, 255, 256, 32767, 32768, 65535]

def edge_rows(r, n, w):
    """rows of fields at their edges, and of fields that are equal or next to each other"""
    vals = EDGES if w <= 3 else [0, 1, 32768, 65535] if w <= 5 else [0, 65535]
    out = list(itertools.product(vals, repeat=w))
    for i in range(w):
        for j in range(w):
            for d in (0, 1):
                if i == j: continue
                for v in (r.randrange(65536), r.randrange(300)):
                    row = [r.randrange(65536) for _ in range(w)]
                    row[i], row[j] = v, (v + d) % 65536
                    out.append(row)
    r.shuffle(out)
    return [b''.join(map(u2, x)) for x in out[:n]]

def mixed_rows(r, n, w):
    """rows of values of all sizes that are often those of the same row or of the one before"""
    out, last = [], [0] * w
    for _ in range(n):
        row = []
        t = r.random()
        for i in range(w):
            if t < .1: row.append(last[i])
            elif t < .3 and r.random() < .6: row.append((last[i] + r.choice([0, 0, 0, 1, -1])) & 65535)
            else: row.append(mixed(r, row))
        out.append(b''.join(map(u2, row)))
        last = row
    return out

def rows(r, n, w):
    """n rows of w two-byte fields, each of which goes through about n different values"""
    f = [(r.randrange(1, 65536, 2), r.randrange(65536)) for _ in range(w)]
    e = edge_rows(r, n // 3, w) if w > 1 and n < 65536 else []
    k = n // 3 if w > 1 and n < 65536 else 0
    res = e + [b''.join(u2(i * m + c) for m, c in f) for i in range(n - len(e) - k)]
    if e: r.shuffle(res)
    return mixed_rows(r, k, w) + res if r.random() < .5 else res + mixed_rows(r, k, w)

KINDS_OF = {'C08': ['Code'], 'C09': ['Code'], 'C10': ['Code'], 'C11': ['StackMapTable'], 'C12': ANN + PANN + ['AnnotationDefault'],
            'C13': TANN, 'C07': PLAIN, 'C04': ['SourceDebugExtension'], 'C23': ['InnerClasses', 'MethodParameters', 'Module'], 'C06': KINDS, 'C05': ['Code', 'Foo', 'Module']}

def crowd(focus, seed, deep):
    """very many small attributes of a kind next to each other, of all contents"""
    ks = KINDS_OF.get(focus, [])
    for k in ks:
        r = random.Random('crowd/%s/%s/%s' % (focus, k, seed))
        g = Gen(r, focus)
        n = (6000 if deep else 1500) // (1 + len(ks) // 3)
        if k in FIXED: n = min(n, 3 * 4 ** FIXED[k])
        l = []
        for i in range(n):
            if i % 5 == 0: g.mode, g.same = r.choice(MODES), r.choice([0, 0, .2, .5])
            c = g.content(k, 3 if k == 'Code' else 9)
            if len(c) > 400 or (l and r.random() < .03): c = l[-1][1] if l else g.content('Foo', 9)[:0]
            l.append((k, c))
        for i in range(0, len(l), 1000):
            a = b''.join(u2(g.pool.name(x)) + u4(len(c)) + c for x, c in l[i:i + 1000])
            m = u2(1) + u2(1) * 3 + u2(len(l[i:i + 1000])) + a
            where = (i // 1000 + len(k)) % 3
            yield HEADER + g.pool.bytes() + u2(33) + u2(1) * 2 + u2(0) + (m if where == 1 else u2(0)) + (m if where == 2 else u2(0)) + (u2(len(l[i:i + 1000])) + a if where == 0 else u2(0))

def sweeps(focus, r, deep):
    """every value in every field: as many as there are of them in the thorough tier"""
    n = 65535
    few = n if deep else 20000
    j = b''.join
    if focus == 'C05':
        yield file([name('Foo')], ifs=u2(n) + j(rows(r, n, 1)))
        yield file([name('Foo')], fields=u2(few) + j(x + b'\0\0' for x in rows(r, few, 3)))
        yield file([name('Foo')], methods=u2(few) + j(x + b'\0\0' for x in rows(r, few, 3)))
        for x in rows(r, 65536 if deep else 900, 3): yield HEADER + u2(1) + x + u2(0) * 4
        for x in rows(r, 65536 if deep else 600, 2): yield HEADER[:4] + x + u2(1) + u2(0) * 7
    if focus in ('C02', 'C03'):
        for t in (7, 8, 16, 19, 20, 9, 10, 11, 12, 18, 3, 4):
            k = few if focus == 'C03' else 3000
            yield file([u1(t) + x for x in rows(r, min(k, 65534), 1 if t in (7, 8, 16, 19, 20) else 2)])
        for t in (5, 6): yield file([u1(t) + x for x in rows(r, 30000 if deep else 3000, 4)])
        for k in range(1, 10): yield file([b'\x0f' + u1(k) + x for x in rows(r, 65534 if deep else 3000, 1)])
    if focus == 'C07':
        for k, w in list(TABLES.items()) + [(x, 2) for x in LISTS]: yield one(k, u2(n) + j(rows(r, n, w // 2)))
        for k in FIXED:
            if FIXED[k]:
                xs = rows(r, n if deep else 4000, FIXED[k] // 2)
                for i in range(0, len(xs), 4000):
                    yield file([name(k)], attrs=u2(len(xs[i:i + 4000])) + j(u2(1) + u4(len(x)) + x for x in xs[i:i + 4000]))
        for i in range(0, 65536 if deep else 4096, 255): yield one('MethodParameters', b'\xff' + j(rows(r, 255, 2)), 'method')
        yield one('BootstrapMethods', u2(few) + j(x[:2] + u2(1) + x[2:] for x in rows(r, few, 2)))
        e = lambda w: j(x[:w] + u2(1) + x[w:] for x in rows(r, few, w // 2 + 1))
        yield one('Module', u2(1) * 3 + u2(n) + j(rows(r, n, 3)) + u2(few) + e(4) + u2(few) + e(4) + u2(n) + j(rows(r, n, 1)) + u2(few) + e(2))
        for x in rows(r, 65536 if deep else 200, 3): yield one('Module', x + u2(0) * 5)
    if focus == 'C08':
        for x in rows(r, 65536 if deep else 300, 2): yield one('Code', x + u4(1) + b'\xb1' + u2(0) * 2, 'method')
        yield one('Code', u2(1) * 2 + u4(1) + b'\xb1' + u2(n) + j(rows(r, n, 4)) + u2(0), 'method')
    if focus == 'C09':
        ops = [x for x in TWO if x != 132] + [(196, x) for x in (21, 22, 23, 24, 25, 54, 55, 56, 57, 58, 169)]
        for op in ops:
            code = bytes(op) if isinstance(op, tuple) else u1(op)
            xs = rows(r, 65536 if deep else 2200, 1)
            for i in range(0, len(xs), 16000): yield method(j(code + x for x in xs[i:i + 16000]))
        for op, w in ((200, 2), (201, 2)): yield method(j(u1(op) + x for x in rows(r, 13000, 2)))
        for i in range(6 if deep else 1):
            yield method(j(b'\xc4\x84' + x for x in rows(r, 10900, 2)))
            yield method(j(b'\xc5' + x[:3] for x in rows(r, 16000, 2)) + j(b'\xb9' + x[:3] + b'\0' for x in rows(r, 200, 2)))
            yield method(j(b'\xb9' + x[:3] + b'\0' for x in rows(r, 13000, 2)))
            yield method(j(b'\xba' + x + b'\0\0' for x in rows(r, 13000, 1)))
        yield method(j(b'\x84' + x for x in rows(r, 21000, 1)))
        for op in ONE: yield method(j(u1(op) + u1(i) for i in range(256)))
    if focus == 'C11':
        yield one('StackMapTable', u2(1) + b'\xff\0\1' + u2(few) + j(b'\7' + x for x in rows(r, few, 1)) + u2(few) + j(b'\x08' + x for x in rows(r, few, 1)), 'code')
        k = few // 5
        for t in (247, 248, 249, 250, 251, 252, 253, 254, 255):
            tail = {247: b'\1', 252: b'\2', 253: b'\3\4', 254: b'\5\6\0', 255: b'\0\1\7\1\2\0\1\x08\3\4'}.get(t, b'')
            yield one('StackMapTable', u2(k) + j(u1(t) + x + tail for x in rows(r, k, 1)), 'code')
        yield one('StackMapTable', u2(k) + j(b'\xff\0\1\0\1\7' + x[:2] + b'\0\2\1\x08' + x[2:] for x in rows(r, k, 2)), 'code')
        yield one('StackMapTable', u2(128 * 9) + j(u1(t) + (b'' if t < 64 else u1(v) + (b'' if v < 7 else u2(t * 499))) for t in range(128) for v in range(9)), 'code')
    if focus in ('C12', 'C13'):
        k = few // 8
        kind = 'RuntimeVisibleAnnotations' if focus == 'C12' else 'RuntimeVisibleTypeAnnotations'
        lead = b'' if focus == 'C12' else b'\x13\0'
        for t in b'BCDFIJSZsc':
            yield one(kind, u2(1) + lead + u2(5) + u2(k) + j(x[:2] + u1(t) + x[2:] for x in rows(r, k, 2)))
            yield one(kind, u2(k) + j(lead + x[:2] + u2(1) + u2(6) + u1(t) + x[2:] for x in rows(r, k, 2)))
            if focus == 'C12': yield one('AnnotationDefault', b'[' + u2(k) + j(u1(t) + x for x in rows(r, k, 1)), 'method')
        yield one(kind, u2(1) + lead + u2(5) + u2(k) + j(x[:2] + b'e' + x[2:] for x in rows(r, k, 3)))
        yield one(kind, u2(1) + lead + u2(5) + u2(k) + j(x[:2] + b'@' + x[2:4] + u2(1) + x[4:] + b'I\0\1' for x in rows(r, k, 3)))
        if focus == 'C12':
            yield one('AnnotationDefault', b'[' + u2(n) + j(b'I' + x for x in rows(r, n, 1)), 'method')
            yield one('RuntimeInvisibleAnnotations', u2(1) + u2(5) + u2(n) + j(x[:2] + b'J' + x[2:] for x in rows(r, n, 2)))
    if focus == 'C13':
        k = few // 5
        for t in [16, 17, 18, 23] + list(range(66, 71)): yield one('RuntimeVisibleTypeAnnotations', u2(k) + j(u1(t) + x + b'\0\0\5\0\0' for x in rows(r, k, 1)), 'code')
        for t in range(71, 76): yield one('RuntimeInvisibleTypeAnnotations', u2(k) + j(u1(t) + x[:3] + b'\0\0\5\0\0' for x in rows(r, k, 2)), 'code')
        for t in (0, 1, 22): yield one('RuntimeVisibleTypeAnnotations', u2(256) + j(u1(t) + u1(x) + b'\0\0\5\0\0' for x in range(256)), 'code')
        for t in (64, 65): yield one('RuntimeVisibleTypeAnnotations', u2(1) + u1(t) + u2(n) + j(rows(r, n, 3)) + b'\0\0\5\0\0', 'code')
        yield one('RuntimeVisibleTypeAnnotations', u2(1024) + j(b'\x13\1' + u1(x % 4) + u1(x // 4) + b'\0\5\0\0' for x in range(1024)))
    if focus == 'C10':
        for a in range(4):
            k = 8000
            xs = rows(r, k, 4)
            keys = sorted({(x[0] << 24 | x[1] << 16 | x[2] << 8 | x[3]) - (1 << 32 if x[0] > 127 else 0): x for x in xs}.items())
            yield method(b'\0' * a + b'\xab' + b'\0' * (3 - a) + xs[0][:4] + u4(len(keys)) + j(x for _, x in keys))
            yield method(b'\0' * a + b'\xaa' + b'\0' * (3 - a) + xs[1][:4] + u4(-5) + u4(k * 2 - 6) + j(xs))

def pairs(xs, r):
    """the elements of xs in an order in which each follows each, itself included"""
    xs = list(xs)
    r.shuffle(xs)
    out = [xs[0]]
    for i in range(len(xs)):
        for k in range(i + 1, len(xs)): out += [xs[i], xs[k]]
        out.append(xs[i])
    # x y x z x w x x y z y w y y z w z z w w: what is missing is from each back to those before it
    key = lambda x: tuple(x) if isinstance(x, list) else x
    have = {(key(a), key(b)) for a, b in zip(out, out[1:])}
    for a in xs:
        for b in xs:
            if (key(a), key(b)) not in have:
                if out[-1] != a: out.append(a)
                out.append(b)
                have |= {(key(x), key(y)) for x, y in zip(out[-3:], out[-2:])}
    return out

def neighbours(focus, r):
    """each kind of thing right after each"""
    def fill(g, f):
        g.mode = r.choice(['any', 'few', 'ends'])
        return f()
    g = Gen(r, focus)
    if focus in ('C08', 'C09', 'C10'):
        ops = [x for x in range(202) if x not in (170, 171, 186, 196)] + [186, 170, 171] + [(196, x) for x in (21, 22, 23, 24, 25, 54, 55, 56, 57, 58, 169, 132)]
        if focus == 'C10': ops = [170, 171, 0, 17, 200, 185, (196, 132), 188, 16]
        def insn(op, at):
            if isinstance(op, tuple): return bytes(op) + g.bytes(4 if op[1] == 132 else 2)
            if op in (170, 171):
                pad = g.bytes(3 - at % 4)
                n = r.randint(0, 2)
                if op == 170: return b'\xaa' + pad + g.u4s(1) + (lambda lo: u4(lo) + u4(lo + n))(r.choice([0, -1, 7])) + g.u4s(n + 1)
                return b'\xab' + pad + g.u4s(1) + u4(n) + b''.join(u4(k) + g.u4s(1) for k in sorted(r.sample([-9, -1, 0, 1, 5], n)))
            if op == 188: return b'\xbc' + u1(r.randint(4, 11))
            w = 1 if op in ONE else 2 if op in TWO else 4 if op in FOUR else {185: 3, 186: 2, 197: 3}.get(op, 0)
            return u1(op) + g.bytes(w) + {185: b'\0', 186: b'\0\0'}.get(op, b'')
        body = b''
        for op in pairs(ops, r):
            g.mode = r.choice(['any', 'few', 'ends'])
            body += insn(op, len(body))
            if len(body) > 60000:
                yield method(body)
                body = insn(op, 0)
        yield method(body)
    if focus in ('C05', 'C06', 'C07'):
        # attributes, everywhere
        for ctx in range(2):
            l = []
            for k in pairs([x for x in KINDS if x != 'Code'], r):
                c = fill(g, lambda: filled(g, k) if r.random() < .8 else g.content(k, 9))
                l.append(u2(g.pool.name(k)) + u4(len(c)) + c)
            a = u2(len(l)) + b''.join(l)
            head = HEADER + g.pool.bytes() + u2(33) + u2(1) * 2 + u2(0)
            if ctx == 0: yield head + u2(0) * 2 + a
            else: yield head + u2(1) + u2(1) * 3 + a + u2(0) * 2
    if focus == 'C11':
        fs = list(range(247, 256)) + [0, 1, 63, 64, 65, 127]
        def frame(t):
            v = lambda: fill(g, g.vtype)
            n = {255: r.randint(0, 2), 252: 1, 253: 2, 254: 3}.get(t, 0)
            b = u1(t) + (fill(g, lambda: g.bytes(2)) if t > 246 else b'')
            if t == 255: return b + u2(n) + b''.join(v() for _ in range(n)) + (lambda k: u2(k) + b''.join(v() for _ in range(k)))(r.randint(0, 2))
            return b + b''.join(v() for _ in range(n)) + (v() if t == 247 or 64 <= t < 128 else b'')
        for _ in range(3):
            l = pairs(fs, r)
            yield one('StackMapTable', u2(len(l)) + b''.join(map(frame, l)), 'code')
        l = pairs(list(range(9)) * 1, r)
        vt = lambda t: u1(t) + (fill(g, lambda: g.bytes(2)) if t > 6 else b'')
        for d in (0, 5): yield one('StackMapTable', u2(1) + b'\xff' + u2(d) + u2(len(l)) + b''.join(map(vt, l)) + u2(len(l)) + b''.join(map(vt, l)), 'code')
    if focus in ('C12', 'C13'):
        def value(t):
            if t == ord('e'): return u1(t) + g.bytes(4)
            if t == ord('@'): return u1(t) + g.bytes(2) + (u2(0) if r.random() < .5 else u2(1) + g.bytes(2) + b'I' + g.bytes(2))
            if t == ord('['): return u1(t) + (u2(0) if r.random() < .5 else u2(1) + b'S' + g.bytes(2))
            return u1(t) + g.bytes(2)
        lead = b'' if focus == 'C12' else b'\x13\0'
        kind = ANN if focus == 'C12' else TANN
        for k in kind:
            l = pairs(b'BCDFIJSZsce@[', r)
            vs = [fill(g, lambda: value(t)) for t in l]
            yield one(k, u2(1) + lead + u2(5) + u2(len(l)) + b''.join(u2(i) + v for i, v in enumerate(vs)))
            yield one(k, u2(1) + lead + u2(5) + u2(1) + u2(7) + b'[' + u2(len(l)) + b''.join(vs))
        if focus == 'C13':
            def tann(t):
                if t in (64, 65): b = (lambda n: u2(n) + fill(g, lambda: g.bytes(6 * n)))(r.randint(0, 2))
                else: b = fill(g, lambda: g.bytes(1 if t in (0, 1, 22) else 0 if t in (19, 20, 21) else 3 if t >= 71 else 2))
                p = r.randint(0, 2)
                return u1(t) + b + u1(p) + b''.join(u1(r.randint(0, 3)) + g.bytes(1) for _ in range(p)) + g.bytes(2) + u2(0)
            for c in ('class', 'field', 'method', 'code'):
                l = pairs([0, 1, 16, 17, 18, 19, 20, 21, 22, 23, 64, 65] + list(range(66, 76)), r)
                yield one(r.choice(TANN), u2(len(l)) + b''.join(map(tann, l)), c)

def twins(focus, r):
    """every place for an index with every index of a pool that has equal, adjacent and
    related constants of every kind, and with those before and after it"""
    p = Pool()
    for k in ['Code', 'Foo'] + KINDS: p.name(k)
    for t in ['I', 'J', 'Z', 'B', 'C', 'S', 'F', 'D', 'Ljava/lang/String;', '()V', '[I', '(I)V', 'x', 'x', 'y', '']: p.add(name(t))
    first = p.slots
    for t in (3, 3, 4, 4, 5, 6, 7, 7, 8, 8, 9, 10, 11, 12, 15, 16, 18, 19, 20):
        w = {5: 8, 6: 8, 3: 4, 4: 4, 9: 4, 10: 4, 11: 4, 12: 4, 18: 4}.get(t, 2)
        c = u1(t) + (b'\5' if t == 15 else b'') + (bytes(w - 1) + b'\1' if t < 7 else b''.join(u2(r.randint(1, p.slots)) for _ in range(w // 2)))
        for _ in range(2 if t < 9 else 1): p.add(c)
        if t < 7: p.add(u1(t) + bytes(w - 1) + b'\0'); p.add(u1(t) + b'\xff' * w)
    n = p.slots + 2
    some = list(range(first - 18, n))
    head = HEADER + p.bytes()
    def attrs(k, cs): return u2(len(cs)) + b''.join(u2(p.name(k)) + u4(len(c)) + c for c in cs)
    def cls(a): return head + u2(33) + u2(1) * 2 + u2(0) * 3 + a
    def fld(a, d): return u2(0x19) + u2(1) + u2(d) + a
    ones = [u2(i) for i in range(n)]
    two = [u2(i) + u2(j) for i in some for j in some]
    r.shuffle(two)
    if focus == 'C05':
        yield head + u2(33) + u2(1) * 2 + u2(n) + b''.join(ones) + u2(0) * 3
        yield head + u2(33) + u2(1) * 2 + u2(0) + (u2(len(two)) + b''.join(u2(9) + x + u2(0) for x in two)) * 2 + u2(0)
        for x in two[:300]: yield head + u2(33) + x + u2(0) * 4
        for i in range(n): yield head + u2(33) + u2(i) + u2(i) + u2(0) * 4
    if focus == 'C07':
        for k in FIXED:
            if FIXED[k] == 2: yield cls(attrs(k, ones))
            if FIXED[k] == 4: yield cls(attrs(k, two))
        yield head + u2(33) + u2(1) * 2 + u2(0) + u2(len(some) * 16) + b''.join(fld(attrs('ConstantValue', [u2(i)]), d) for i in some for d in range(first - 15, first + 1)) + u2(0) * 2
        for k in LISTS: yield cls(attrs(k, [u2(n) + b''.join(ones)] + [u2(1) + x for x in ones]))
        for k in ('LocalVariableTable', 'LocalVariableTypeTable'): yield cls(attrs(k, [u2(len(two)) + b''.join(u2(0) + u2(1) + x + u2(3) for x in two)]))
        yield cls(attrs('InnerClasses', [u2(len(two)) + b''.join(x + u2(r.choice([0, r.randrange(n)])) + u2(9) for x in two), u2(len(two)) + b''.join(u2(i % n) + x + u2(1) for i, x in enumerate(two))]))
        yield cls(attrs('BootstrapMethods', [u2(len(two)) + b''.join(x[:2] + u2(1) + x[2:] for x in two)]))
        yield cls(attrs('MethodParameters', [u1(1) + x + u2(16) for x in ones]))
        yield cls(attrs('Module', [u2(i) + u2(0) + u2(n - i) + (u2(1) + u2(i) + u2(0) + u2(i)) + (u2(1) + u2(i) + u2(0) + u2(1) + u2(i)) * 2 + u2(1) + u2(i) + u2(1) + u2(i) + u2(1) + u2(i) for i in range(n)]))
        yield cls(attrs('Module', [u2(1) + u2(0) * 2 + u2(len(two)) + b''.join(x[:2] + u2(0) + x[2:] for x in two) + (u2(len(two)) + b''.join(x[:2] + u2(0) + u2(1) + x[2:] for x in two)) * 2 + u2(0) + u2(len(two)) + b''.join(x[:2] + u2(1) + x[2:] for x in two)]))
    code = lambda b, e=b'\0\0': b'\0\1\0\1' + u4(len(b)) + b + e + u2(0)
    mth = lambda a: head + u2(33) + u2(1) * 2 + u2(0) * 2 + u2(1) + u2(1) * 3 + a + u2(0)
    if focus == 'C08': yield mth(attrs('Code', [code(b'\xb1', u2(n) + b''.join(u2(0) + u2(1) + u2(0) + x for x in ones))]))
    if focus == 'C09': yield mth(attrs('Code', [code(b''.join(bytes([op]) + x + {185: b'\1\0', 186: b'\0\0', 197: b'\1'}.get(op, b'') for x in ones)) for op in [19, 20] + list(range(178, 188)) + [189, 192, 193, 197]]
                                       + [code(b''.join(b'\x12' + x[1:] for x in ones))]))
    if focus == 'C11': yield cls(attrs('StackMapTable', [u2(1) + b'\xff\0\1' + u2(n) + b''.join(b'\7' + x for x in ones) + u2(n) + b''.join(b'\7' + x for x in ones)] + [u2(1) + b'\x40\7' + x for x in ones]))
    if focus in ('C12', 'C13'):
        lead, ks = (b'', ANN) if focus == 'C12' else (b'\x13\0', TANN)
        for k in ks:
            yield cls(attrs(k, [u2(len(two)) + b''.join(lead + x[:2] + u2(1) + x[2:] + b'I\0\1' for x in two)] + [u2(1) + lead + u2(5) + u2(n) + b''.join(u2(6) + bytes([t]) + x for x in ones) for t in b'BCDFIJSZsc']
                            + [u2(1) + lead + u2(5) + u2(len(two)) + b''.join(u2(6) + b'e' + x for x in two)] + [u2(1) + lead + x + u2(0) for x in ones]))
        if focus == 'C12': yield cls(attrs('AnnotationDefault', [bytes([t]) + x for x in ones for t in b'BCDFIJSZsc']))

def bodies(r):
    """short method bodies that start (and end) with each instruction, under headers at their edges"""
    heads = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (0, 2), (65535, 0), (0, 65535), (255, 256), (3, 300)]
    ms = []
    for op in range(202):
        if op in (170, 171, 196): continue
        w = 1 if op in ONE else 2 if op in TWO else 4 if op in FOUR else {185: 4, 186: 4, 188: 1, 197: 3}.get(op, 0)
        arg = {185: b'\0\1\1\0', 188: b'\x0a', 186: b'\0\1\0\0'}.get(op)
        for s, l in heads:
            i = u1(op) + (arg or r.choice([bytes(w), bytes(w - 1) + b'\1' if w else b'']))
            b = r.choice([i, i + b'\xb1', i + b'\0' * 2 + i])
            e = r.choice([b'', b'', b'\0' * 8, bytes(5) + b'\1' + b'\0' * 2])
            ms.append(u2(s) + u2(l) + u4(len(b)) + b + u2(len(e) // 8) + e + u2(0))
    for i in range(0, len(ms), 1000):
        l = ms[i:i + 1000]
        yield file([name('Code')], methods=u2(len(l)) + b''.join(u2(r.choice([0, 1, 8, 9])) + u2(1) * 2 + u2(1) + u2(1) + u4(len(c)) + c for c in l))

def named(t):
    """everything that can have a name has this one"""
    n = u2(1)
    items = [name(t), b'\7' + n, name('InnerClasses'), name('MethodParameters'), name('Signature'), name('Code'), b'\x0c' + n + n]
    sig = u2(1) + u2(5) + u4(2) + n
    par = u2(6) + u4(17) + u2(0) * 2 + u4(1) + b'\xb1' + u2(0) + u2(0) + b'\0' * 4
    inner = u2(1) + u2(3) + u4(10) + u2(1) + u2(2) + u2(2) + n + b'\xff\xff'
    m = lambda f, a: u2(f) + n + n + a
    params = u2(1) + u2(4) + u4(9) + b'\2' + n + b'\xff\xff' + n + b'\0\1'
    code = u2(1) + u2(6) + u4(13) + b'\0\1\0\1\0\0\0\1\xb1\0\0\0\0'
    return file(items, inner, u2(3) + m(0xffff, sig) + m(0, u2(0)) + m(0x19, sig), u2(4) + m(0xffff, params) + m(0, u2(0)) + m(0x1009, code) + m(0x400, code), u2(2) + u2(2) * 2)

# pairs of different texts of one length that weak ways to compare or hash text take for the same
ALIKE = [('Aa', 'BB'), ('AaAa', 'BBBB'), ('AaBB', 'BBAa'), ('C#', 'Bb'), ('Bb', 'CA'), ('ab', 'ba'), ('abc', 'cab'), ('ad', 'bc'), ('aabb', 'abab'), ('a/b', 'b/a'), ('\u0101', '\u0102'), ('a\u00e9', '\u00e9a'),
         ('kwipbyv', 'uagxfyd'), ('lfatghn', 'xwrsloy'), ('kaovhtl', 'nrbigmh'), ('axmhvhq', 'ifpckwi'), ('spzmfuo', 'ponxaqu'), ('mddedbv', 'qunxnky'), ('qrmluct', 'gsephih'), ('vormcgo', 'otatqug'),
         ('rphdvdb', 'bowtutr'), ('uqhiqwe', 'bfevvst'), ('qqqshbe', 'abdznvu'), ('tclgxgz', 'pngdtmy'), ('java/lang/Object', 'java/lang/Nbject'), ('Straße', 'STRASSE'), ('file', '\ufb01le'), ('K', '\u212a'),
         ('\u00e9', 'e\u0301'), ('aXb', 'aYb'), ('abcdefgh', 'abcdefgi'), ('abcdefgh', 'bbcdefgh'), ('abcdXfgh', 'abcdYfgh')]

def alike():
    """pools with such pairs, and with numbers that are alike in the same way"""
    ts = [t for p in ALIKE for t in p]
    ints = [0, 1, 2, 31, 0x7fffffff, 0xffff0000, 0x10001, 0x3f800000]
    ints += [x ^ 0xffffffff for x in ints] + [(-x) & 0xffffffff for x in ints] + [(x >> 16 | x << 16) & 0xffffffff for x in ints]
    longs = [x << 32 | y for x in ints[:12] for y in ints[:12]]
    two = [(5, 40), (6, 9), (4, 71), (6, 39), (40, 5), (6, 43), (5, 296), (1, 2), (2, 1), (3, 3), (0, 0), (0, 3), (257, 1), (1, 257), (5, 40 + 32768), (32773, 40)]
    uniq = lambda l: list(dict.fromkeys(l))
    num = [b'\3' + u4(x) for x in uniq(ints)] + [b'\4' + u4(x) for x in uniq(ints)] + [u1(t) + struct.pack('>Q', x) for t in (5, 6) for x in uniq(longs)]
    ref = [u1(t) + u2(a) + u2(b) for t in (9, 10, 11, 12, 18) for a, b in two]
    for k in (ts, ts[::-1]): yield file([name(t) for t in k])
    for a, b in ALIKE:
        yield file([name(a), name(b), name(a), name(b + a), name(a + b)])
        yield file([name(b), b'\7\0\1', name(a)])
    yield file(num + ref)
    yield file(ref[::-1] + num[::-1])

CHARS = [0, 1, 9, 10, 13, 0x1b, 32, 34, 36, 38, 40, 45, 46, 47, 48, 59, 60, 65, 90, 91, 92, 95, 97, 122, 126, 127, 0x80, 0x85, 0xa0, 0xad, 0xbf, 0xc3, 0xe9, 0xff, 0x130, 0x131, 0x300, 0x301, 0x3a3, 0x5d0, 0x61c,
         0x7ff, 0x800, 0x200b, 0x200c, 0x200d, 0x200e, 0x2028, 0x202e, 0x20ac, 0x2603, 0x3042, 0x4e00, 0xac00, 0xd7ff, 0xe000, 0xfe0f, 0xfeff, 0xfffd, 0xfffe, 0xffff] \
        + [x << 16 for x in range(1, 17)] + [0x1f1e6, 0x1f3fb, 0x1f600, 0x2ffff, 0x90401, 0xc0401, 0xe0001, 0x10ffff]

def letters(deep):
    """each of these characters after each, and triples of some"""
    r = random.Random('letters')
    out = [mutf8(''.join(map(chr, pairs(CHARS, r))))]
    few = [0, 97, 0x7f, 0xe9, 0x7ff, 0x200d, 0xfeff, 0xffff, 0x10000, 0x90401, 0x1f600, 0x10ffff]
    if deep: few += [47, 0x80, 0x301, 0x800, 0xd7ff, 0xe000, 0xfe0f, 0xfffd]
    out.append(mutf8(''.join(chr(x) for a in few for b in few for c in few for x in (a, b, c, 32))))
    return [file([utf(x)]) for x in out] + [one('SourceDebugExtension', x) for x in out]

def related(focus, r):
    """what is next to a method body, with values that are related to it: offsets of
    instructions and of what is between them, the end of the code, the number of locals, of
    exceptions and of lines"""
    bodies = [(b'\xb1', [0]), (b'\0\xb1', [0, 1]), (b'\xbb\0\2\x59\xb1', [0, 3, 4]), (b'\x10\7' * 6 + b'\xac', list(range(0, 13, 2))), (b'\xa7\0\3\xaa' + bytes(12) + bytes(4) + b'\xb1', [0, 3, 20]),
              (b'\0' * 63 + b'\xb1', [62, 63]), (b'\0' * 255 + b'\xb1', [254, 255]), (b'\0' * 256 + b'\xb1', [255, 256])]
    for code, starts in bodies:
        n = len(code)
        vs = sorted({0, 1, 2, n - 2, n - 1, n, n + 1, n + 2, 2 * n, 65535, 65535 - n, 65536 - n, *starts} - {-1, -2})
        for ex in (0, 1, 2):
            for ml in (0, 2):
                if focus in ('C07', 'C13') and (ex, ml) not in ((0, 2), r.choice([(1, 0), (2, 2)])): continue
                exs = u2(ex) + b''.join(u2(starts[i % len(starts)]) + u2(n) + u2(starts[-1]) + u2(i * 5) for i in range(ex))
                ps = [(a, b) for a in vs for b in vs]
                ix = [0, 1, 2, 3, 65535]
                T = {}
                if focus == 'C07':
                    T['LineNumberTable'] = [u2(1) + u2(a) + u2(7) for a in vs] + [u2(len(vs)) + b''.join(u2(a) + u2(r.choice(vs)) for a in q) for q in (vs, vs[::-1])]
                    for k in ('LocalVariableTable', 'LocalVariableTypeTable'):
                        T[k] = [u2(len(ps)) + b''.join(u2(a) + u2(b) + u2(5) + u2(6) + u2(i) for a, b in ps) for i in ix] + [u2(1) + u2(a) + u2(b) + u2(5) + u2(6) + u2(r.choice(ix)) for a, b in r.sample(ps, min(len(ps), 12))]
                if focus == 'C11':
                    big = b''.join(u1(min(a, 63)) for a in vs)
                    T['StackMapTable'] = [u2(len(vs)) + big] + [u2(1) + u1(t) + u2(a) + {247: b'\1', 252: b'\2', 253: b'\3\4', 254: b'\5\6\0', 255: b'\0\1\7\1\2\0\1\x08' + u2(a)}.get(t, b'') for a in vs for t in range(247, 256)] \
                        + [u2(1) + b'\x40\x08' + u2(a) for a in vs] + [u2(1) + b'\xfc\0\5\x08' + u2(a) for a in vs] + [u2(1) + b'\xff\0\0\0\1\x08' + u2(a) + u2(1) + b'\x08' + u2(b) for a, b in r.sample(ps, min(len(ps), 30))]
                if focus == 'C13':
                    for k in TANN:
                        T[k] = [u2(len(vs) * 4) + b''.join(u1(t) + u2(a) + b'\0\0\5\0\0' for t in (67, 68, 69, 70) for a in vs), u2(len(vs) * 5) + b''.join(u1(t) + u2(a) + u1(i % 3) + b'\0\0\5\0\0' for t in range(71, 76) for i, a in enumerate(vs)),
                                u2(5) + b''.join(b'\x42' + u2(i) + b'\0\0\5\0\0' for i in ix), u2(5) + b''.join(b'\x17' + u2(i) + b'\0\0\5\0\0' for i in ix), u2(5) + b''.join(b'\x16' + u1(i) + b'\0\0\5\0\0' for i in ix)]
                        for t in (64, 65): T[k].append(u2(5) + b''.join(u1(t) + u2(len(ps)) + b''.join(u2(a) + u2(b) + u2(i) for a, b in ps) + b'\0\0\5\0\0' for i in ix))
                ks = list(T)
                al = [u2(3 + ks.index(k)) + u4(len(c)) + c for k in ks for c in T[k]]
                if focus == 'C08':
                    tr = [(a, b, c) for a in vs for b in vs for c in vs]
                    if len(tr) > 600: tr = r.sample(tr, 600)
                    exs = u2(len(tr)) + b''.join(u2(a) + u2(b) + u2(c) + u2(r.choice([0, 0, 1, 2])) for a, b, c in tr)
                    if ex: exs = u2(1) + u2(r.choice(vs)) * 2 + u2(r.choice(vs)) + u2(ex - 1)
                body = u2(r.choice([0, 1, 2])) + u2(ml) + u4(n) + code + exs + u2(len(al)) + b''.join(al)
                yield file([name('A'), name('Code')] + [name(k) for k in ks], methods=u2(1) + u2(9) + u2(1) * 2 + u2(1) + u2(2) + u4(len(body)) + body)

def fat():
    """structures in which not one count is large, but every one"""
    n = 40000
    full = lambda a, b: b'\xff\0\1' + u2(a) + b'\0' * a + u2(b) + b'\0' * b
    for a, b in ((n, n), (n, 0), (0, n), (65535, 65535), (32768, 32768)):
        yield one('StackMapTable', u2(2) + full(a, b) + full(b, a), 'code')
        yield one('BootstrapMethods', u2(2) + u2(1) + u2(a) + bytes(2 * a) + u2(2) + u2(b) + bytes(2 * b))
        to = lambda k: b'\0\1\0\0' + u2(k) + bytes(2 * k)
        yield one('Module', bytes(6) + u2(a) + bytes(6 * a) + u2(2) + to(a) + to(b) + u2(2) + to(b) + to(a) + u2(b) + bytes(2 * b) + u2(2) + to(a)[:2] + to(a)[4:] + to(b)[:2] + to(b)[4:])
        code = b'\0\1\0\1' + u4(a + 1) + bytes(a) + b'\xb1' + u2(b) + bytes(8 * b)
        yield file([name('Code'), name('')], methods=u2(1) + u2(9) + u2(1) * 2 + u2(1) + u2(1) + u4(len(code) + 2 + 6 * a) + code + u2(a) + b'\0\2\0\0\0\0' * a)
        yield file([name('')], ifs=u2(a) + bytes(2 * a), fields=u2(b) + bytes(8 * b), methods=u2(a) + bytes(8 * a), attrs=u2(b) + b'\0\1\0\0\0\0' * b)
        arr = lambda k: b'[' + u2(k) + b'I\0\1' * k
        yield one('AnnotationDefault', b'[' + u2(2) + arr(a) + arr(b), 'method')
        yield one('RuntimeVisibleAnnotations', u2(2) + b'\0\1' + u2(a) + b'\0\1I\0\1' * a + b'\0\1' + u2(b) + b'\0\1I\0\1' * b)
        lv = lambda k: b'\x40' + u2(k) + bytes(6 * k) + b'\xff' + bytes(510) + b'\0\1\0\0'
        yield one('RuntimeVisibleTypeAnnotations', u2(2) + lv(a) + lv(b), 'code')
        w = [(k, w) for k, w in list(TABLES.items()) + [(x, 2) for x in LISTS]]
        yield file([name(k) for k, _ in w], attrs=u2(2 * len(w)) + b''.join(u2(i + 1) + u4(2 + v * x) + u2(x) + bytes(v * x) for i, (_, v) in enumerate(w) for x in (a, b)))
    yield one('RuntimeVisibleParameterAnnotations', b'\xff' + (u2(300) + b'\0\1\0\0' * 300) * 255, 'method')

def filled(g, k):
    """content of an attribute that is not empty where it need not be"""
    for _ in range(20):
        c = g.content(k, 9)
        if c.strip(b'\0') and len(c) < 160: return c
    return c

def sink(r, focus, version, flags, big=None):
    """every kind of constant, attribute (everywhere) and instruction in one file, after
    something big: a pool, a method body, a list"""
    g = Gen(r, focus)
    g.mode, g.same = 'any', 0
    p = g.pool
    if big == 'pool':
        for i in range(33000): p.add(b'\3' + u4(i))
    if big == 'wide':
        for i in range(25000): p.add(b'\6' + u4(7) + u4(i))
    for t in (1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 18, 19, 20):
        w = {5: 8, 6: 8, 3: 4, 4: 4, 9: 4, 10: 4, 11: 4, 12: 4, 18: 4}.get(t, 2)
        p.add(name('t') if t == 1 else u1(t) + (u1(r.randint(1, 9)) if t == 15 else b'') + r.randbytes(w))
    def attrs(kinds):
        out = []
        kinds = list(kinds)
        if r.random() < .4 and len(kinds) > 1:
            # attributes more than once, next to each other and apart, the same and not
            kinds = [x for k in kinds for x in [k] * r.choice([1, 1, 2])] + r.sample(kinds, 3)
            if r.random() < .5: r.shuffle(kinds)
        for k in kinds:
            if out and out[-1][:2] == u2(p.name(k)) and r.random() < .4:
                out.append(out[-1])
                continue
            if k == 'Code':
                code = b''.join(bytes([x]) for x in NOARG) + b''.join(bytes([x]) + r.randbytes(1) for x in ONE) + b''.join(bytes([x]) + r.randbytes(2) for x in TWO) \
                       + b''.join(bytes([x]) + r.randbytes(4) for x in FOUR) + b'\xb9\1\2\3\0\xba\1\2\0\0\xc5\1\2\3\xbc\4'
                code += b''.join(bytes([196, x]) + r.randbytes(4 if x == 132 else 2) for x in (21, 22, 23, 24, 25, 54, 55, 56, 57, 58, 169, 132))
                if big == 'code': code += b'\xaa' + bytes(3 - len(code) % 4) + u4(0) + u4(-3) + u4(7996) + r.randbytes(32000)
                if big == 'codes': code += b'\xab' + bytes(3 - len(code) % 4) + u4(0) + u4(8000) + b''.join(u4(i) + r.randbytes(4) for i in range(8000))
                c = r.randbytes(4) + u4(len(code)) + code + u2(1) + r.randbytes(8) + attrs([x for x in KINDS if x != 'Code'])
            else: c = r.randbytes(70000) if k == 'Unk' and big == 'attr' else filled(g, k)
            out.append(u2(p.name(k)) + u4(len(c)) + c)
        return u2(len(out)) + b''.join(out)
    some = [x for x in KINDS if x != 'Code']
    m = lambda f, k: u2(f) + r.randbytes(4) + attrs(k)
    k = 40000 if big == 'list' else 2
    tail = u2(flags) + r.randbytes(4) + u2(k) + r.randbytes(2 * k) + u2(2) + m(flags ^ 0xffff, some) + m(flags, []) + u2(2) + m(flags, ['Code'] + some) + m(0x0500, ['Code']) + attrs(some)
    return HEADER[:4] + u2(version[0]) + u2(version[1]) + p.bytes() + tail

def sinks(focus, deep):
    r = random.Random('sinks/' + focus)
    majors = list(range(43, 72)) if deep else [44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 60, 61, 66]
    vs = [(0, x) for x in majors] + [(65535, 56), (3, 45), (1, 52), (65535, 65535), (0, 0), (65535, 61)]
    fl = [0, 0xffff] + [1 << i for i in range(16)] + [0x8000, 0x0600, 0x2600, 0x4030, 0x1000]
    r.shuffle(fl)
    out = [sink(r, focus, v, fl[i % len(fl)]) for i, v in enumerate(vs)]
    return out + [sink(r, focus, (0, r.choice([50, 52, 53, 55])), r.choice(fl), b) for b in ('pool', 'wide', 'code', 'codes', 'list', 'attr')]

def near_names():
    """attributes with nearly the name of a predefined one, and content that would do for it"""
    r = random.Random('near')
    out = []
    for k in KINDS:
        g = Gen(r, 'C07')
        g.mode, g.same = 'any', 0
        names = [k + ' ', ' ' + k, k + '\0', '\0' + k, k + '\n', '\t' + k, k.lower(), k.upper(), k[:-1], k[1:], k + 's', k + 'x', k + ';', k + '/', '/' + k, k + k, k[0] + '_' + k[1:], 'java/lang/' + k,
                 k.replace('Visible', ''), k.replace('Runtime', ''), k.swapcase(), k + '\ufeff', '\ufeff' + k, k.replace('a', '\u0430'), k.replace('e', 'e\u0301'), k + '2', k[:len(k) // 2], k[::-1], '\u200b' + k,
                 k + '\u00a0', ''.join(chr(0xfee0 + ord(x)) for x in k)]
        c = b'' if k == 'Code' else filled(g, k)
        if k == 'Code': c = b'\0\1\0\1\0\0\0\1\xb1\0\0\0\0'
        items = [name(x) for x in names] + [name(k)]
        a = lambda i: u2(i) + u4(len(c)) + c
        l = [a(i + 1) for i in range(len(items))]
        out.append(file(items, u2(len(l)) + b''.join(l)))
    return out

def limits(focus, deep):
    """sizes around the limits of the counts; `deep`: the costly ones too"""
    r = random.Random('limits/' + focus)
    rb = lambda n: r.randbytes(n)
    out = []
    mids = [127, 128, 255, 256, 257]
    tops = [32767, 32768, 65535] if deep else [65535]
    if focus in ('C01', 'C02', 'C03'):
        out.append(file([b'\3' + u4(i) for i in range(65534)]))
        out.append(file([b'\3' + u4(7)] * 300))
        # repeats, close to each other and far apart, all over large pools
        out.append(file([b'\3' + u4(7)] * 65534))
        out.append(file([b'\3' + u4(i % 5003) for i in range(65534)]))
        ks = [b'\3' + u4(3), b'\5' + rb(8), b'\7\0\1', utf(b'a'), b'\6' + rb(8), b'\x0c\0\1\0\2', b'\x0f\1\0\1', utf(b'')]
        out.append(file([r.choice(ks) if r.random() < .5 else ks[i * 8 // 40000] for i in range(40000)]))
        out.append(file([b'\5' + rb(8) for i in range(32767)]))
        out.append(file([b'\5' + rb(8)] * 130 + [b'\7\0\1'] * 130))
        out.append(file([(b'\5' + rb(8)) if i % 3 == 0 else b'\7' + rb(2) for i in range(400)]))
        out.append(file([b'\3' + u4(i) for i in range(1000)], count=65535))
        out.append(file([b'\3' + u4(i) for i in range(65533)] + [b'\6' + rb(8)], count=65535))
        out.append(file([b'\3' + u4(i) for i in range(65532)] + [b'\6' + rb(8)]))
    if focus == 'C03':
        for t in [x for x in range(256) if x not in (1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 18, 19, 20)]:
            for w in (0, 1, 2, 3, 4, 5, 8): out.append(file([u1(t) + b'\0\1\0\1\0\0\0\1'[:w]]))
            out.append(file([b'\5' + rb(8), u1(t) + u2(1) + u2(1), b'\7\0\1']))
        for k in range(256): out.append(file([b'\x0f' + u1(k) + b'\0\1', b'\7\0\1']))
        edges = lambda w: [((s << k) + d) % (1 << 8 * w) for k in range(8 * w) for s in (1, -1) for d in (-1, 0, 1)]
        for t in (3, 4): out.append(file([u1(t) + x for x in [n.to_bytes(4, 'big') for n in edges(4)] + [rb(4) for _ in range(400)]]))
        for t in (5, 6): out.append(file([u1(t) + x for x in [n.to_bytes(8, 'big') for n in edges(8)] + [rb(8) for _ in range(400)]]))
    if focus in ('C01', 'C04'):
        for c in 'a\x80\u07ff\u0800\uffff\U00010000\U0010ffff\0':
            e = mutf8(c)
            for n in ([65535 // len(e)] if not deep else [65535 // len(e), 300]):
                out.append(file([utf(e * n)]))
                out.append(file([utf((e * n)[:-1])]))
        if focus == 'C04':
            out.append(file([utf(mutf8(t)) for t in texts()]))
            for t in texts(): out.append(one('SourceDebugExtension', mutf8(t)))
            cs = [x for x in range(0x110000) if not 0xd800 <= x < 0xe000]
            step = 1 if deep else 23
            off = r.randrange(step)
            cs = cs[off::step]
            for i in range(0, len(cs), 9000):
                out.append(file([utf(mutf8(''.join(map(chr, cs[i:i + 9000]))))]))
            for n in mids + [1000]:
                out.append(one('SourceDebugExtension', mutf8('é' * n)))
            out.append(one('SourceDebugExtension', b'x' * 70000))
    if focus == 'C04': out += placed(deep) + letters(deep)
    if focus in ('C02', 'C03', 'C04'): out += alike()
    if focus in ('C07', 'C08', 'C11', 'C13'): out += related(focus, r)
    if focus == 'C01': out += fat()
    if focus == 'C01': out += placed(False)
    if focus == 'C23': out += flag_words(deep)
    if focus in ('C07', 'C23'): out += first_flags()
    out += sweeps(focus, r, deep)
    if focus in ('C05', 'C23', 'C07'): out += [named(t) for t in SPECIAL[:25] + KINDS[:4] + ['\u00e9', 'a' * 300]]
    if focus in ('C06', 'C07'): out += near_names()
    out += neighbours(focus, r)
    out += twins(focus, r)
    if focus in ('C08', 'C09'): out += bodies(r)
    if focus not in ('C04', 'C14'): out += sinks(focus, deep)
    if focus in ('C01', 'C05'):
        for n in mids + tops:
            out.append(file([name('Foo')], ifs=u2(n) + rb(2 * n)))
        for n in mids + ([4000, 65535] if deep else [4000]):
            out.append(file([name('Foo')], fields=u2(n) + b''.join(rb(6) + b'\0\0' for _ in range(n))))
            out.append(file([name('Foo')], methods=u2(n) + b''.join(rb(6) + b'\0\0' for _ in range(n))))
            out.append(file([name('Foo')], attrs=u2(n) + b'\0\1\0\0\0\0' * n))
            out.append(file([name('Foo')], fields=u2(1) + rb(6) + u2(n) + b'\0\1\0\0\0\1\7' * n))
    if focus in ('C01', 'C06'):
        for n in mids + [65535, 65536, 65537, 100000, 2 ** 20 + 5] + ([2 ** 24 + 3] if deep else []):
            out.append(one('Foo', rb(n), r.choice(['class', 'code', 'field', 'method'])))
    if focus in ('C01', 'C07'):
        for k, w in list(TABLES.items()) + [(x, 2) for x in LISTS]:
            for n in mids + tops:
                out.append(one(k, u2(n) + rb(w * n), r.choice(['class', 'code'])))
        for n in range(0, 256, 1 if focus == 'C07' else 15):
            out.append(one('MethodParameters', u1(n) + rb(4 * n), 'method'))
        for n in mids + [3000]:
            out.append(one('BootstrapMethods', u2(n) + b''.join(rb(2) + u2(i % 3) + rb(2 * (i % 3)) for i in range(n))))
            out.append(one('BootstrapMethods', u2(1) + rb(2) + u2(n) + rb(2 * n)))
            for where in range(5):
                parts = [u2(0)] * 5
                parts[where] = {0: u2(n) + rb(6 * n), 1: u2(n) + b''.join(rb(4) + u2(i % 3) + rb(2 * (i % 3)) for i in range(n)),
                                2: u2(n) + b''.join(rb(4) + u2(i % 3) + rb(2 * (i % 3)) for i in range(n)), 3: u2(n) + rb(2 * n),
                                4: u2(n) + b''.join(rb(2) + u2(i % 3) + rb(2 * (i % 3)) for i in range(n))}[where]
                out.append(one('Module', rb(6) + b''.join(parts)))
                if where in (1, 2): parts[where] = u2(1) + rb(4) + u2(n) + rb(2 * n)
                if where == 4: parts[where] = u2(1) + rb(2) + u2(n) + rb(2 * n)
                out.append(one('Module', rb(6) + b''.join(parts)))
    if focus in ('C01', 'C08', 'C09'):
        for n in mids + [32767, 32768, 65535, 65536, 65540, 70001]:
            out.append(method(b'\0' * (n - 1) + b'\xb1'))
        for n in mids + tops:
            c = b'\0\1\0\1\0\0\0\1\xb1' + u2(n) + rb(8 * n) + b'\0\0'
            out.append(one('Code', c, 'method'))
    if focus in ('C08', 'C09'):
        g = Gen(r, focus)
        for n in (2000, 60000 if deep else 20000):
            b = b''
            while len(b) < n: b += g.insn(len(b))
            out.append(method(b[:65535]))
    if focus in ('C01', 'C10'):
        for a in range(4):
            for n in mids + [4000, 16000]:
                lo = r.randint(-2 ** 31, 2 ** 31 - n)
                b = b'\0' * a + b'\xaa' + rb(3 - a) + rb(4) + u4(lo) + u4(lo + n - 1) + rb(4 * n) + b'\xb1'
                out.append(method(b))
                ks = sorted(r.sample(range(-10 ** 6, 10 ** 6), n // 2))
                b = b'\0' * a + b'\xab' + rb(3 - a) + rb(4) + u4(len(ks)) + b''.join(u4(k) + rb(4) for k in ks) + b'\xb1'
                out.append(method(b))
        for a in (253, 254, 255, 256, 257, 258, 259, 65500, 65501, 65502, 65503):
            for b in (b'\xaa' + rb(3 - a % 4) + rb(4) + u4(5) + u4(6) + rb(8), b'\xab' + rb(3 - a % 4) + rb(4) + u4(1) + u4(9) + rb(4)):
                out.append(method(b'\0' * a + b + b'\xb1'))
    if focus in ('C01', 'C11'):
        for n in mids + tops:
            out.append(one('StackMapTable', u2(n) + bytes(i % 64 for i in range(n)), 'code'))
        for n in mids + ([65535] if deep else [3000]):
            out.append(one('StackMapTable', u2(1) + b'\xff\0\1' + u2(n) + bytes(i % 7 for i in range(n)) + u2(n) + b'\7\0\1' * n, 'code'))
    if focus in ('C01', 'C12'):
        for n in mids + ([65535] if deep else [3000]):
            out.append(one('AnnotationDefault', b'[' + u2(n) + b''.join(b'I' + u2(i) for i in range(n)), 'method'))
            out.append(one('RuntimeVisibleAnnotations', u2(1) + b'\0\5' + u2(n) + b''.join(u2(i) + b'Z' + rb(2) for i in range(n))))
            out.append(one('RuntimeInvisibleAnnotations', u2(n) + b'\0\5\0\0' * n))
        for n in (127, 128, 254, 255):
            out.append(one('RuntimeVisibleParameterAnnotations', u1(n) + b'\0\0' * n, 'method'))
            out.append(one('RuntimeInvisibleParameterAnnotations', u1(n) + b''.join(u2(i % 2) + b'\0\6\0\0' * (i % 2) for i in range(n)), 'method'))
    if focus in ('C01', 'C13'):
        for n in mids + ([10000, 10922] if deep else [3000]):
            for t in (64, 65):
                out.append(one('RuntimeVisibleTypeAnnotations', u2(1) + u1(t) + u2(n) + rb(6 * n) + b'\0\0\5\0\0', 'code'))
            out.append(one('RuntimeInvisibleTypeAnnotations', u2(n) + b'\x13\0\0\5\0\0' * n))
        for n in (127, 128, 254, 255):
            out.append(one('RuntimeVisibleTypeAnnotations', u2(1) + b'\x13' + u1(n) + bytes(x for i in range(n) for x in (i % 4, (i * 37) % 256)) + b'\0\5\0\0'))
    if focus == 'C14':
        full = [one('Foo', rb(300), 'code'), method(b'\0' * 300), file([utf(mutf8('é€😀' * 20)), b'\5' + rb(8)]),
                one('InnerClasses', u2(40) + rb(320)), file([b'\3' + rb(4)] * 60)]
        for f in full:
            out += [f[:k] for k in range(len(f) + 1)]
        # files of every flavour, cut after the constants
        flavours = [1 << i for i in range(16)] + [0, 0x21, 0x31, 0x8001, 0x8020, 0x9000, 0x1200, 0x600, 0x2600, 0x4030, 0x4010, 0xffff]
        for i, f in enumerate(flavours):
            items = [name('A'), b'\7\0\1', name(KINDS[i % len(KINDS)]), name('Synthetic')]
            for k in range(8):
                v = VERSIONS[(i + k) % len(VERSIONS)]
                some = lambda bit, x: u2(1) + x if k & bit else u2(0)
                mem = u2(9) + u2(1) * 2 + u2(1) + u2(4) + u4(0)
                tail = u2(f) + u2(r.choice([0, 2])) + u2(r.choice([0, 2])) + some(1, u2(2)) + some(2, mem) + some(4, mem) + u2(2) + (u2(4) + u4(0)) * 2
                head = HEADER[:4] + u2(v[0]) + u2(v[1]) + u2(5) + b''.join(items)
                for j in range(len(tail)): out.append(head + tail[:j])
                out += [head + tail, head[:-1], head]
    if focus in ('C01', 'C12', 'C13'):
        for k in ('a', 'n', 'an'):
            for n in [1, 10, 20, 22]:
                out.append(one('AnnotationDefault', nest_values(n, k), 'method'))
                out.append(one('RuntimeVisibleTypeAnnotations', b'\0\1\x13\0\0\5\0\1\0\6' + nest_values(n, k)))
    if focus in ('C01', 'C10', 'C15'):
        # switches claiming more than there is
        for n in (0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 0x40000000, 0x20000000, 0x10000000, 0x1000000, 100000, 70000, 2):
            for low in (0, -1, 1, -2 ** 31, 5):
                for tail in (b'', b'\0' * 4, b'\0' * 12):
                    out.append(method(b'\xaa\0\0\0' + b'\0' * 4 + u4(low) + u4(low + n) + tail))
            for tail in (b'', b'\0' * 4, b'\0' * 8, b'\0' * 12):
                out.append(method(b'\xab\0\0\0' + b'\0' * 4 + u4(n) + tail))
    if focus == 'C15':
        # details that need more than one byte
        for n in mids + ([300, 4096, 32767, 32768, 40000, 65000, 65530] if deep else [4096, r.randint(32768, 65530)]):
            for b in (b'\xcb', b'\xfd', b'\xc4\0', b'\xc4\x84', b'\xbc\3', b'\xbc\x0c', b'\xaa' + b'\0' * (3 - n % 4) + u4(9) + u4(2) + u4(1), b'\x11'):
                out.append(method(b'\0' * n + b + (b'\0' if len(b) == 1 and b[0] != 0x11 else b'')))
            for t in (0, 2, 13, 17, 255): out.append(file([b'\7\0\1'] * n + [u1(t) + b'\0\0']))
            out.append(file([b'\5' + rb(8)] * (n // 2) + [b'\x0f\0\0\1']))
            out.append(file([name('Foo')] + [b'\7\0\1'] * n, attrs=b'\0\1' + u2(n) + b'\0\0\0\0'))
            out.append(file([name('Foo')], attrs=b'\0\1' + u2(n) + b'\0\0\0\0'))
    if focus == 'C01':
        # far beyond what a stack can take
        for k in ('a', 'n', 'an'):
            for n in [49, 100, 127, 128, 129, 200, 1000, 20000, 200000]:
                out.append(one('AnnotationDefault', nest_values(n, k), 'method'))
            out.append(one('RuntimeVisibleAnnotations', b'\0\1\0\5\0\1\0\6' + nest_values(100000, k)))
            out.append(one('RuntimeInvisibleParameterAnnotations', b'\1\0\1\0\5\0\1\0\6' + nest_values(100000, k), 'method'))
            out.append(one('RuntimeVisibleTypeAnnotations', b'\0\1\x13\0\0\5\0\1\0\6' + nest_values(100000, k)))
        for n in [1, 5, 10, 60, 128, 500, 3000]: out.append(nest_code(n))
        for n in [1, 5, 60, 120, 3000]: out.append(nest_code(n, 65535))
        for n in [40, 60, 100, 120, 130]:
            out.append(one('AnnotationDefault', b'[\xff\xff' * n, 'method'))
            out.append(one('AnnotationDefault', b'@\0\1\xff\xff\0\2' * n, 'method'))
            out.append(one('AnnotationDefault', b'@\0\1\xff\xff\0\2[\xff\xff' * (n // 2), 'method'))
        # claims without content
        for k in KINDS:
            for c in (b'\xff' * 2, b'\xff' * 4, b'\xff' * 12, b'[\xff\xff' * 40, b'\xff\xff\0\0' * 40, b'\0\1\0\1\xff\xff\xff\xff\xaa\0\0\0\0',
                      b'\0\1\xff\xff\0\1\xff\xff' * 10):
                out.append(one(k, c))
        for n in (65535, 3000):
            out.append(one('BootstrapMethods', u2(n) + b'\0\1\0\0' * n))
            out.append(one('RuntimeVisibleAnnotations', u2(1) + b'\0\5\xff\xff' + b'\0\1[\xff\xff' * 1000))
        out.append(file([name('Foo')], attrs=b'\xff\xff'))
        out.append(file([name('Foo')], methods=b'\xff\xff' + b'\0\1\0\1\0\1\xff\xff\0\1\0\0\0\0'))
    return out

def prebuilt(focus, seed, n):
    """class files made by a Java compiler, as found in the repository and the JDK"""
    out = []
    for f in sorted(glob.glob('/repo/examples/resources/*.class')):
        out.append(open(f, 'rb').read())
    mods = sorted(glob.glob('/usr/lib/jvm/*/jmods/java.base.jmod')) + sorted(glob.glob('/usr/lib/jvm/*/jmods/java.logging.jmod'))
    r = random.Random('jdk/%s/%s' % (focus, seed))
    for m in mods[:1] + mods[-1:]:
        try:
            z = zipfile.ZipFile(m)
            names = [i for i in z.infolist() if i.filename.endswith('.class') and i.file_size < (12000 if n < 100 else 60000)]
            info = [i for i in names if i.filename.endswith('module-info.class')]
            for i in info + r.sample(names, min(n, len(names))):
                out.append(z.read(i))
        except Exception:
            pass
    return out
