"""Checks of the constant pool as a data structure (C16 to C19): exhaustive push
histories of MC_ConstPool replayed in the real pool, longer random histories and parsed
pools, all judged by TraceConstPool."""
import json, os, random, re
from gen import u1, u2, u4, utf, mutf8, HEADER, ALIKE, SPECIAL
from check import ToolError, log

MC = '''SPECIFICATION Spec
CONSTANTS
  Depth = %d
  Bases = {%s}
  Items = {%s}
INVARIANTS Within Two NoDuplicates Idempotent Refusal IterMatches
PROPERTIES Stable
CHECK_DEADLOCK FALSE
'''
TRACE = '''SPECIFICATION Spec
CONSTANT Focus = "%s"
INVARIANTS Within Two
PROPERTIES Stable
CHECK_DEADLOCK FALSE
'''
MEANING = {'failed-start': 'an empty pool could not be made', 'cut-short': 'the history broke off',
           'wrong-push': 'a push was not answered as specified', 'wrong-fill': 'distinct constants did not get the next indices',
           'wrong-get': 'a lookup was not answered as specified', 'wrong-utf8': 'a text lookup was not answered as specified',
           'wrong-cls': 'a class name lookup was not answered as specified',
           'wrong-clso': 'an optional class name lookup was not answered as specified',
           'wrong-len': 'the length is not the specified one', 'wrong-iter': 'iteration did not yield the specified entries',
           'wrong-itsum': 'iteration did not yield the specified entries', 'wrong-eq': 'equality or hash is not the specified one'}

# the constants of MC_ConstPool
MODEL = [('C.Integer', (0, 1)), ('C.Long', (0, 0, 0, 1)), ('C.Double', (0, 0, 0, 1)), ('C.Utf8', (97,)),
         ('C.Class', (1,)), ('C.Float', (0, 1)), ('C.String', (1,)), ('C.Integer', (4096, 3))]

ONE16 = ['C.Class', 'C.String', 'C.MethodType', 'C.Module', 'C.Package']
TWO16 = ['C.FieldRef', 'C.MethodRef', 'C.InterfaceMethodRef', 'C.NameAndType', 'C.InvokeDynamic', 'C.MethodHandle']
TAG = {'C.Utf8': 1, 'C.Integer': 3, 'C.Float': 4, 'C.Long': 5, 'C.Double': 6, 'C.Class': 7, 'C.String': 8,
       'C.FieldRef': 9, 'C.MethodRef': 10, 'C.InterfaceMethodRef': 11, 'C.NameAndType': 12, 'C.MethodHandle': 15,
       'C.MethodType': 16, 'C.InvokeDynamic': 18, 'C.Module': 19, 'C.Package': 20}
FLOATS = [(0, 0), (0x8000, 0), (0x3F80, 0), (0x7F80, 0), (0xFF80, 0), (0x7FC0, 0), (0xFFC0, 0), (0x7FC0, 1), (0x7F80, 1), (0, 1), (0xFFFF, 0xFFFF)]
DOUBLES = [(0, 0, 0, 0), (0x8000, 0, 0, 0), (0x3FF0, 0, 0, 0), (0x7FF0, 0, 0, 0), (0xFFF0, 0, 0, 0), (0x7FF8, 0, 0, 0), (0xFFF8, 0, 0, 0),
           (0x7FF8, 0, 0, 1), (0x7FF0, 0, 0, 1), (0, 0, 0, 1), (0xFFFF,) * 4]
INTS = [(0, 0), (0, 1), (0x3F80, 0), (0x8000, 0), (0x7FFF, 0xFFFF), (0xFFFF, 0xFFFF)]
LONGS = [(0, 0, 0, 0), (0, 0, 0, 1), (0, 1, 0, 0), (0x3FF0, 0, 0, 0), (0x8000, 0, 0, 0), (0x7FFF, 0xFFFF, 0xFFFF, 0xFFFF), (0xFFFF,) * 4,
         (0, 0, 0xFFFF, 0xFFFF), (1, 0, 0, 1)]
TEXTS = [(), (0,), (97,), (97, 98), (98, 97), (65,), (0xE9,), (0x20AC,), (0x1F600,), (97, 0), (97, 0, 98)]

def catalogue():
    """constants of every kind with payloads that collide across kinds"""
    l = [('C.Utf8', t) for t in TEXTS] + [('C.Integer', v) for v in INTS] + [('C.Float', v) for v in FLOATS]
    l += [('C.Long', v) for v in LONGS] + [('C.Double', v) for v in DOUBLES]
    l += [(k, (v,)) for k in ONE16 for v in (0, 1, 256, 65535)]
    for k in TWO16:
        pairs = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 256), (9, 65535), (6, 1), (7, 1), (8, 0)] if k == 'C.MethodHandle' else \
                [(1, 1), (1, 2), (2, 1), (0, 1), (1, 0), (256, 1), (1, 256), (65535, 65535)]
        l += [(k, p) for p in pairs]
    return l

def random_item(r, near=None):
    if near and r.random() < .35: return r.choice(near)
    k = r.choice(sorted(TAG))
    if k == 'C.Utf8':
        return k, tuple(r.choice([0, 1, 47, 59, 65, 97, 98, 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF])
                        for _ in range(r.choice([0, 1, 1, 2, 3, 8])))
    if k in ('C.Integer', 'C.Float'): return k, r.choice(INTS + FLOATS)
    if k in ('C.Long', 'C.Double'): return k, r.choice(LONGS + DOUBLES)
    if k in ONE16: return k, (r.choice([0, 1, 2, 3, r.randrange(65536)]),)
    if k == 'C.MethodHandle': return k, (r.randint(1, 9), r.choice([0, 1, 2, r.randrange(65536)]))
    return k, (r.choice([0, 1, 2, r.randrange(65536)]), r.choice([0, 1, 2, r.randrange(65536)]))

def width(x): return 2 if x[0] in ('C.Long', 'C.Double') else 1

def encode(x):
    k, v = x
    if k == 'C.Utf8': return utf(mutf8(''.join(map(chr, v))))
    if k == 'C.MethodHandle': return u1(15) + u1(v[0]) + u2(v[1])
    return u1(TAG[k]) + b''.join(u2(n) for n in v)

def class_file(items):
    """a class whose pool starts with text "A" and its class entry, followed by the items"""
    items = [('C.Utf8', (65,)), ('C.Class', (1,))] + list(items)
    n = 1 + sum(width(x) for x in items)
    slots = []
    for x in items: slots += [x] if width(x) == 1 else [x, None]
    return HEADER + u2(n) + b''.join(map(encode, items)) + u2(0x21) + u2(2) + u2(0) + bytes(8), slots

# ------------------------------------------------------------------ histories
def op_line(o):
    if o[0] == 'push': return 'push %s %s' % (o[1], ' '.join(map(str, o[2])))
    if o[0] == 'eq': return 'eq %s %s , %s %s' % (o[1], ' '.join(map(str, o[2])), o[3], ' '.join(map(str, o[4])))
    return ' '.join(map(str, o))

def op_json(o):
    d = dict(op=o[0], k='', v=[], i=0, k2='', v2=[])
    if o[0] == 'push': d.update(k=o[1], v=list(o[2]))
    elif o[0] == 'eq': d.update(k=o[1], v=list(o[2]), k2=o[3], v2=list(o[4]))
    elif len(o) > 1: d['i'] = o[1]
    return d

def push(x): return ('push',) + tuple(x)

def lookups(idx, typed=True):
    l = []
    for i in idx:
        l.append(('get', i))
        if typed: l += [('utf8', i), ('cls', i), ('clso', i)]
    return l

class History:
    def __init__(self, init, ops, slots=()):
        self.init, self.ops, self.slots = init, ops, list(slots)
    def line(self, i):
        return '%d|%s|%s' % (i, self.init, '|'.join(map(op_line, self.ops)))

def replay(c, hist):
    group, size = [], 0
    for h in hist:
        group.append(h)
        size += 150 * len(h.ops) + 60 * len(h.slots)
        if size > 20000000:
            replay_group(c, group)
            group, size = [], 0
    if group: replay_group(c, group)

def replay_group(c, hist):
    lines = [h.line(i) for i, h in enumerate(hist)]
    runs = c.harness('pool', lines)
    tf = os.path.join(c.work, 'trace.ndjson')
    with open(tf, 'w') as f:
        for i, (h, o) in enumerate(zip(hist, runs)):
            res = o.get('ops') or [dict(r=o['dead'], k='', v=[], it=[])]
            d = dict(id=i, parsed=int(h.init.startswith('parse')), first=res[0]['r'], ops=[op_json(x) for x in h.ops], res=res[1:],
                     slots=[dict(k=s[0], v=list(s[1])) if s else dict(k='', v=[]) for s in h.slots])
            f.write(json.dumps(d, separators=(',', ':')) + '\n')
    out = c.tlc('TraceConstPool', TRACE % c.pid, {'TRACE': tf})
    os.remove(tf)
    seen = {}
    for l in out:
        m = re.match(r'"VERDICT (\d+) (\S+) (\d+)"$', l)
        if m: seen.setdefault(int(m.group(1)), []).append((m.group(2), int(m.group(3))))
    st = c.notes.setdefault('replayed', dict(histories=0, operations=0, skipped=0))
    for i, h in enumerate(hist):
        v = seen.get(i)
        if not v or len(v) != 1: raise ToolError('history %d has %d verdicts' % (i, len(v or [])))
        verdict, pos = v[0]
        st['histories'] += 1
        st['operations'] += pos
        if verdict == 'accept':
            c.cov['traces_validated_against_impl'] += 1
            continue
        if verdict == 'skip':
            st['skipped'] += 1
            continue
        res = runs[i].get('ops') or [dict(r=runs[i].get('dead'))]
        got = res[pos + 1] if pos + 1 < len(res) else res[-1]
        text = '%s at operation %d "%s" (answer %s) of the history %s' % (
            MEANING.get(verdict, verdict), pos + 1, op_line(h.ops[pos]) if pos < len(h.ops) else '', json.dumps(got)[:300], h.line(0)[:600])
        c.violation(verdict, verdict + ' ' + h.line(0)[:200], text,
                    'property %s\n%s\n\nReplay: write the line below to in.txt, then /verif/target/debug/jbh pool in.txt out.txt\n%s\n' % (c.pid, text, h.line(0)))
    for i in (0, len(hist) // 2):
        if len(lines[i]) < 1500: c.sample(dict(history=lines[i], real=[[x['r'], x['k'], x['v'][:4]] for x in runs[i].get('ops', [])[:20]]))

def observe(pid, n, small=True):
    """what is looked at after the pushes of a history of about n slots"""
    ends = list(range(0, n + 3)) + [65534, 65535]
    if pid == 'C16': return [('len',)] + lookups(ends, False)
    if pid == 'C17': return [('len',)] + lookups(ends, False)
    if pid == 'C18': return lookups(ends)
    return [('iter',) if small else ('itsum',)]

def model(c, depth, bases, items):
    lines = c.tlc('MC_ConstPool', MC % (depth, ', '.join(map(str, bases)), ', '.join(map(str, items))))
    out = []
    for l in lines:
        m = re.match(r'"HIST (\d+) (\[.*\])"$', l)
        if m: out.append((int(m.group(1)), json.loads(m.group(2))))
    if len(out) != len(bases) * len(items) ** depth: raise ToolError('model: %d histories' % len(out))
    c.notes.setdefault('model_histories', []).append(dict(depth=depth, bases=list(bases), constants=len(items), maximal=len(out)))
    return out

def from_model(c, hists, starts=('new',)):
    res = []
    for base, nums in hists:
        for s in starts:
            items = [MODEL[n - 1] for n in nums]
            ops = [('fill', base)] if base else []
            for x in items:
                ops.append(push(x))
                if c.pid in ('C16', 'C17'): ops.append(('len',))
                if c.pid == 'C19' and not base: ops.append(('iter',))
            if base:
                near = list(range(base - 1, min(base + 2 * len(items) + 2, 65535) + 1))
                ops += {'C16': lookups(near, False), 'C17': lookups(near + [1], False), 'C18': lookups(near + [0, 1, 65535]), 'C19': [('itsum',)]}[c.pid]
                if c.pid == 'C16': ops += [push(x) for x in items] + [push(('C.Integer', (4096, 0)))] + [('len',)] + lookups(near, False)
                if c.pid == 'C17': ops += [push(('C.Float', (9, 9))), push(('C.Double', (9, 9, 9, 9))), ('len',)] + lookups(near, False)
            else:
                ops += observe(c.pid, 2 * len(items))
                if c.pid == 'C16': ops += [push(x) for x in items] + observe(c.pid, 2 * len(items))
            res.append(History(s, ops))
    return res

def randoms(c, n, length):
    """long random histories on pools of every origin"""
    r = random.Random('%s/%d' % (c.pid, c.seed))
    cat = catalogue()
    res = []
    for j in range(n):
        start = r.choice(['new', 'cap 0', 'cap 3', 'cap 65535', 'default', 'parse', 'parse'])
        slots = []
        if start == 'parse':
            first = [r.choice(cat) if r.random() < .5 else random_item(r) for _ in range(r.choice([0, 1, 3, 10, 40]))]
            if first and r.random() < .6: first += [r.choice(first) for _ in range(r.randint(1, 4))]
            r.shuffle(first)
            b, slots = class_file(first)
            start = 'parse ' + b.hex()
            near = [x for x in slots if x]
        else: near = []
        ops, count = [], len(slots)
        if r.random() < .3: ops += observe(c.pid, min(count, 30))
        for _ in range(r.choice([0, 3, length, length])):
            q = r.random()
            if q < .7:
                x = random_item(r, near) if r.random() < .5 else r.choice(cat)
                ops.append(push(x))
                near.append(x)
                count += width(x)
            else:
                i = r.choice([0, count, count + 1, count + 2, r.randint(0, count + 1), r.randint(0, count + 1), r.randrange(65536)]) & 65535
                ops.append((r.choice(['get', 'get', 'utf8', 'cls', 'clso']), i))
        if r.random() < .3: ops.append(('len',))
        ops += observe(c.pid, min(count, 60))
        res.append(History(start, ops, slots))
    return res

def parsed(c):
    """pools read from class files: every constant kind, duplicates, then pushed to"""
    cat = catalogue()
    res = []
    for first in ([], [x for x in cat for _ in (0, 1)], cat, cat[::-1], [x for x in cat if width(x) == 2], [cat[3], cat[3], ('C.Class', (3,)), ('C.Class', (3,)), ('C.Class', (0,))]):
        b, slots = class_file(first)
        ops = observe(c.pid, len(slots))
        for x in cat: ops.append(push(x))
        ops += observe(c.pid, len(slots) + 30)
        res.append(History('parse ' + b.hex(), ops, slots))
    return res

def typed(c):
    """class entries that lead to every kind of place"""
    cat = catalogue()
    b, slots = class_file([('C.Class', (i,)) for i in range(0, 140)] + [('C.Class', (i,)) for i in (65533, 65534, 65535)] + cat)
    ops = lookups(range(0, len(slots) + 5))
    # the referenced entries may come later
    for x in [('C.Class', (len(slots) + 2,)), ('C.Utf8', (97, 98))]: ops += [push(x)] + lookups(range(len(slots) - 1, len(slots) + 6))
    # names of all kinds
    names = SPECIAL[:25] + ['[La;', '[[La/B;', '[[[I', '[', '[L', '[L;', 'L;', 'La;', 'a.b', 'a.b.C', '/a', 'a/', 'a//b', 'a/b', 'a;', ';', 'a[]', 'int', 'void', 'Z', '[Z', '[V', 'a$b', '$', 'a b', ' a', 'a ', '\t', '\0', 'a\0',
                            'null', 'None', '0', '-1', '\u00e9', 'E\u0301', '\U0001f600', '\ufeffa', 'a/b/' * 50, 'x' * 255, 'x' * 256, 'x' * 65535, 'A.class', 'a/b.class', '<T:Ljava/lang/Object;>', 'java.lang.Object', '%s', '{}', '\\']
    rows = [x for i, t in enumerate(names) for x in (('C.Utf8', tuple(map(ord, t))), ('C.Class', (3 + 2 * i,)))]
    b3, slots3 = class_file(rows)
    texts = History('parse ' + b3.hex(), lookups(range(len(slots3) + 2)), slots3)
    ops2 = []
    for i, x in enumerate(dict.fromkeys(('C.Utf8', tuple(map(ord, t))) for t in names)): ops2 += [push(x), push(('C.Class', (2 * i + 1,)))] + lookups([2 * i + 1, 2 * i + 2])
    return [texts, History('new', ops2), History('parse ' + b.hex(), ops, slots),
            History('new', [push(('C.Class', (2,)))] + lookups(range(4)) + [push(('C.Utf8', (122,)))] + lookups(range(5)) + [push(('C.Class', (0,)))] + lookups(range(6)))]

def full_parsed(c, deep):
    """parsed pools of the largest size, and just below it"""
    res = []
    for n, last in ((65534, 1), (65533, 1), (65532, 2)):
        items = [('C.Utf8', (97,))] + [('C.Integer', (4096, i)) for i in range(n - 2 - last - 1)] + [('C.Integer', (7, 7)) if last == 1 else ('C.Long', (0, 0, 0, 7))]
        b, slots = class_file(items)
        near = [0, 1, 2, 3, 4] + list(range(65526, 65536))
        new = [('C.Integer', (7, 7)), ('C.Long', (0, 0, 0, 7)), ('C.Double', (1, 1, 1, 1)), ('C.Float', (1, 1)), ('C.Double', (1, 1, 1, 1)), ('C.Utf8', (65,)), ('C.String', (5,)), ('C.Float', (1, 1))]
        ops = [('len',)] + lookups(near) + ([('itsum',)] if c.pid == 'C19' else [])
        for x in new: ops += [push(x), ('len',)]
        ops += lookups(near) + ([('itsum',)] if c.pid == 'C19' else [])
        res.append(History('parse ' + b.hex(), ops, slots))
        if not deep and c.pid in ('C16',): break
    return res

def equality(deep):
    cat = catalogue()
    ops = [('eq',) + x + y for x in cat for y in cat]
    return [History('new', ops[i:i + 1000]) for i in range(0, len(ops), 1000)]

EDGES = [0, 1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65533, 65534, 65535]

def bits(words):
    return [tuple(1 << b if i == w else 0 for i in range(words)) for w in range(words) for b in range(16)]

def edges(c):
    """constants that differ in one place only, at the edges of its range, all in one pool"""
    groups = []
    for k in TWO16:
        first = range(1, 10) if k == 'C.MethodHandle' else EDGES
        groups.append([(k, (a, 3)) for a in first] + [(k, (3, a)) for a in EDGES] + [(k, (a, a)) for a in first] + [(k, (a, b)) for a in list(first)[-4:] for b in EDGES[-4:]])
    groups.append([(k, (a,)) for a in EDGES for k in ONE16])
    groups.append([('C.Integer', b) for b in bits(2)] + [('C.Float', b) for b in bits(2)] + [('C.Float', (a, b)) for a in (0x7F80, 0x7FC0, 0xFF80, 0xFFC0, 0x8000) for b in (0, 1, 2, 0x8000)])
    groups.append([('C.Long', b) for b in bits(4)] + [('C.Double', b) for b in bits(4)]
                  + [('C.Double', (a, 0, 0, b)) for a in (0x7FF0, 0x7FF8, 0xFFF0, 0xFFF8, 0x8000) for b in (0, 1, 2)])
    long = tuple(97 + i % 26 for i in range(40))
    groups.append([('C.Utf8', long[:n]) for n in (0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 39, 40)] + [('C.Utf8', long[:n] + (64,) + long[n + 1:]) for n in range(40)]
                  + [('C.Utf8', (a,)) for a in (0, 9, 32, 65, 97, 0xC5, 0xE5, 0x212B, 0x131, 0x49, 0x69, 0xFEFF, 0xFFFD)]
                  + [('C.Utf8', t) for t in ((0x61, 0x30A), (97, 32), (32, 97), (97, 0), (0xFEFF, 97), (65, 66), (97, 98), (49,), (49, 46, 48))])
    for n, ats in ((300, (0, 63, 64, 127, 128, 254, 255, 256, 257, 299)), (1200, (511, 512, 1023, 1024, 1199)), (5000, (2048, 4095, 4096, 4999)), (65535, (32767, 32768, 65534))):
        base = tuple(97 + i * i % 25 for i in range(n))
        groups.append([('C.Utf8', base)] + [('C.Utf8', base[:a] + (65,) + base[a + 1:]) for a in ats] + [('C.Utf8', base[:-1]), ('C.Utf8', base[:n // 2])] + ([('C.Utf8', base[1:])] if n < 60000 else []))
    # what weak ways to compare or hash take for the same
    groups.append([('C.Utf8', tuple(map(ord, t))) for p in ALIKE for t in p])
    ints = [(0, 0), (0, 1), (0, 31), (0x7FFF, 0xFFFF), (1, 1), (0x3F80, 0), (0xFFFF, 0)]
    ints += [(a ^ 65535, b ^ 65535) for a, b in ints] + [(b, a) for a, b in ints]
    groups.append([(k, x) for k in ('C.Integer', 'C.Float') for x in ints] + [(k, x + y) for k in ('C.Long', 'C.Double') for x in ints[:14] for y in ints[:14]])
    groups.append([(k, x) for k in TWO16[:-1] for x in ((5, 40), (6, 9), (4, 71), (6, 39), (40, 5), (6, 43), (5, 296), (1, 2), (2, 1), (3, 3), (0, 0), (0, 3), (257, 1), (1, 257), (5, 32808), (32773, 40), (5, 41), (6, 40))])
    res = []
    for n, g in enumerate(groups):
        seen = set()
        g = [x for x in g if not (x in seen or seen.add(x))]
        size = sum(width(x) for x in g)
        ops = [push(x) for x in g] + [('len',)] + [push(x) for x in reversed(g)] + [('len',)]
        ops += lookups(range(size + 2), c.pid == 'C18') if c.pid != 'C19' else [('iter',)]
        res.append(History('new', ops))
        b, slots = class_file(g)
        ops = [push(x) for x in g + g[::-1]] + [('len',)] + (lookups(range(size + 4), c.pid == 'C18') if c.pid != 'C19' else [('iter',)])
        res.append(History('parse ' + b.hex(), ops, slots))
        if c.pid == 'C16':
            near = [('eq',) + x + y for x, y in zip(g, g[1:])] + [('eq',) + g[0] + y for y in g] + [('eq',) + g[-1] + y for y in g]
            if sum(len(x[1]) for x in g) < 10000: near += [('eq',) + x + (x[0], y[1]) for x in g for y in g[::7] if x[0] == y[0]]
            res += [History('new', near[i:i + 1000]) for i in range(0, len(near), 1000)]
    return res

def sweep(c):
    """every one of the 65536 indices on three pools"""
    cat = catalogue()
    b, slots = class_file(cat)
    typ = lookups(range(65536), False)
    hs = []
    for lo in range(0, 65536, 8192):
        hs.append(History('parse ' + b.hex(), [(k, i) for i in range(lo, lo + 8192) for k in ('get', 'clso')], slots))
        hs.append(History('new', [('fill', 65534)] + [('get', i) for i in range(lo, lo + 8192)]))
    return hs

def churn(c, n):
    """fill up with ones and twos in random order until nothing fits, twice over"""
    r = random.Random('churn/%s/%d' % (c.pid, c.seed))
    res = []
    for _ in range(n):
        base = r.randint(65500, 65530) if r.random() < .6 else r.choice([0, 1, 100, 126, 127, 250, 254, 255, 256, 4090, 16380, 32760, 32766, 32767, 60000])
        ops = [('fill', base)]
        j = 0
        for _ in range(60):
            if r.random() < .2: x = ('C.Integer', (4096, r.randrange(base + 1)))
            else:
                x = (r.choice(['C.Integer', 'C.Long', 'C.Double', 'C.Float', 'C.Class']), None)
                v = r.randint(0, 30)
                x = (x[0], (v,) if x[0] == 'C.Class' else (1, v) if width(x) == 1 else (0, 0, 0, v))
            ops.append(push(x))
            if r.random() < .3: ops.append(('len',))
        near = [0, 1, base, base + 1] + list(range(65490, 65536)) + list(range(base + 2, base + 100))
        near = [x for x in near if x < 65536]
        ops += [('itsum',)] if c.pid == 'C19' else lookups(near, c.pid == 'C18')
        ops.append(('len',))
        res.append(History(r.choice(['new', 'default', 'cap 65535', 'cap 10']), ops))
    return res

def long_ones(c, n, length):
    """long histories without fillers: pools of some hundred entries of all kinds"""
    r = random.Random('long/%s/%d' % (c.pid, c.seed))
    res = []
    for k in range(n):
        ops, seen, slots = [], [], 0
        for i in range(length):
            if seen and r.random() < .1: x = r.choice(seen[-40:] + seen[:40])
            else:
                kind = r.choice(['C.Integer', 'C.Long', 'C.Double', 'C.Utf8', 'C.Class', 'C.NameAndType', 'C.Float'])
                x = (kind, {'C.Integer': (1, i), 'C.Float': (2, i), 'C.Long': (0, 0, i, 0), 'C.Double': (i, 0, 0, 0), 'C.Class': (i,), 'C.NameAndType': (i, i // 2),
                            'C.Utf8': tuple(97 + (i >> s & 7) for s in (0, 3, 6, 9))}[kind])
            seen.append(x)
            ops.append(push(x))
        ends = [0, 1, 2, 3, 126, 127, 128, 129, 254, 255, 256, 257] + [r.randrange(2 * length) for _ in range(100)]
        ops += [('len',)] + ([('iter',), ('itsum',)] if c.pid == 'C19' else lookups(ends, c.pid == 'C18'))
        res.append(History(r.choice(['new', 'default', 'cap 7']), ops))
    return res

def run(c):
    deep = c.deep
    hs = from_model(c, model(c, 5 if deep else 4, [0], [1, 2, 3, 4, 5, 6, 7] if deep else [1, 2, 3, 4, 5]), ('new', 'default', 'cap 2') if deep else ('new', 'default'))
    hs += from_model(c, model(c, 5 if deep else 3, [65529, 65530, 65531, 65532, 65533, 65534] if deep else [65531, 65532, 65533, 65534], [1, 2, 4, 8] if deep else [1, 2, 8]))
    hs += parsed(c) + full_parsed(c, deep)
    hs += randoms(c, 6000 if deep else 300, 60 if deep else 40)
    if c.pid == 'C16': hs += equality(deep)
    if c.pid == 'C17': hs += churn(c, 400 if deep else 24)
    if c.pid == 'C18': hs += typed(c) + (sweep(c) if deep else sweep(c)[:4] + sweep(c)[-2:])
    if c.pid == 'C19': hs += churn(c, 200 if deep else 10) + [History('new', [('fill', n), ('iter',) if n < 100 else ('itsum',)]) for n in (0, 1, 2, 99, 65533, 65534)]
    hs += edges(c)
    hs += long_ones(c, 6 if deep else 1, 900 if deep else 500)
    replay(c, hs)

CHECKS = {p: run for p in ('C16', 'C17', 'C18', 'C19')}
