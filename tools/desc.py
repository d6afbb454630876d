"""Checks of descriptors (C20 to C22): every short text over small alphabets from
MC_Descriptor, longer generated texts and values, run through the real parser and
printer and judged by TraceDescriptor."""
import json, os, random, re
import gen
from check import ToolError, log

MC = '''SPECIFICATION Spec
CONSTANTS
  Kind = "%s"
  Alphabet = {%s}
  MaxText = %d
  Lead = "%s"
INVARIANTS RoundTrip Shape Runs
PROPERTIES Final
CHECK_DEADLOCK FALSE
'''
TRACE = '''SPECIFICATION Spec
CONSTANT Judged = "%s"
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
'''
MEANING = {'crash': 'it panicked, died or failed with an error of another kind', 'wrong-print': 'the printed text is not the specified one',
           'bad-value': 'the printed value does not read back', 'refused': 'a descriptor of the grammar was refused',
           'wrong-meaning': 'the descriptor was parsed to another value', 'accepted': 'a text outside the grammar was accepted',
           'wrong-error': 'the error does not carry the offending text'}
PRIMS = [ord(x) for x in 'BCDFIJSZ']
ODD = [0, 1, 32, 36, 40, 41, 46, 47, 59, 60, 62, 76, 86, 91, 93, 97, 0x7F, 0x80, 0xE9, 0x3B1, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFF1B,
       0xFF3B, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF]
NAMES = [x for x in ODD if x != 59]

def T(r, top=255):
    """a random type, as its parts"""
    d = r.choice([0, 0, 0, 1, 2, 3, 10, top])
    if r.random() < .5: return [d, r.choice(PRIMS)]
    n = r.choice([1, 1, 2, 3, 5, 16, 40])
    return [d, 76] + [r.choice(NAMES) if r.random() < .4 else r.choice([97, 98, 47, 73, 76, 86]) for _ in range(n)]

def text(p):
    if not p: return [86]
    return [91] * p[0] + [p[1]] + (p[2:] + [59] if p[1] == 76 else [])

def method(r):
    n = r.choice([0, 0, 1, 2, 3, 5, 8])
    parts = [T(r, 20) for _ in range(n)] + [[] if r.random() < .4 else T(r)]
    return parts

def mtext(parts):
    return [40] + [c for p in parts[:-1] for c in text(p)] + [41] + text(parts[-1])

def damage(r, t):
    t = list(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(5)
        if k == 0 or not t: t.insert(r.randint(0, len(t)), r.choice(ODD + PRIMS))
        elif k == 1: del t[r.randrange(len(t))]
        elif k == 2: t[r.randrange(len(t))] = r.choice(ODD + PRIMS)
        elif k == 3: t = t[:r.randint(0, len(t))]
        else:
            i, j = r.randrange(len(t)), r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
    return t

def line(i, k, x):
    if k in 'TM': return '%d|%s|%s' % (i, k, ' '.join(map(str, x)))
    f = lambda p: ' '.join(map(str, p)) if p else 'V'
    return '%d|%s|%s' % (i, k, ';'.join(f(p) for p in x))

def judge(c, judged, cases):
    group, size = [], 0
    for x in cases:
        group.append(x)
        size += 30 + (len(x[1]) if x[0] in 'TM' else sum(p[0] + len(p) for p in x[1] if p))
        if size > 2000000:
            judge_group(c, judged, group)
            group, size = [], 0
    if group: judge_group(c, judged, group)

def judge_group(c, judged, cases):
    lines = [line(i, k, x) for i, (k, x) in enumerate(cases)]
    runs = c.harness('desc', lines)
    tf = os.path.join(c.work, 'trace.ndjson')
    with open(tf, 'w') as f:
        for i, ((k, x), o) in enumerate(zip(cases, runs)):
            if 'dead' in o: o = runs[i] = dict(r=o['dead'], p=[], disp=[], again=0, desc=[], at=-1)
            d = dict(o, id=i, kind=k, t=list(x) if k in 'TM' else [], parts=[] if k in 'TM' else [list(p) for p in x])
            f.write(json.dumps(d, separators=(',', ':')) + '\n')
    out = c.tlc('TraceDescriptor', TRACE % judged, {'TRACE': tf})
    os.remove(tf)
    seen = {}
    for l in out:
        m = re.match(r'"VERDICT (\d+) (\S+) (\w+)"$', l)
        if m: seen.setdefault(int(m.group(1)), []).append((m.group(2), m.group(3)))
    st = c.notes.setdefault('replayed', dict(texts=0, values=0, accepted=0, refused=0))
    for i, (k, x) in enumerate(cases):
        v = seen.get(i)
        if not v or len(v) != 1: raise ToolError('case %d has %d verdicts' % (i, len(v or [])))
        verdict, mode = v[0]
        st['texts' if k in 'TM' else 'values'] += 1
        st['accepted'] += runs[i]['r'] == 'ok'
        st['refused'] += runs[i]['r'] == 'err'
        if verdict == 'accept':
            c.cov['traces_validated_against_impl'] += 1
            continue
        shown = json.dumps(''.join(map(chr, x)))[:300] if k in 'TM' else lines[i][:300]
        t = '%s: %s descriptor %s (specified: %s; real: %s)' % (MEANING[verdict], 'type' if k in 'TD' else 'method', shown, mode, json.dumps(runs[i])[:500])
        c.violation(verdict, verdict + ' ' + lines[i].split('|', 1)[1][:200], t,
                    'property %s\n%s\n\nReplay: write the line below to in.txt, then /verif/target/debug/jbh desc in.txt out.txt\n%s\n' % (c.pid, t, lines[i]))
    for i in (0, len(cases) // 3, len(cases) // 2):
        if len(lines[i]) < 300: c.sample(dict(case=lines[i], real=runs[i]['r'], parts=runs[i]['p'][:5]))

def model(c, kind, alphabet, depth, lead):
    lines = c.tlc('MC_Descriptor', MC % (kind, ', '.join(map(str, alphabet)), depth, lead))
    out = []
    for l in lines:
        m = re.match(r'"TEXT (\[.*\]) (\w+)"$', l)
        if m: out.append((kind, json.loads(m.group(1))))
    n = len(alphabet)
    if len(out) != sum(n ** k for k in range(1, depth + 1)): raise ToolError('model: %d texts' % len(out))
    c.notes.setdefault('model_texts', []).append(dict(kind=kind, alphabet=list(alphabet), length=depth, lead=lead, texts=len(out)))
    return out

# lengths of names
SIZES = [127, 128, 129, 254, 255, 256, 257, 4095, 4096, 21845, 21846, 32767, 32768, 65534, 65535, 65536, 65537, 100000]
# characters that become one of the grammar's when cut to 8 or 16 bits, or are drawn like one
CUTS = [h << 8 | x for h in (1, 2, 0x20, 0xE1, 0x1F6, 0x100, 0x10F0) for x in PRIMS + [40, 41, 59, 76, 86, 91]] \
       + [0xFEE0 + x for x in PRIMS + [40, 41, 59, 76, 86, 91]] + [0x10000 + x for x in (41, 59, 73, 91)] + [0x392, 0x421, 0x6A, 0x408, 0x405, 0x37E, 0x2C7D, 0x1D401, 0xE3F]
LETTERS = list(range(0, 256)) + ODD + CUTS

def edges(kind):
    """every letter in every role, and the limits of every count"""
    res = []
    r = random.Random('edges')
    # every letter after every letter in one name; names of two odd letters
    long = gen.pairs([x for x in range(128) if x != 59], r)
    wide = gen.pairs([x for x in NAMES + list(range(0x80, 0x100, 9)) if x != 59], r)
    odd = [x for x in range(33, 127) if x != 59 and not chr(x).isalnum()] + [32, 76, 73, 86, 48, 97]
    names = [long, wide] + [[a, b] for a in odd for b in odd]
    if kind == 'T':
        res += [[76] + n + [59] for n in names] + [[91, 91, 76] + n + [59] for n in names[:2]]
        for ch in LETTERS:
            res += [[ch], [91, ch], [73, ch], [ch, 73], [76, ch, 59], [76, 97, ch], [76, 97, 59, ch], [76, 97, ch, 59], [91, 76, ch, 97, 59]]
        for d in (1, 2, 127, 128, 253, 254, 255, 256, 257, 300, 511, 512, 1000):
            for e in ([73], [76, 97, 59], [], [86], [76, 59], [76, 97]): res.append([91] * d + e)
        for n in (10, 255, 256, 1000): res.append([76] + [97] * n + [59])
        for n in SIZES:
            for ch in (97, 0xE9, 0x20AC, 0x1F600): res.append([76] + [ch] * n + [59])
            res += [[91] * 3 + [76] + [97] * n + [59], [76] + [97] * n, [76] + [97] * n + [59, 73], [76] + [47, 91, 76] * (n // 3) + [59]]
        res += [[], [0x10FFFF] * 20, [76] + [0x1F600] * 50 + [59], [91] * 200 + [76] + [0xE9] * 30 + [59]]
    else:
        res += [[40, 76] + n + [59, 41, 86] for n in names[:2] + r.sample(names, 300)] + [[40, 73, 41, 76] + n + [59] for n in names[:2] + r.sample(names, 300)]
        # what is wrong comes after many parameters
        for n in (0, 1, 2, 3, 15, 16, 31, 32, 63, 64, 127, 128, 253, 254, 255, 256):
            for p in ([73], [74], [76, 97, 59], [91, 91, 73]):
                for e in ([91, 41, 86], [41, 91, 86], [41], [], [76, 41, 86], [76, 97, 41, 86], [59, 41, 86], [86, 41, 86], [41, 41, 86], [41, 86, 86], [41, 40, 86], [40, 41, 86], [91, 91, 41, 73], [41, 91], [41, 76], [41, 76, 97], [91, 86, 41, 86], [41, 73, 73], [76, 59, 41, 86], [41, 76, 59]):
                    res.append([40] + p * n + e)
        for ch in LETTERS:
            for a, b in (([40], [41, 86]), ([40], []), ([40, 41], []), ([40, 91], [41, 86]), ([40, 41, 91], []), ([40, 41, 86], []), ([40, 41, 73], []),
                         ([40, 76], [59, 41, 86]), ([40, 76, 97], [41, 86]), ([], [41, 86]), ([], [40, 41, 86]), ([40, 41, 76], [59]), ([40, 41, 76, 97], []), ([40, 73], [41, 73])):
                res.append(a + [ch] + b)
        for n in (1, 2, 127, 128, 253, 254, 255, 256, 257, 300, 511, 512):
            for p in ([73], [76, 97, 59], [91, 74], [68], [91, 76, 98, 59]):
                for q in ([86], [73], [91, 76, 97, 59]): res.append([40] + p * n + [41] + q)
            res.append([40] + ([74] * (n - 1)) + [76, 97, 59] + [41, 86])
        for d in (1, 2, 127, 128, 254, 255, 256, 257, 511, 512):
            res += [[40] + [91] * d + [73, 41, 86], [40, 41] + [91] * d + [73], [40, 41] + [91] * d + [76, 97, 59], [40] + [91] * d + [76, 97, 59, 41, 86],
                    [40, 41] + [91] * d + [86], [40] + [91] * d + [41, 86], [40] + ([91] * d + [73]) * 2 + [41] + [91] * d + [74],
                    [40] + [91] * d, [40, 41] + [91] * d, [40] + [91] * d + [73] + [91] * d + [41, 86]]
        for n in SIZES:
            nm = [76] + [97] * n + [59]
            res += [[40] + nm + [41, 86], [40, 41] + nm, [40, 73] + nm + [91, 74, 41, 91] + nm, [40] + nm + nm + [41] + nm, [40, 76] + [97] * n, [40, 76] + [97] * n + [59], [40] + nm + [41, 86, 86],
                    [40, 76] + [0x20AC] * n + [59, 41, 73], [40, 76] + [41, 86, 91] * (n // 3) + [59, 41, 86]]
        res += [[]]
    return [(kind, x) for x in res]

def values(r, n):
    res = [('D', [[d, p]]) for d in (0, 1, 2, 254, 255) for p in PRIMS]
    res += [('D', [[d, 76] + nm]) for d in (0, 1, 255) for nm in [[x] for x in NAMES] + [[91, 73], [40, 41, 86], [76], [86], [73], NAMES]]
    for k in (0, 1, 2, 254, 255):
        for p in ([0, 73], [1, 68], [0, 76, 97], [3, 76, 97, 47, 98]):
            for q in ([], [0, 74], [255, 90], [2, 76, 98]): res.append(('E', [p] * k + [q]))
    # equal ones next to each other, and each shape after each
    for d in (0, 1, 2, 100, 101, 127, 128, 200, 254, 255):
        for p in PRIMS + [76]:
            x = [d, p] + ([97] if p == 76 else [])
            res += [('E', [x, x, []]), ('E', [x, x]), ('E', [[0, 73], x, x, x, [1, 74], x])]
    shapes = [[d, p] + ([97] if p == 76 else []) for d in (0, 1, 2, 255) for p in PRIMS + [76]] + [[0, 76, 98], [0, 76, 97, 47, 98], [1, 76, 91, 73]]
    l = gen.pairs([x for x in shapes if x[0] < 9], r)
    res += [('E', l[i:i + 201] + [[]]) for i in range(0, len(l), 200)]
    res += [('E', gen.pairs(shapes[::5], r)[:255] + [[1, 73]])]
    res += [('E', [[0, p] for p in PRIMS] + [[]]), ('E', [[d, 76, 97] for d in range(0, 40)] + [[]]), ('E', [[255, 73]] * 6 + [[255, 73]])]
    for _ in range(n): res.append(('D', [T(r)]))
    for _ in range(n): res.append(('E', method(r)))
    return res

def run(c):
    deep = c.deep
    r = random.Random('%s/%d' % (c.pid, c.seed))
    n = 8000 if deep else 700
    cases = []
    if c.pid in ('C20', 'C22'):
        k = 'T'
        cases += model(c, k, [91, 76, 59, 73, 86, 40, 233, 47] if deep else [91, 76, 59, 73, 86, 233], 6 if deep else 5, '')
        cases += model(c, k, [91, 76, 59, 90, 97] if deep else [91, 76, 59, 97], 6 if deep else 4, '[[')
        cases += edges(k)
        for _ in range(n):
            t = text(T(r, r.choice([254, 255, 256])))
            cases.append((k, t))
            cases += [(k, damage(r, t)) for _ in range(2)]
    if c.pid in ('C21', 'C22'):
        k = 'M'
        cases += model(c, k, [40, 41, 91, 76, 59, 73, 86, 233] if deep else [40, 41, 91, 73, 86], 5 if deep else 4, '')
        cases += model(c, k, [41, 91, 76, 59, 73, 86] if deep else [41, 91, 76, 59, 86], 6 if deep else 5, '(')
        cases += model(c, k, [91, 76, 59, 68, 86, 41], 5 if deep else 4, '()')
        cases += model(c, k, [41, 91, 76, 59, 86, 73], 5 if deep else 4, '(I')
        if deep: cases += model(c, k, [41, 91, 76, 59, 86, 73], 6, '([')
        cases += edges(k)
        for _ in range(n):
            t = mtext(method(r))
            cases.append((k, t))
            cases += [(k, damage(r, t)) for _ in range(2)]
    if c.pid == 'C22':
        # printing: what the grammar accepts, and values
        cases = [x for x in cases if len(x[1]) < 3 or x[1][-1] in PRIMS + [59, 86]] + values(r, n)
    judge(c, 'print' if c.pid == 'C22' else 'parse', cases)

CHECKS = {p: run for p in ('C20', 'C21', 'C22')}
