"""Checks of the class file properties: model checking of ClassFile.tla on a bounded
environment, replay of its inputs in the real parser, and validation of the recorded
runs (of these and of generated inputs) against ClassFile.tla."""
import concurrent.futures, json, os, re, hashlib, subprocess
import gen
from check import BIN, RELEASE, ToolError, log

MC = '''SPECIFICATION MSpec
CONSTANTS
  BytesOf <- CaseBytes
  Env = "%s"
  Deep = %s
INVARIANTS TypeOK Nested AcceptsWhole Total
PROPERTIES Forward
CHECK_DEADLOCK FALSE
'''
TRACE = '''SPECIFICATION TSpec
CONSTANTS
  BytesOf <- TBytes
  Focus = "%s"
  CompareErrors = %s
INVARIANTS TypeOK Nested AcceptsWhole
CHECK_DEADLOCK FALSE
'''
MEANING = {
    'accepted-bad-input': 'the parser accepted input that the specification refuses',
    'refused-good-input': 'the parser refused input that the specification accepts',
    'wrong-error': 'the error is not the specified one',
    'wrong-event': 'the parsed class differs from the specified one',
    'extra-events': 'the parsed class has more than the input specifies',
    'crash': 'neither a class nor an error came back, or not the same one twice',
}


def model(c, env):
    """explore the model on its bounded environment; returns the inputs"""
    out = os.path.join(c.work, 'cases.ndjson')
    lines = c.tlc('MC_ClassFile', MC % (env, 'TRUE' if c.deep else 'FALSE'), {'OUT': out})
    got = {}
    for l in lines:
        m = re.match(r'<<"OUT", (\d+), "(\w+)"', l)
        if m: got[int(m.group(1))] = m.group(2)
    # the specification is a function of the input: no state has two successors
    if not any('the maximum 1 ' in l for l in lines): raise ToolError('model: a state with several successors')
    cases = [bytes(json.loads(l)['b']) for l in open(out)]
    os.remove(out)
    st = {k: sum(1 for v in got.values() if v == k) for k in ('ok', 'err', 'any', 'lax')}
    if len(got) != len(cases): raise ToolError('model: %d of %d inputs decided' % (len(got), len(cases)))
    c.notes['model_inputs'] = dict(total=len(cases), accepted=st['ok'], refused=st['err'], may_refuse=st['lax'], open=st['any'])
    return cases


def judge(c, focus, inputs, binary=None):
    """run the real parser on the inputs and validate what it did"""
    group, size = [], 0
    for b in inputs:
        group.append(b)
        size += len(b) + 60
        if size > 6000000:
            judge_group(c, focus, group, binary)
            group, size = [], 0
    if group: judge_group(c, focus, group, binary)


def judge_group(c, focus, inputs, binary):
    runs = c.harness('parse', ['%d|%s' % (i, b.hex()) for i, b in enumerate(inputs)], binary)
    tf = os.path.join(c.work, 'trace.ndjson')
    with open(tf, 'w') as f:
        for i, (b, o) in enumerate(zip(inputs, runs)):
            if 'dead' in o: o = dict(id=i, r=o['dead'], e='', ev=[])
            runs[i] = o
            ev = [] if focus in ('C01', 'C14', 'C15') else o['ev']
            f.write(json.dumps(dict(id=i, b=list(b), r=o['r'], e=o['e'], ev=ev), separators=(',', ':')) + '\n')
    cfg = TRACE % (focus, 'TRUE' if focus == 'C15' else 'FALSE')
    lines = c.tlc('TraceClassFile', cfg, {'TRACE': tf})
    seen = {}
    for l in lines:
        m = re.match(r'"VERDICT (\d+) (\S+) (\w+) (\d+) (.*)"$', l)
        if m: seen.setdefault(int(m.group(1)), []).append(m.groups()[1:])
    stats = c.notes.setdefault('replayed', dict(runs=0, accepted=0, refused=0, specified_open=0))
    for i, b in enumerate(inputs):
        v = seen.get(i)
        if not v or len(v) != 1: raise ToolError('trace %d has %d verdicts' % (i, len(v or [])))
        verdict, st, pos, err = v[0]
        stats['runs'] += 1
        stats['accepted'] += runs[i]['r'] == 'ok'
        stats['refused'] += runs[i]['r'] == 'err'
        stats['specified_open'] += st in ('any', 'lax')
        if verdict == 'accept':
            c.cov['traces_validated_against_impl'] += 1
            continue
        text = '%s (byte %s; specified: %s %s; real: %s %s) on %d bytes %s' % (
            MEANING[verdict], pos, st, err.replace('\\"', ''), runs[i]['r'], runs[i]['e'][:200], len(b), b.hex()[:300])
        replay = ('property %s\n%s\n\nReplay: echo "0|<hex>" > in.txt; %s parse in.txt out.txt  (after check.py has built it)\n'
                  'or feed the bytes to jbcrs::basic::parse.\n\nhex: %s\n' % (c.pid, text, binary or '/verif/target/debug/jbh', b.hex()))
        c.violation(verdict, hashlib.sha256(b).hexdigest()[:16], text, replay)
    for i in (0, len(inputs) // 2):
        if i < len(inputs) and len(inputs[i]) < 300:
            c.sample(dict(bytes=inputs[i].hex(), real=runs[i]['r'], error=runs[i]['e'], events=[[e['l'], e['v'][:12]] for e in runs[i]['ev'][:12]]))
    os.remove(tf)


ENVS = ['C%02d' % i for i in range(1, 16)] + ['C23']


def emit(c):
    """the inputs of every bounded environment"""
    out = os.path.join(c.work, 'all')
    c.tlc('Emit', 'SPECIFICATION Spec\nCONSTANT Deep = %s\nCHECK_DEADLOCK FALSE\n' % ('TRUE' if c.deep else 'FALSE'), {'OUT': out})
    res = {}
    for e in ENVS:
        with open(out + '.' + e) as f: res[e] = [bytes(json.loads(l)['b']) for l in f]
        os.remove(out + '.' + e)
    return res


def total(c, inputs, binary=None):
    """every input has an outcome; inputs may be a generator"""
    inputs = iter(inputs)
    stats = c.notes.setdefault('outcomes', dict(runs=0, accepted=0, refused=0))
    while True:
        group, size = [], 0
        for b in inputs:
            group.append(b)
            size += len(b) + 60
            if size > 40000000: break
        if not group: break
        runs = c.harness('total', ['%d|%s' % (i, b.hex()) for i, b in enumerate(group)], binary)
        for i, o in enumerate(runs):
            if 'dead' in o: runs[i] = dict(id=i, r=o['dead'], e='')
        tf = os.path.join(c.work, 'trace.ndjson')
        with open(tf, 'w') as f:
            for i, o in enumerate(runs): f.write(json.dumps(dict(id=i, r=o['r'])) + '\n')
        lines = c.tlc('TraceTotal', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', {'TRACE': tf})
        os.remove(tf)
        bad = [int(m.group(1)) for m in (re.match(r'"VERDICT (\d+) crash"$', l) for l in lines) if m]
        stats['runs'] += len(group)
        stats['accepted'] += sum(o['r'] == 'ok' for o in runs)
        stats['refused'] += sum(o['r'] == 'err' for o in runs)
        c.cov['traces_validated_against_impl'] += len(group) - len(bad)
        for i in bad:
            b = group[i]
            text = 'no outcome (%s %s) on %d bytes %s' % (runs[i]['r'], runs[i]['e'][:200], len(b), b.hex()[:300])
            c.violation('crash', hashlib.sha256(b).hexdigest()[:16], text, 'property %s\n%s\n\nfeed these bytes to jbcrs::basic::parse\n\nhex: %s\n' % (c.pid, text, b.hex()))
        for i in (0, len(group) // 2):
            if len(group[i]) < 300: c.sample(dict(bytes=group[i].hex(), real=runs[i]['r'], error=runs[i]['e']))


def run01(c):
    """all inputs of all environments"""
    model(c, 'C01')
    r = gen.random.Random('C01/%d' % c.seed)
    def inputs():
        for e, cases in emit(c).items(): yield from cases
        for e in ENVS:
            yield from gen.limits(e, c.deep)
            yield from gen.crowd(e, c.seed, c.deep)
            yield from gen.randoms(e, c.seed, 20000 if c.deep else 1500)
            for b in gen.randoms(e, c.seed + 1000, 20000 if c.deep else 1500): yield gen.damage(r, b)
        for b in gen.prebuilt('C01', c.seed, 300 if c.deep else 15):
            yield b
            for _ in range(40 if c.deep else 10): yield gen.damage(r, b)
    total(c, inputs())
    if c.deep:
        # what an optimised build does: no overflow checks, other stack use
        c.build(release=True)
        total(c, inputs(), RELEASE)


def others(c, f):
    """a sample of the environments of the other properties; for C14 their prefixes"""
    r = gen.random.Random('others/%s/%d' % (f, c.seed))
    res = []
    for e, cases in emit(c).items():
        if e == f or not cases: continue
        l = r.sample(cases, min(len(cases), 3000 if c.deep else 250))
        if f == 'C14':
            for b in l: res += [b, b[:-1], b[:r.randrange(len(b) + 1)], b[:max(0, len(b) - r.randint(2, 12))]]
        else: res += l
    return res


def run(c):
    f = c.pid
    cases = model(c, f)
    judge(c, f, cases)
    judge(c, f, gen.randoms(f, c.seed, 20000 if c.deep else 1200) + gen.prebuilt(f, c.seed, 300 if c.deep else 15) + list(gen.crowd(f, c.seed, c.deep)))
    judge(c, f, gen.limits(f, c.deep))
    if f in ('C06', 'C14', 'C15'): judge(c, f, others(c, f))
    soak(c, list(gen.together()) + gen.randoms(f, c.seed + 7, 120 if c.deep else 40), 2, 20 if c.deep else 4)


def flags(c):
    """the names of the flags on all 65536 words"""
    runs = c.harness('flags', [str(w) for w in range(65536)])
    tf = os.path.join(c.work, 'trace.ndjson')
    with open(tf, 'w') as f:
        for w, o in enumerate(runs):
            f.write(json.dumps(o if 'dead' not in o else dict(w=w, bits=-1, names=[], printed=[]), separators=(',', ':')) + '\n')
    lines = c.tlc('TraceFlags', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', {'TRACE': tf})
    os.remove(tf)
    bad = 0
    for l in lines:
        m = re.match(r'"VERDICT (\d+) (\S+)"$', l)
        if not m: continue
        bad += 1
        o = runs[int(m.group(1))]
        t = 'flag word %s: %s (real: %s)' % (m.group(1), m.group(2), o)
        c.violation(m.group(2), 'flags ' + m.group(1), t, 'property C23\n%s\nAccessFlags::from_bits_truncate(%s)\n' % (t, m.group(1)))
    c.cov['traces_validated_against_impl'] += 65536 - bad
    c.notes['flag_words'] = 65536


def soak(c, inputs, procs=4, rounds=40):
    """the outcome is a function of the bytes, as it is in the specification: no history of
    other parses, and no parse on another thread at the same time, changes it"""
    total = 0
    def part(k):
        fi, fo = os.path.join(c.work, 's%d.in' % k), os.path.join(c.work, 's%d.out' % k)
        mine = inputs[k::procs]
        with open(fi, 'w') as f: f.write(''.join('%d|%s\n' % (i, b.hex()) for i, b in enumerate(mine)))
        p = subprocess.run([BIN, 'soak', fi, fo], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, JBH_TIMEOUT='60', JBH_ROUNDS=str(rounds), RUST_BACKTRACE='0'))
        if p.returncode == 78: raise ToolError('harness failed: %s' % p.stderr[-2000:].decode('utf8', 'replace'))
        if p.returncode: return mine, None
        return mine, json.loads(open(fo).read())
    with concurrent.futures.ThreadPoolExecutor(procs) as ex: parts = list(ex.map(part, range(procs)))
    for mine, o in parts:
        if o is None:
            c.violation('crash', 'soak', 'parsing the same inputs again and again ended the process', 'property %s\n%s\n' % (c.pid, '\n'.join(b.hex() for b in mine)))
            continue
        total += o['runs']
        for i in o['bad'][:3]:
            b = mine[i]
            text = 'the outcome depends on what was parsed before or at the same time, on %d bytes %s' % (len(b), b.hex()[:300])
            c.violation('unstable', 'soak ' + hashlib.sha256(b).hexdigest()[:16], text, 'property %s\n%s\n\nhex: %s\nparsed among:\n%s\n' % (c.pid, text, b.hex(), '\n'.join(x.hex() for x in mine)))
    c.notes['repeated_parses'] = c.notes.get('repeated_parses', 0) + total


def run04(c):
    c.tlc('MC_ModUtf8', 'SPECIFICATION Spec\nCONSTANTS\n  TextLen = %d\n  ByteLen = %d\nINVARIANTS Inverse Canonical Pieces\nCHECK_DEADLOCK FALSE\n'
          % ((4, 5) if c.deep else (3, 4)))
    run(c)


PREFIX = '''SPECIFICATION PSpec
CONSTANTS
  BytesOf <- CutBytes
  Deep = %s
INVARIANTS TypeOK Nested GoodFiles NeverAccepted InStep Cause
CHECK_DEADLOCK FALSE
'''


def run14(c):
    c.tlc('MC_Prefix', PREFIX % ('TRUE' if c.deep else 'FALSE'))
    run(c)


def run05(c):
    run(c)
    n = 2400 if c.deep else 600
    soak(c, gen.randoms('C05', c.seed + 1, n // 3) + gen.randoms('C15', c.seed, n // 3) + gen.randoms('C06', c.seed, n // 3) + gen.near_names() + gen.sinks('C05', c.deep))


def run23(c):
    flags(c)
    run(c)


CHECKS = {}
for p in ['C%02d' % i for i in range(1, 16)]: CHECKS[p] = run
CHECKS.update(C01=run01, C04=run04, C14=run14, C05=run05, C23=run23)
