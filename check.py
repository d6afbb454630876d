#!/usr/bin/env python3
"""check.py ID: decides one property of jbcrs on the current working tree of /repo.

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself failed.  VERIF_TIER (quick, thorough) and VERIF_SEED are read
from the environment."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import gen

SPEC = os.path.join(HERE, 'spec')
TLA = '/opt/veriftools/tla'
TARGET = os.path.join(HERE, 'target')
BIN = os.path.join(TARGET, 'debug', 'jbh')
RELEASE = os.path.join(TARGET, 'release', 'jbh')


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        try: self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError: self.seed = 1
        self.deep = self.tier == 'thorough'
        self.t0 = time.time()
        self.budget = float(os.environ.get('VERIF_BUDGET', '600' if self.deep else '60'))
        self.work = os.path.join(HERE, 'work', '%s-%d' % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(HERE, 'work', 'replay')
        os.makedirs(self.replays, exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.notes = {}
        self.violations = []
        self.known = load_known(pid)
        self.seen_known = {}
        self.ntlc = 0

    # ------------------------------------------------------------------ tools
    def build(self, release=False):
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
                   HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
        cmd = ['cargo', 'build', '--offline', '--quiet'] + (['--release'] if release else [])
        p = subprocess.run(cmd, cwd=os.path.join(HERE, 'harness'), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise ToolError('the harness does not build against /repo:\n' + p.stdout[-4000:])

    def harness(self, mode, lines, binary=None, timeout=20):
        """run the real code on each line, in parallel; results in the order of the lines"""
        lines = list(lines)
        n = min(8, max(1, len(lines) // 4))
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            parts = list(ex.map(lambda k: self.harness_part(k, mode, lines[k::n], binary, timeout), range(n)))
        res = [None] * len(lines)
        for k in range(n): res[k::n] = parts[k]
        return res

    def harness_part(self, k, mode, lines, binary, timeout):
        """a dead process is charged to the line it was on"""
        res = []
        n = 0
        start = 0
        while start < len(lines):
            n += 1
            fi = os.path.join(self.work, 'h%d.in' % k)
            fo = os.path.join(self.work, 'h%d.out' % k)
            with open(fi, 'w') as f:
                f.write('\n'.join(lines[start:]) + '\n')
            if os.path.exists(fo): os.remove(fo)
            p = subprocess.run([binary or BIN, mode, fi, fo], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               env=dict(os.environ, JBH_TIMEOUT=str(timeout), RUST_BACKTRACE='0'))
            out = []
            if os.path.exists(fo):
                with open(fo) as f:
                    for l in f:
                        if not l.endswith('\n'): break
                        out.append(json.loads(l))
            res += out
            start += len(out)
            if p.returncode == 0:
                if start != len(lines): raise ToolError('harness stopped early')
                break
            if p.returncode == 78 or start >= len(lines):
                raise ToolError('harness failed: %s' % p.stderr[-2000:].decode('utf8', 'replace'))
            res.append({'dead': 'hang' if p.returncode == 77 else 'abort'})
            start += 1
            if n > 40:
                # hopeless: every further case would die as well
                res += [{'dead': 'abort'}] * (len(lines) - start)
                break
        return res

    def tlc(self, module, cfg, env=None, workers=8, timeout=3000):
        """run TLC; returns its output lines.  cfg: text of the configuration"""
        self.ntlc += 1
        cf = os.path.join(self.work, '%s-%d.cfg' % (module, self.ntlc))
        with open(cf, 'w') as f: f.write(cfg)
        md = os.path.join(self.work, 'md%d' % self.ntlc)
        cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx10g', '-cp',
               TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', 'tlc2.TLC', '-noGenerateSpecTE',
               '-workers', str(workers), '-metadir', md, '-config', cf, module + '.tla']
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        shutil.rmtree(md, ignore_errors=True)
        ok = 'Model checking completed. No error has been found.' in p.stdout
        if p.returncode or not ok:
            keep = os.path.join(self.replays, 'tlc-%s.txt' % self.pid)
            with open(keep, 'w') as f: f.write(p.stdout)
            errs = [l for l in p.stdout.splitlines() if not re.match(r'Parsing|Semantic|Linting', l)]
            raise ToolError('TLC on %s (rc %d, full output %s):\n%s' % (module, p.returncode, keep, '\n'.join(errs)[-3000:]))
        m = None
        for m in re.finditer(r'(\d+) states generated.*?, (\d+) distinct states found', p.stdout): pass
        if m:
            self.cov['transitions'] += int(m.group(1))
            self.cov['states'] += int(m.group(2))
        return p.stdout.splitlines()

    # ------------------------------------------------------------- reporting
    def violation(self, kind, key, text, replay):
        """kind: short class of failure; key: what identifies the failing case"""
        if key in self.known:
            self.seen_known[key] = self.known[key]
            return
        if len(self.violations) >= 20:
            self.violations.append(None)
            return
        path = os.path.join(self.replays, '%s-%d.txt' % (self.pid, len(self.violations) + 1))
        with open(path, 'w') as f: f.write(replay)
        self.violations.append(path)
        log('VIOLATION property=%s replay=%s' % (self.pid, path))
        log('  %s: %s' % (kind, text[:1500]))

    def sample(self, x):
        if len(self.cov['samples']) < 6: self.cov['samples'].append(x)

    def finish(self, note=None):
        for k, t in self.seen_known.items():
            log('KNOWN-FINDING: property=%s %s' % (self.pid, t))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(self.cov, **self.notes), assumptions=ASSUMPTIONS,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        c = self.cov
        log('%s %s: %d states, %d transitions, %d traces validated, %d violations, %.1f s'
            % (self.pid, self.tier, c['states'], c['transitions'], c['traces_validated_against_impl'],
               len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


ASSUMPTIONS = [
    'TLC evaluates the specification correctly; the harness reports the public API results faithfully',
    'inputs are bounded as DESIGN.md states; beyond the bounds nothing is claimed']


def load_known(pid):
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                o = json.loads(l)
                if o['property'] == pid: out[o['key']] = o['what']
    return out


def main():
    pid = sys.argv[1]
    import classfile, pool, desc
    table = {}
    for m in (classfile, pool, desc): table.update(m.CHECKS)
    c = Check(pid)
    try:
        c.build()
        table[pid](c)
        return c.finish()
    except ToolError as e:
        log('ERROR in the check of %s: %s' % (pid, e))
        return 2
    except subprocess.TimeoutExpired as e:
        log('ERROR in the check of %s: %s' % (pid, e))
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    sys.exit(main())
