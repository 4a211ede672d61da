#!/usr/bin/env python3
"""check.py Pxx [--tier quick|thorough]

Decides one property of /repo's current working tree:
 1. expand the library with rustc, extract it mechanically into one Verus crate with the contracts of specs/,
 2. let Verus discharge every obligation of the property's closure, function by function,
 3. compile the real library into the native harness; it searches failing inputs for failed obligations,
    stands in (bounded) for functions outside the verifier's reach, and cross-checks verified properties.
Exit 0 (held) or 1 (VIOLATION line) only.
"""
import collections, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'driver'))
from props import PROPS, MODULES, BASE, NOT_YET, PRINTING

REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()
NPROC = 8


def elapsed():
    return time.time() - T0


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout=600, env=None, cwd=None, out=None, err=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, timeout=timeout, env=e, cwd=cwd,
                           stdout=out or subprocess.PIPE, stderr=err or subprocess.PIPE, text=True)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout after %ss' % timeout


class Undecided(Exception):
    """the verifier cannot be brought to bear on the current source; the bounded stand-in decides"""


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.cfg = prop, tier, PROPS[prop]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.work = os.path.join(VERIF, '.work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.ext_target = os.path.join(VERIF, '.work', 'tgt-extract')
        self.har_target = os.path.join(VERIF, '.work', 'tgt-harness')
        self.unproved = set(self.lines('specs/unproved.txt'))
        self.baseline = {}
        try:
            self.baseline = json.load(open(os.path.join(VERIF, 'specs/baseline.json')))
        except OSError:
            pass
        self.forced = []
        self.bare = []
        self.res = dict(functions=[], obligations=0, discharged=0, solver_ms=0, verus_ms=0)
        self.notes = []
        self.harness_cases = 0
        self.samples = []

    @staticmethod
    def lines(p):
        try:
            return [l.split('#')[0].strip() for l in open(os.path.join(VERIF, p)) if l.split('#')[0].strip()]
        except OSError:
            return []

    # ---------------------------------------------------------------- building
    def start_builds(self):
        e = dict(os.environ)
        self.p_ext = subprocess.Popen(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'tools/extract'),
                                      env=dict(e, CARGO_TARGET_DIR=self.ext_target), stdout=subprocess.DEVNULL,
                                      stderr=open(os.path.join(self.work, 'ext.err'), 'w'))
        self.p_har = subprocess.Popen(['cargo', 'build', '--offline', '--quiet'], cwd=self.harness_dir(),
                                      env=dict(e, CARGO_TARGET_DIR=self.har_target, RUSTFLAGS='--cap-lints warn'),
                                      stdout=subprocess.DEVNULL, stderr=open(os.path.join(self.work, 'har.err'), 'w'))
        self.harness = os.path.join(self.har_target, 'debug/harness')

    def harness_dir(self):
        d = os.path.join(VERIF, 'harness')
        if REPO == '/repo':
            return d
        # development only: check another tree
        c = os.path.join(self.work, 'harness')
        shutil.copytree(d, c)
        p = os.path.join(c, 'Cargo.toml')
        s = open(p).read().replace('/repo', REPO)
        open(p, 'w').write(s)
        return c

    def wait_harness(self):
        return self.p_har.wait() == 0 and os.path.exists(self.harness)

    def expand(self):
        exp = os.path.join(self.work, 'exp.rs')
        rc, _, err = sh(['cargo', '+nightly', 'rustc', '--offline', '--manifest-path', REPO + '/Cargo.toml', '--lib',
                         '--profile', 'dev', '--', '-Zunpretty=expanded'],
                        env={'RUSTFLAGS': '--cap-lints warn', 'CARGO_TARGET_DIR': os.path.join(self.work, 'tgt-expand')},
                        out=open(exp, 'w'))
        shutil.rmtree(os.path.join(self.work, 'tgt-expand'), ignore_errors=True)
        if rc != 0:
            raise Undecided('the library does not expand: ' + (err or '')[-400:])
        return exp

    def extract(self, exp):
        out, mp = os.path.join(self.work, 'out.rs'), os.path.join(self.work, 'map.json')
        cmd = [os.path.join(self.ext_target, 'debug/extract'), exp, os.path.join(VERIF, 'specs'), out, mp]
        for k in self.forced:
            cmd += ['--external', k]
        for k in self.bare:
            cmd += ['--bare', k]
        rc, o, err = sh(cmd, timeout=120)
        if rc != 0:
            raise Undecided('extraction failed: ' + err[-400:])
        m = json.load(open(mp))
        self.fns = m['fns']
        self.map = m
        self.by_key = {f['key']: f for f in self.fns}
        self.src = open(out).read().split('\n')
        # vacuity probe: must NOT verify
        with open(out, 'a') as f:
            f.write('\nverus! { pub mod vp_probe { use crate::vp::*; use crate::vs_all::*; broadcast use crate::vp::group_vp;\n'
                    'pub proof fn vp_probe() { assert(false); } } }\n')
        self.probe_line = len(self.src) + 1
        return out

    # ---------------------------------------------------------------- closures
    def closure(self, roots):
        by_name = collections.defaultdict(list)
        for f in self.fns:
            by_name[f['key'].rsplit('::', 1)[-1]].append(f['key'])
        seen, todo = set(), [f['key'] for f in self.fns if any(re.search(r, f['key']) for r in roots)]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for c in self.by_key[k]['calls']:
                todo += by_name.get(c, [])
        return seen

    def module_of(self, key):
        p = key.split('::<')[0] if '::<' in key else key
        parts = []
        for s in p.split('::'):
            if s[:1].islower() and s[:1] != '<':
                parts.append(s)
            else:
                break
        mods = set(self.modules)
        while parts and '::'.join(parts) not in mods:
            parts.pop()
        return '::'.join(parts)

    def scan_modules(self):
        """module paths of the generated crate, with the line range of each (brace counting on emitted headers)"""
        self.modules = []
        depth, stack = 0, []
        for l in self.src:
            m = re.match(r'\s*(?:pub(?:\([a-z]+\))?\s+)?mod\s+(\w+)\s*\{', l)
            if m:
                stack.append((m.group(1), depth))
                self.modules.append('::'.join(s for s, _ in stack))
            # strings with braces do not occur in module headers; depth is only needed to pop modules
            t = re.sub(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)\'|//.*', '', l)
            depth += t.count('{') - t.count('}')
            while stack and depth <= stack[-1][1]:
                stack.pop()

    # ---------------------------------------------------------------- verus
    def verus(self, out, modules, rlimit=30, extra=()):
        cmd = ['verus', out, '--multiple-errors', '6', '--rlimit', str(rlimit), '--num-threads', str(NPROC),
               '--output-json', '--time-expanded']
        for m in modules:
            cmd += ['--verify-only-module', m]
        cmd += list(extra) + ['--', '--error-format=json']
        self.verus_cmd = ' '.join(cmd[:1] + ['out.rs'] + cmd[2:])
        o, e = os.path.join(self.work, 'verus.out'), os.path.join(self.work, 'verus.err')
        with open(o, 'w') as fo, open(e, 'w') as fe:
            limit = int(max(60, min(480, 640 - elapsed())))
            rc, _, _ = sh(['timeout', '-s', 'KILL', str(limit)] + cmd, timeout=limit + 20, out=fo, err=fe, cwd=self.work)
        diags = []
        for l in open(e):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
        try:
            j = json.load(open(o))
        except ValueError:
            j = None
        if rc in (124, 137, -9):
            raise Undecided('verifier timeout')
        return rc, diags, j

    def fn_at(self, line):
        for f in self.fns:
            if f['start'] <= line <= f['end']:
                return f
        return None

    def diag_site(self, d):
        """(function, obligation text) of one diagnostic"""
        spans = [s for s in d['spans'] if s['file_name'].endswith('out.rs')]
        pick = None
        for s in spans:
            if re.search(r'at this exit|at the end of the function body|at this loop exit|at this call', s.get('label') or ''):
                pick = s
        prim = [s for s in spans if s['is_primary']]
        if pick is None:
            pick = prim[0] if prim else (spans[0] if spans else None)
        f = self.fn_at(pick['line_start']) if pick else None
        text = []
        for s in spans:
            t = ' '.join(x['text'].strip() for x in s.get('text', []))[:300]
            text.append('%s:%d: %s%s' % ('out.rs', s['line_start'], t, '   <- ' + s['label'] if s.get('label') else ''))
        return f, text, (pick['line_start'] if pick else 0)

    SAFETY = re.compile(r'arithmetic|overflow|underflow|precondition not satisfied|division by zero|decreases|bounds|unreachable|termination|shift')
    PROOFERR = re.compile(r'not satisfied|assertion failed|arithmetic|overflow|underflow|division by zero|decreases|unreachable|'
                          r'could not prove|cannot prove|invariant|recommendation not met|failed to prove|might not|not hold')
    RLIMIT = re.compile(r'rlimit|Resource limit|timed? ?out|solver', re.I)

    def run_verifier(self):
        """returns a list of failures: dict(fn, kind definite|soft, safety, msg, text)"""
        exp = self.expand()
        if self.p_ext.wait() != 0:
            raise Undecided('extractor does not build')
        for attempt in range(8):
            if elapsed() > 560:
                raise Undecided('no time left for another attempt to bring the text into the supported subset')
            out = self.extract(exp)
            self.scan_modules()
            here = {m for m in MODULES[self.prop] if m in self.modules}
            clo = {k for k in self.closure(self.cfg['roots'] + self.cfg['direct']) if self.module_of(k) in here}
            if self.prop != 'P19':
                clo = {k for k in clo if not re.search(PRINTING, k)}
            self.clo = clo
            self.direct = {k for k in clo if any(re.search(r, k) for r in self.cfg['direct'])}
            mods = [m for m in BASE if m in self.modules] + sorted(here - set(NOT_YET)) + ['vp_probe']
            self.unproved |= {k for k in clo if self.module_of(k) in NOT_YET}
            rc, diags, j = self.verus(out, mods, rlimit=30 if self.tier == 'quick' else 60)
            errs = [d for d in diags if d['level'] == 'error' and not d['message'].startswith('aborting')]
            if j is None:
                log('the verifier gave no result:', open(os.path.join(self.work, 'verus.err')).read()[-300:])
            ok_run = j is not None and 'verification-results' in j and j['verification-results'].get('verified', 0) > 0
            if ok_run:
                break
            bad = set()
            for d in errs:
                if 'must have a decreases' not in d['message'] and (self.PROOFERR.search(d['message']) or self.RLIMIT.search(d['message'])):
                    continue        # a failed proof is never a reason to take a function out of the verified text
                f, text, line = self.diag_site(d)
                if f is not None and f['key'] not in self.forced and not f['external']:
                    bad.add(f['key'])
            log('verifier rejects the extracted text:', '; '.join(sorted({d['message'][:120] for d in errs})[:4]), sorted(bad)[:6])
            if not bad:
                raise Undecided('extracted text rejected by the verifier: ' + '; '.join(d['message'][:200] for d in errs[:3]))
            # first drop the proof hints (they name things of the old body), then the body
            # (a loop without its invariant cannot be verified: the body goes at once)
            self.forced += sorted(k for k in bad if k in self.bare or self.by_key[k]['loops'])
            self.bare += sorted(k for k in bad if k not in self.bare and not self.by_key[k]['loops'])
        else:
            raise Undecided('extracted text rejected by the verifier after %d attempts' % (attempt + 1))
        self.collect_stats(j, clo)
        errs = self.retry(out, errs)
        self.vacuity = False
        fails = []
        for d in errs:
            f, text, line = self.diag_site(d)
            if line >= self.probe_line:
                self.vacuity = True
                continue
            soft = None
            if self.RLIMIT.search(d['message']):
                soft = 'resource limit'
            key = f['key'] if f else self.lemma_at(line)
            if key in self.unproved:
                continue
            if f is not None and not soft:
                soft = self.soft_reason(f)
            fails.append(dict(fn=key, soft=soft, safety=bool(self.SAFETY.search(d['message'])), lemma=f is None,
                              msg=d['message'], text=text, rendered=d.get('rendered') or ''))
        if not self.vacuity:
            raise Undecided('vacuity probe verified: contracts are contradictory')
        # anchors that are gone, contracts whose function is gone
        lost = [(f['key'], f['lost']) for f in self.fns if f['lost'] and f['key'] in clo]
        for k in self.forced:
            if k in clo:
                fails.append(dict(fn=k, soft='outside the supported subset', safety=False, lemma=False, msg='unsupported', text=[], rendered=''))
        for k, l in lost:
            if not any(x['fn'] == k for x in fails):
                self.notes.append('proof hints without a place in %s: %s (still verified)' % (k, l))
        gone = [k for k, b in self.baseline.items() if b['spec'] and k not in self.by_key and k not in self.map['dropped']]
        if gone:
            self.notes.append('functions under contract that no longer exist: %s' % gone)
        fresh = [f['key'] for f in self.fns if self.baseline and f['key'] not in self.baseline]
        if fresh:
            self.notes.append('functions without contract that are new: %s' % fresh)
        self.gone, self.fresh = gone, fresh
        return fails

    def retry(self, out, errs):
        """obligations on which the solver gave up are tried again alone, with other solver seeds"""
        by = collections.defaultdict(list)
        for d in errs:
            f, _, line = self.diag_site(d)
            by[f['key'] if f else self.lemma_at(line)].append((d, line))
        todo = {k: v for k, v in by.items() if (k in self.clo or k.startswith('lemma')) and v[0][1] < self.probe_line and all(self.RLIMIT.search(d['message']) for d, _ in v)}
        for k in list(todo)[:3]:
            name = k.split()[-1].rsplit('::', 1)[-1]
            mod = self.module_at(todo[k][0][1])
            limit = min(150, 400 - elapsed())
            if limit < 40:
                break
            log('the solver gave up on %s: other seeds' % k)
            ps = []
            for seed in (1, 2, 3, 4):
                cmd = ['verus', out, '--verify-only-module', mod, '--verify-function', '*' + name, '--rlimit', '80',
                       '--smt-option', 'smt.random_seed=%d' % seed]
                ps.append(subprocess.Popen(['timeout', '%d' % limit] + cmd, cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
            good = False
            for p in ps:
                m = re.search(r'(\d+) verified, (\d+) errors', p.communicate()[0] or '')
                good |= p.returncode == 0 and bool(m) and int(m.group(1)) > 0 and int(m.group(2)) == 0
            if good:
                self.notes.append('%s discharged with another solver seed' % k)
                errs = [d for d in errs if not any(d is x for x, _ in todo[k])]
                fl = self.res['functions']
                for i, (fn, t, ok) in enumerate(fl):
                    if not ok and fn.rsplit('::', 1)[-1] == name:
                        fl[i] = (fn, t, True)
                        self.res['discharged'] += 1
        return errs

    def module_at(self, line):
        depth, stack = 0, []
        for l in self.src[:line - 1]:
            m = re.match(r'\s*(?:pub(?:\([a-z]+\))?\s+)?mod\s+(\w+)\s*\{', l)
            if m:
                stack.append((m.group(1), depth))
            t = re.sub(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)\'|//.*', '', l)
            depth += t.count('{') - t.count('}')
            while stack and depth <= stack[-1][1]:
                stack.pop()
        return '::'.join(s for s, _ in stack)

    def lemma_at(self, line):
        for i in range(min(line, len(self.src)) - 1, 0, -1):
            m = re.search(r'\bfn\s+(\w+)', self.src[i])
            if m:
                return 'lemma ' + m.group(1)
        return '?'

    def soft_reason(self, f):
        if f['lost']:
            return 'proof hints lost their place: ' + '; '.join(f['lost'])
        b = self.baseline.get(f['key'])
        if self.baseline and b is None:
            return 'new function without a contract'
        if b and (b['loops'] != f['loops'] or b['closures'] != f['closures']):
            return 'loops or closures changed'
        names = {k.rsplit('::', 1)[-1]: k for k in self.by_key if self.baseline and k not in self.baseline}
        for c in f['calls']:
            if c in names:
                return 'calls the new function %s, which has no contract' % names[c]
        return None

    def collect_stats(self, j, clo):
        t = j['times-ms']
        n = ok = 0
        fl = []
        smt = t.get('smt', {})
        for m in smt.get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                if f.get('mode:') == 'spec' or 'vp_probe' in f['function']:
                    continue
                n += 1
                ok += 1 if f.get('success') else 0
                fl.append((f['function'].replace('out::', '', 1), f['time-micros'], bool(f.get('success'))))
        self.res.update(obligations=n, discharged=ok, solver_ms=smt.get('smt-run', 0), verus_ms=t.get('total', 0), functions=fl)

    def trusted(self):
        base = collections.OrderedDict()
        pend = None
        for l in self.src:
            if 'external_body' in l or 'verifier::external' in l:
                pend = 'external_body'
            if re.search(r'\bassume_specification\b', l):
                m = re.search(r'\[\s*([^\]]+?)\s*\]', l)
                base['assumed specification of ' + (m.group(1) if m else l.strip()[:80])] = 1
            m = re.search(r'\b(axiom|proof|spec|exec)?\s*fn\s+(\w+)', l)
            if m:
                if m.group(1) == 'axiom' or re.search(r'\baxiom fn\b', l):
                    base['axiom ' + m.group(2)] = 1
                elif pend:
                    base['trusted body ' + m.group(2)] = 1
                pend = None
            elif pend and re.search(r'\b(struct|enum|trait)\s+(\w+)', l):
                base['opaque type ' + re.search(r'\b(?:struct|enum|trait)\s+(\w+)', l).group(1)] = 1
                pend = None
            if re.search(r'\b(assume|admit)\s*\(', l) and not l.strip().startswith('//'):
                base['assume: ' + l.strip()[:100]] = 1
        return list(base)

    # ---------------------------------------------------------------- harness
    def run_harness(self, seconds, procs, seed0):
        """runs the native harness; returns (replay path, message) of a failing case, or None"""
        if not self.wait_harness():
            self.notes.append('the native harness does not build against the current tree: '
                              + open(os.path.join(self.work, 'har.err')).read()[-300:])
            return None
        ps = []
        for i in range(procs):
            rp = os.path.join(self.work, 'case-%d.json' % (seed0 + i))
            sd = os.path.join(self.work, 'scratch-%d' % (seed0 + i))
            os.makedirs(sd, exist_ok=True)
            of = open(os.path.join(self.work, 'har-%d.out' % (seed0 + i)), 'w')
            ps.append((subprocess.Popen([self.harness, 'run', self.prop, str(seed0 + i), str(seconds), rp],
                                        stdout=of, stderr=subprocess.DEVNULL, env=dict(os.environ, HARNESS_SCRATCH=sd)), rp, of.name))
        hit = None
        end = time.time() + seconds + 60
        live = list(ps)
        while live:
            for x in list(live):
                p, rp, on = x
                rc = p.poll()
                if rc is None and time.time() > end:
                    p.kill()
                    rc = p.wait()
                if rc is None:
                    continue
                live.remove(x)
                txt = open(on).read()
                m = re.search(r'cases=(\d+)', txt)
                if m:
                    self.harness_cases += int(m.group(1))
                for l in txt.split('\n'):
                    if l.startswith('sample '):
                        self.samples.append(l[7:][:400])
                if rc == 1 and hit is None and os.path.exists(rp):
                    m = re.search(r'^FAIL.*$', txt, re.M)
                    hit = (rp, m.group(0) if m else txt[-300:])
                elif rc not in (0, 1):
                    self.notes.append('harness process ended with %s' % rc)
            if hit:
                for p, _, _ in live:
                    p.kill()
                    p.wait()
                break
            time.sleep(0.05)
        return hit

    # ---------------------------------------------------------------- deciding
    def decide(self):
        self.start_builds()
        undecided, fails = None, []
        try:
            fails = self.run_verifier()
        except Undecided as u:
            undecided = str(u)
            log('undecided by proof:', undecided)
        self.undecided = undecided
        definite = [f for f in fails if not f['soft'] and (f['lemma'] or f['fn'] in self.direct or (self.cfg.get('safety') and f['safety']))]
        indirect = [f for f in fails if not f['soft'] and f not in definite and f['fn'] in self.clo]
        soft = [f for f in fails if f['soft']]
        self.bounded = undecided or soft or indirect
        thorough = self.tier == 'thorough'
        replay_dir = os.path.join(VERIF, '.work', 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        rp = os.path.join(replay_dir, '%s.json' % self.prop)
        known = self.known()
        for f in fails:
            log('failed obligation', '(undecided: %s)' % f['soft'] if f['soft'] else '', f['fn'], '-', f['msg'], '|', ' | '.join(f['text'])[:300])
        if definite:
            seconds = 60 if thorough else 25
            kind = 'witness search for the failed obligations'
        elif self.bounded:
            seconds = 120 if thorough else 30
            kind = 'bounded stand-in'
        elif self.unproved_here():
            seconds = 120 if thorough else 15
            kind = 'bounded check of what is not proved yet'
        else:
            seconds = 60 if thorough else 6
            kind = 'cross-check of the verified text against the compiled library'
        log('%s: %d processes x %d s' % (kind, NPROC, seconds))
        self.bounded_kind = kind
        hit = self.run_harness(seconds, NPROC, self.seed * 1000)
        line = None
        if hit:
            case = json.load(open(hit[0]))
            log('failing input:', hit[1][:400])
            if any(k and k in case.get('message', '') for k in known):
                hit = None
            else:
                case['failed_obligations'] = [dict(function=f['fn'], message=f['msg'], at=f['text'], undecided=f['soft']) for f in fails]
                case['replay_with'] = 'cd /verif/harness && cargo run --offline -- replay ' + rp
                json.dump(case, open(rp, 'w'), indent=1)
                line = 'VIOLATION property=%s replay=%s' % (self.prop, rp)
        if not line and definite:
            json.dump(dict(property=self.prop, failed_obligations=[dict(function=f['fn'], message=f['msg'], at=f['text'], verifier_output=f['rendered']) for f in definite],
                           note='the verifier gives no counterexample; %d cases of the native harness did not fail' % self.harness_cases,
                           replay_with=self.verus_cmd), open(rp, 'w'), indent=1)
            line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (self.prop, rp)
        for k in self.known_lines():
            print('KNOWN-FINDING: ' + k)
        self.evidence(line, definite, soft, indirect)
        if line:
            print(line, flush=True)
            return 1
        log('ok property=%s obligations=%d discharged=%d cases=%d%s' % (
            self.prop, self.res['obligations'], self.res['discharged'], self.harness_cases, ' (bounded)' if self.bounded else ''))
        return 0

    def unproved_here(self):
        return sorted(k for k in self.clo if k in self.unproved) if not self.undecided else ['all']

    def known_lines(self):
        return [l[len('known: '):] for l in self.lines('known-findings.txt') if l.startswith('known: property=%s ' % self.prop)]

    def known(self):
        return [l.split(' ', 1)[1] for l in self.known_lines()]

    def evidence(self, violation, definite, soft, indirect):
        man = {c['property']: c for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']}
        level = man[self.prop]['level'] if self.prop in man else 'other'
        under = [] if self.undecided else sorted(k for k in self.clo if self.by_key[k]['spec'] and not self.by_key[k]['external'] and k not in self.unproved)
        without = [] if self.undecided else sorted(k for k in self.clo if not self.by_key[k]['spec'] and not k in self.unproved)
        unproved = [] if self.undecided else self.unproved_here()
        slow = sorted(self.res['functions'], key=lambda x: -x[1])[:5]
        base = [] if self.undecided else self.trusted()
        cov = dict(
            obligations=self.res['obligations'], discharged=self.res['discharged'],
            checker_cmd=getattr(self, 'verus_cmd', 'verus'),
            trusted_base=base,
            back_end='Verus 0.2026.09.13 / Z3 4.12.5 (bundled)',
            solver_ms=self.res['solver_ms'], verifier_ms=self.res['verus_ms'],
            functions_under_contract=under,
            functions_verified_without_own_contract=without,
            functions_not_proved_bounded_only=unproved,
            slowest_functions=[dict(function=a, ms=b / 1000.0) for a, b, _ in slow],
            undecided=[dict(function=f['fn'], reason=f['soft']) for f in soft] + ([dict(function='*', reason=self.undecided)] if self.undecided else []),
            vacuity_probe='assert(false) under all axioms and broadcast lemmas is rejected' if not self.undecided else 'not run',
            bounded=dict(kind=self.bounded_kind, cases=self.harness_cases, note='native library under generated inputs; never counted as proved'),
            evaluations=self.harness_cases, distinct_nontrivial=self.harness_cases,
            rule='cases generated from VERIF_SEED by harness/src (one random layout/tag/operation sequence each); every case exercises the property at least once',
            samples=self.samples[:3] or ['seed %d' % (self.seed * 1000)],
            explanation='deductive verification (Verus) of the extracted library; obligations of %d functions; plus %d native cases' % (self.res['obligations'], self.harness_cases),
        )
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=ASSUMPTIONS + self.notes, wall_s=round(time.time() - T0, 2),
                  violations=[violation] if violation else [])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)


ASSUMPTIONS = [
    'std::io readers, writers, files, iterators, strings and collections behave as the mirror declarations in specs/00_prelude.spec state',
    'usize has 64 bits; memory allocation of at most the sizes requested succeeds',
    'the expansion printed by rustc is the code that is compiled; the extraction drops what DESIGN.md lists',
]


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if prop not in PROPS:
        print('unknown property', prop)
        sys.exit(2)
    c = Check(prop, tier)
    try:
        rc = c.decide()
    finally:
        for p in (c.p_ext, c.p_har):
            if p.poll() is None:
                p.kill()
        for n in os.listdir(c.work):
            if n.startswith('scratch-'):
                shutil.rmtree(os.path.join(c.work, n), ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
