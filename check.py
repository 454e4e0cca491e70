#!/usr/bin/env python3
"""check.py ID [quick|thorough] | check.py ID --replay FILE

Decides one property by generated-input search.  Exit 0: it held on everything
explored.  Exit 1, after a line "VIOLATION property=ID replay=PATH": it did not.
Any other exit: the check could not run.
"""
import array, concurrent.futures, glob, hashlib, json, os, random, re, resource, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import vbuild
from props import PROPS

OUT = os.path.join(VERIF, 'out')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def sanitizer_env(cfg, extra=None):
    e = vbuild.env()
    e['ASAN_OPTIONS'] = ('detect_leaks=0:allocator_may_return_null=1:exitcode=77:quarantine_size_mb=24:'
                         'malloc_context_size=8:abort_on_error=0:handle_abort=1:max_malloc_fill_size=65536:'
                         'malloc_fill_byte=190:allow_user_segv_handler=0:detect_odr_violation=0')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=77'
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:suppressions=' + os.path.join(VERIF, 'lib', 'tsan.supp')
    for m, p in vbuild.MODULES.items():
        e['PBT_' + m.upper()] = os.path.join(vbuild.BUILD, cfg, p)
        for c in vbuild.CONFIGS:
            e['PBT_%s_%s' % (c.upper(), m.upper())] = os.path.join(vbuild.BUILD, c, p)
    e['PBT_HELPERS'] = os.path.join(vbuild.BUILD, 'harness-' + cfg)
    e['PBT_REPO'] = vbuild.REPO
    e['PBT_BUILD'] = vbuild.BUILD
    e['PBT_LOCALES'] = vbuild.LOCALES
    e['PBT_VERIF'] = VERIF
    e.update(extra or {})
    return e


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.p = pid, tier, PROPS[pid]
        s = os.environ.get('VERIF_SEED', '1')
        try:
            self.seed = int(s)
        except ValueError:
            self.seed = int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)
        self.t0 = time.time()
        self.dir = os.path.join(OUT, '%s-%s' % (pid, tier))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cfg = self.p.get('cfg', 'asan')
        self.env = sanitizer_env(self.cfg, self.p.get('env'))
        self.stats = {'evaluations': 0, 'nontrivial': 0, 'labels': {}, 'samples': [], 'rule': ''}
        self.hashes = set()
        self.notes = []
        self.phases = []
        self.where = None

    def log(self, *a):
        print(*a, flush=True)

    # ------------------------------------------------------------- building
    def build(self):
        vbuild.locales()
        mods = self.p.get('mods', ['eni'])
        cfgs = [self.cfg] + self.p.get('extra_cfgs', [])
        with concurrent.futures.ThreadPoolExecutor(len(cfgs)) as ex:
            list(ex.map(lambda c: vbuild.repo_build(c, self.p.get('targets', mods)), cfgs))
        for name, src in self.p.get('helpers', {}).items():
            vbuild.helper_build(name, src, self.cfg)
        if self.p.get('programs'):      # (name, source, configuration, modules, language standard, further flags)
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda a: vbuild.helper_build(*a), self.p['programs']))
        self.exe = vbuild.harness_build(
            self.pid, self.p['src'], self.p.get('defs', []), self.cfg, mods,
            extra=self.p.get('cxx', []), std=self.p.get('std', 'c++17'))

    def twin(self, cfg):
        """the same check in another configuration; what follows runs there"""
        mods = self.p.get('mods', ['eni'])
        vbuild.repo_build(cfg, self.p.get('targets', mods))
        self.exe = vbuild.harness_build(self.pid, self.p['src'], self.p.get('defs', []), cfg, mods,
                                        extra=self.p.get('cxx', []), std=self.p.get('std', 'c++17'))
        self.env = sanitizer_env(cfg, self.p.get('env'))
        self.where = cfg

    def build_fuzzer(self):
        mods = self.p.get('mods', ['eni'])
        vbuild.repo_build('fuzz', self.p.get('targets', mods))
        return vbuild.harness_build(
            self.pid, self.p['src'], self.p.get('defs', []), 'fuzz', mods,
            extra=self.p.get('cxx', []), std=self.p.get('std', 'c++17'))

    # ------------------------------------------------------------- running
    def call(self, args, timeout, out=None):
        """(exit status, output); a timeout counts as a hang, status 'timeout'"""
        try:
            p = subprocess.run([self.exe] + args, env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, cwd=self.dir)
            return p.returncode, p.stdout[-200000:].decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'')[-20000:].decode('utf-8', 'replace')

    def replay(self, path):
        return self.call(['--mode', 'replay', '--in', path], self.p.get('case_timeout', 60))

    def confirm(self, path, n=3):
        """how many of n replays fail, and the output of a failing one"""
        bad, text = 0, ''
        self.hangs = False
        for _ in range(n):
            rc, o = self.replay(path)
            if rc != 0:
                bad += 1
                text = o
            if rc == 'timeout':
                self.hangs = True
                text += '\n(the case does not end)'
        return bad, text

    def violation(self, case_path, how):
        """A failing case: confirm it, shrink it, report it."""
        need = self.p.get('confirm_need', 2)
        bad, text = self.confirm(case_path, 3)
        if 0 < bad < 3 or (bad == 0 and self.p.get('flaky_confirm')):
            more, t2 = self.confirm(case_path, 7)
            bad += more
            text = t2 or text
        if bad < need:
            return False
        small = os.path.join(self.dir, 'shrunk.case')
        final = os.path.join(OUT, '%s.replay' % self.pid)
        shutil.copy(case_path, final)
        if bad >= 3 and not self.hangs and not self.p.get('no_shrink'):
            budget = 40 if self.tier == 'quick' else 240
            self.call(['--mode', 'shrink', '--in', case_path, '--out', small, '--secs', str(budget)], budget + 240)
            if os.path.exists(small):
                b2, t2 = self.confirm(small, 3)
                if b2 == 3:
                    shutil.copy(small, final)
                    text = t2
        self.report(final, how, text)
        return True

    def report(self, final, how, text):
        if self.where:
            how += ', in the build ' + self.where
            with open(final, errors='surrogateescape') as f:
                body = f.read()
            with open(final, 'w', errors='surrogateescape') as f:
                f.write(body + '# build=%s\n' % self.where)
        self.log('--- %s: %s' % (self.pid, how))
        self.log(text[-4000:].rstrip())
        try:
            self.log('--- replay (check.py %s --replay %s):' % (self.pid, final))
            self.log(open(final, errors='replace').read()[:2000].rstrip())
        except OSError:
            pass
        self.evidence(1)
        self.log('VIOLATION property=%s replay=%s' % (self.pid, final))
        sys.exit(1)

    def session(self, sess, index, how):
        """A failure that needs the cases before it in the same process."""
        first = sess['first']
        bad = 0
        text = ''
        for _ in range(3):
            rc, o = self.call(['--mode', 'explore', '--seed', str(sess['seed']), '--first', str(first), '--count',
                               str(index - first + 1)], self.p.get('session_timeout', 400))
            if rc != 0:
                bad += 1
                text = o
        if bad >= 2:
            final = os.path.join(OUT, '%s.replay' % self.pid)
            with open(final, 'w') as f:
                f.write('# session seed=%d first=%d count=%d\n' % (sess['seed'], first, index - first + 1))
            self.report(final, how + ' (needs the cases before it in the same process)', text)
        self.notes.append('unconfirmed failure at seed=%d index=%d: %s' % (sess['seed'], index, text[-300:]))
        return False

    # ------------------------------------------------------------- phases
    def regress(self):
        files = sorted(glob.glob(os.path.join(VERIF, 'corpus', self.pid, '*.case')))
        for f in files:
            rc, o = self.replay(f)
            if rc != 0 and self.violation(f, 'saved case %s fails (exit %s)' % (os.path.basename(f), rc)):
                return
        if files:
            self.phases.append({'phase': 'saved cases', 'cases': len(files)})

    def explore(self, part=1.0):
        cfgs = self.p[self.tier] if self.tier in self.p else self.p['quick']
        cases, secs = int(cfgs['cases'] * part), cfgs['secs'] * part
        before = self.stats['evaluations']
        jobs = min(JOBS, self.p.get('jobs', JOBS))
        rounds = cfgs.get('rounds', 1)
        base = (self.seed * 1000003 + 17 + (500009 if self.where else 0)) & 0x7fffffffffff
        t0 = time.time()
        for r in range(rounds):
            if r and time.time() - t0 > secs:
                break
            per = max(1, cases // jobs // rounds)
            ps = []
            for w in range(jobs):
                first = (r * jobs + w) * per
                out = os.path.join(self.dir, 'w%d' % w)
                for suf in ('.stats', '.stats.hashes', '.case', '.cur'):
                    if os.path.exists(out + suf):
                        os.remove(out + suf)
                log = open(out + '.log', 'wb')
                cmd = [self.exe, '--mode', 'explore', '--seed', str(base), '--first', str(first), '--count', str(per),
                       '--secs', str(max(1.0, secs - (time.time() - t0))), '--out', out]
                ps.append((w, first, out, log, subprocess.Popen(cmd, env=self.env, stdin=subprocess.DEVNULL, stdout=log,
                                                                stderr=subprocess.STDOUT, cwd=self.dir)))
            self.wait(ps, base, secs)
        name = 'generated cases' + (', build ' + self.where if self.where else '')
        self.phases.append({'phase': name, 'cases': self.stats['evaluations'] - before, 'seed': base,
                            'wall_s': round(time.time() - t0, 1)})

    def wait(self, ps, base, secs):
        """waits for workers; deals with the first failure among them"""
        failed = []
        live = {w: (first, out, p, [None, time.time()]) for w, first, out, log, p in ps}
        while live:
            time.sleep(0.05)
            for w in list(live):
                first, out, p, prog = live[w]
                rc = p.poll()
                if rc is None:
                    cur = self.cursor(out)
                    if cur != prog[0]:
                        prog[0], prog[1] = cur, time.time()
                    elif time.time() - prog[1] > self.p.get('stall', 90):
                        p.kill()
                        p.wait()
                        failed.append((w, first, out, 'stall'))
                        del live[w]
                    continue
                del live[w]
                if rc != 0:
                    failed.append((w, first, out, rc))
                else:
                    self.merge(out)
            if failed:
                for w in live:
                    live[w][2].kill()
                    live[w][2].wait()
                break
        for _, _, _, log, _ in ps:
            log.close()
        for w, first, out, rc in failed:
            idx = self.cursor(out)
            if idx is None:
                tail = open(out + '.log', errors='replace').read()[-3000:]
                raise vbuild.BuildError('worker ended with %s before its first case\n%s' % (rc, tail))
            case = out + '.failing'
            rc2, text = self.call(['--mode', 'dump', '--seed', str(base), '--first', str(idx)], 60)
            with open(case, 'w') as f:
                f.write(text)
            how = 'generated case %d of seed %d fails (exit %s)' % (idx, base, rc)
            if not self.violation(case, how):
                self.log('note: case %d did not fail on its own; replaying the session' % idx)
                self.session({'seed': base, 'first': first}, idx, how)

    def cursor(self, out):
        try:
            b = open(out + '.cur', 'rb').read(16)
            i, state = struct.unpack('QQ', b)
            return i if state else None
        except (OSError, struct.error):
            return None

    def merge(self, out):
        try:
            s = json.load(open(out + '.stats' if not out.endswith('.stats') else out))
        except (OSError, ValueError):
            return
        st = self.stats
        st['evaluations'] += s['evaluations']
        st['nontrivial'] += s['nontrivial']
        st['rule'] = s['rule']
        for k, v in s['labels'].items():
            st['labels'][k] = st['labels'].get(k, 0) + v
        if len(st['samples']) < 6:
            st['samples'] += s['samples'][:2]
        h = array.array('Q')
        p = (out if out.endswith('.stats') else out + '.stats') + '.hashes'
        with open(p, 'rb') as f:
            h.frombytes(f.read())
        if len(self.hashes) < 20000000:
            self.hashes.update(h)

    def fuzz(self):
        f = self.p.get('fuzz')
        if not f or self.tier not in f:
            return
        runs, secs = f[self.tier]
        try:
            fuzzer = self.fuzzer.result()
        except vbuild.BuildError as e:   # clang refuses what gcc accepts: the generated cases stand alone
            self.notes.append('no coverage-guided phase, the clang build failed: ' + str(e)[-300:])
            return
        fenv = sanitizer_env('fuzz', self.p.get('env'))
        jobs = min(JOBS, 8)
        t0 = time.time()
        before = self.stats['evaluations']
        ps = []
        for w in range(jobs):
            d = os.path.join(self.dir, 'fz%d' % w)
            os.makedirs(os.path.join(d, 'corpus'))
            rnd = random.Random(self.seed * 100 + w)
            for i in range(0 if w == 0 else 60):
                with open(os.path.join(d, 'corpus', 's%d' % i), 'wb') as o:
                    o.write(bytes(rnd.getrandbits(8) for _ in range(8 << rnd.randrange(7))))
            e = dict(fenv)
            e['PBT_FUZZ_STATS'] = os.path.join(d, 'f.stats')
            log = open(os.path.join(d, 'log'), 'wb')
            cmd = [fuzzer, '-seed=%d' % (self.seed * 16 + w + 1), '-runs=%d' % (runs // jobs), '-max_total_time=%d' % secs,
                   '-artifact_prefix=' + d + '/', '-max_len=%d' % f.get('max_len', 1024), '-timeout=1200', '-rss_limit_mb=6000',
                   '-detect_leaks=0', '-verbosity=0', '-use_value_profile=%d' % (w % 2), os.path.join(d, 'corpus')]
            ps.append((w, d, log, subprocess.Popen(cmd, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, cwd=d)))
        bad = []
        for w, d, log, p in ps:
            try:
                rc = p.wait(timeout=secs + 400)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
            log.close()
            if rc == 0:
                self.merge(os.path.join(d, 'f.stats'))
            else:
                arts = [a for a in glob.glob(d + '/*') if os.path.basename(a).split('-')[0] in ('crash', 'oom', 'timeout', 'slow')]
                bad.append((w, d, rc, arts))
        for w, d, rc, arts in bad:
            done = False
            for a in arts:
                if os.path.basename(a).startswith('slow'):
                    continue
                _, text = self.call(['--mode', 'decode', '--in', a], 60)
                case = os.path.join(d, 'failing.case')
                with open(case, 'w') as f2:
                    f2.write(text)
                if self.violation(case, 'fuzzed case fails (libFuzzer exit %s)' % rc):
                    return
            # a hang or exit guard leaves no artifact: nothing to confirm
            self.notes.append('fuzz worker %d ended with %s without a confirmed failing case' % (w, rc))
        self.phases.append({'phase': 'coverage-guided (libFuzzer)', 'cases': self.stats['evaluations'] - before,
                            'wall_s': round(time.time() - t0, 1)})

    # ------------------------------------------------------------- evidence
    def evidence(self, violations):
        st = self.stats
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': st['evaluations'], 'distinct_nontrivial': len(self.hashes),
                'nontrivial': st['nontrivial'],
                'rule': st['rule'] or self.p.get('rule', ''), 'samples': st['samples'][:6],
                'labels': dict(sorted(st['labels'].items())), 'phases': self.phases, 'notes': self.notes,
            },
            'assumptions': self.p.get('assumptions', []),
            'wall_s': round(time.time() - self.t0, 2), 'violations': violations,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    def known(self):
        path = os.path.join(VERIF, 'KNOWN_FINDINGS')
        if os.path.exists(path):
            for line in open(path):
                if line.startswith('finding: property=%s ' % self.pid):
                    self.log('KNOWN-FINDING: ' + line[len('finding: '):].rstrip())

    def main(self):
        self.build()
        tb = time.time() - self.t0
        if self.tier in self.p.get('fuzz', {}):     # the clang build runs beside the first phases
            self.fuzzer = concurrent.futures.ThreadPoolExecutor(1).submit(self.build_fuzzer)
        self.regress()
        self.explore()
        self.fuzz()
        for cfg in self.p.get('twins', []):
            self.twin(cfg)
            self.regress()
            self.explore(part=0.3)
        self.known()
        self.evidence(0)
        if not self.stats['evaluations']:
            self.log('no case was evaluated')
            sys.exit(2)
        low = [k for k in self.p.get('must', []) if not self.stats['labels'].get(k)]
        if low:
            self.log('note: classes never generated: %s' % ', '.join(low))
        self.log('%s %s: held on %d cases (%d distinct non-trivial), seed %d, build %.1fs, total %.1fs' % (
            self.pid, self.tier, self.stats['evaluations'], len(self.hashes), self.seed, tb, time.time() - self.t0))


def main():
    a = sys.argv[1:]
    try:    # deep nesting: the sanitizers' frames are several times the size of the real ones
        resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except (ValueError, OSError):
        pass
    if a == ['--setup']:   # builds nothing that a check would not build itself; shows that the tools are there
        for t in ('gcc', 'g++', 'clang', 'clang++', 'cmake', 'ninja'):
            if not shutil.which(t):
                print('check.py: %s is missing' % t)
                sys.exit(2)
        sys.exit(0)
    if not a or a[0] not in PROPS:
        print(__doc__)
        print('properties: ' + ' '.join(sorted(PROPS)))
        sys.exit(2)
    pid = a[0]
    os.makedirs(OUT, exist_ok=True)
    try:
        if len(a) == 3 and a[1] == '--replay':
            path = os.path.abspath(a[2])
            c = Check(pid, 'replay')
            text = open(path, errors='replace').read()
            head = text.split('\n')[0]
            m = re.search(r'^# build=(\w+)$', text, re.M)
            if m and m.group(1) in vbuild.CONFIGS:
                c.twin(m.group(1))
            else:
                c.build()
            if head.startswith('# session '):
                kv = dict(x.split('=') for x in head.split()[2:])
                rc, o = c.call(['--mode', 'explore', '--seed', kv['seed'], '--first', kv['first'], '--count', kv['count']], 900)
            else:
                rc, o = c.replay(path)
            print(o)
            if rc != 0:
                print('VIOLATION property=%s replay=%s' % (pid, path))
            sys.exit(1 if rc != 0 else 0)
        tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            print(__doc__)
            sys.exit(2)
        Check(pid, tier).main()
    except vbuild.UseError as e:
        path = os.path.join(OUT, '%s.replay' % pid)
        with open(path, 'w') as f:
            f.write('# build\n# The program of this check, which uses the public headers as any other, no longer builds:\n%s\n' % e)
        print('%s\nVIOLATION property=%s replay=%s' % (e, pid, path))
        sys.exit(1)
    except vbuild.BuildError as e:
        print('check.py: cannot build or start: %s' % e)
        sys.exit(2)


if __name__ == '__main__':
    main()
