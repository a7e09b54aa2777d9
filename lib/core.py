"""Builds the driver from /repo's working tree, runs programs, and has TLC validate what was recorded.
Nothing here judges behaviour of the library: verdicts come from spec/Liq.tla only."""
import concurrent.futures, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = VERIF + '/spec'
DRIVER = VERIF + '/driver'

class ToolError(Exception):
    pass

def env(**kw):
    e = dict(os.environ)
    e.update(HOME=os.environ.get('HOME', '/root'), CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUST_BACKTRACE='0')
    e.setdefault('RUSTUP_TOOLCHAIN', 'stable-x86_64-unknown-linux-gnu')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e.update({k: str(v) for k, v in kw.items()})
    return e

# ---------------------------------------------------------------- builds
BUILDS = {
    # threads, debug assertions and overflow checks on
    'thr': (['--features', 'threads'], 'target', 'debug'),
    # no threads, optimized, as released
    'nothr': (['--release'], 'target/b', 'release'),
    # threads, optimized, as released
    'rel': (['--release', '--features', 'threads'], 'target/r', 'release'),
    # palettes of up to 2048 colors
    'large': (['--features', 'threads,large'], 'target/l', 'debug'),
    # no optimizations, no assertions
    'plain': (['--profile', 'plain'], 'target/d', 'plain'),
}

def repo_hash():
    """contents (not times) of everything that goes into the build"""
    h = hashlib.sha256()
    for top in (REPO, DRIVER):
        files = []
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'work') and not x.startswith('target'))
            files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            if os.path.isfile(f) and os.path.getsize(f) < 4000000 and f.rsplit('.', 1)[-1] in ('rs', 'toml', 'h', 'c', 'lock', 'in'):
                h.update(f.encode() + b'\0')
                h.update(open(f, 'rb').read())
    return h.hexdigest()

def build(tag, stamp):
    args, tdir, prof = BUILDS[tag]
    tdir = DRIVER + '/' + tdir
    exe = '%s/%s/liqdrv' % (tdir, prof)
    mark = tdir + '/.stamp-' + prof
    os.makedirs(tdir, exist_ok=True)
    if os.path.exists(exe) and os.path.exists(mark) and open(mark).read() == stamp:
        return exe
    if os.path.exists(mark):
        os.unlink(mark)
        # times of files are not to be trusted
        subprocess.run(['cargo', 'clean', '--offline', '--target-dir', tdir, '-p', 'imagequant', '-p', 'imagequant-sys', '-p', 'liqdrv'] + (['--profile', 'plain'] if prof == 'plain' else ['--release'] if prof == 'release' else []),
                       cwd=DRIVER, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(['cargo', 'build', '--offline', '--target-dir', tdir] + args, cwd=DRIVER, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        raise ToolError('build %s failed:\n%s' % (tag, r.stdout[-4000:]))
    open(mark, 'w').write(stamp)
    return exe

# ---------------------------------------------------------------- running programs
def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    os.setsid()

def run_driver(exe, progs_file, out_file, jobs, tag, timeout, extra_env):
    p = subprocess.Popen([exe, progs_file, out_file, str(jobs)], env=env(LIQDRV_BUILD=tag, **extra_env), preexec_fn=limits, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        return p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return 'timeout'

def wellformed(l):
    """memory of the driver may have been overwritten"""
    try:
        return l.isascii() and all('op' in e for e in json.loads(l)['ev'])
    except (ValueError, TypeError):
        return False

def read_out(out_file):
    done, begun = {}, []
    if os.path.exists(out_file):
        for l in open(out_file, errors='replace'):
            l = l.strip()
            m = re.match(r'\{"begin":"([^"]*)"\}$', l)
            if m:
                begun.append(m.group(1))
                continue
            m = re.match(r'\{"id":"([^"]*)","ev":\[(.*)\]\}$', l)
            if m and wellformed(l):
                done[m.group(1)] = m.group(2)
    return done, begun

class Run:
    """programs to be executed by one build of the driver, in one process"""
    def __init__(self, tag, progs, jobs=8, timeout=200, **extra_env):
        self.tag, self.progs, self.jobs, self.timeout, self.env = tag, progs, jobs, timeout, extra_env

    def execute(self, exe, wd, n):
        """returns {program id: text of events}"""
        pf, of = '%s/run%d.txt' % (wd, n), '%s/run%d.out' % (wd, n)
        texts = {p.id: p.text() for p in self.progs}
        assert len(texts) == len(self.progs), 'ids must be unique'
        open(pf, 'w').write(''.join(texts.values()))
        rc = run_driver(exe, pf, of, self.jobs, self.tag, self.timeout, self.env)
        done, begun = read_out(of)
        os.unlink(of)
        if rc == 0 and len(done) == len(texts):
            return done
        # the process died: find out which program did it, one at a time
        rest = [i for i in begun if i not in done] + [i for i in texts if i not in done and i not in set(begun)]
        deadline = time.time() + self.timeout
        crashed = 0
        for k, i in enumerate(rest):
            if crashed >= 2 or time.time() > deadline:
                break
            one = '%s/one%d.txt' % (wd, n)
            open(one, 'w').write(texts[i])
            rc = run_driver(exe, one, of, 1, self.tag, 60, self.env)
            d, _ = read_out(of)
            if os.path.exists(of):
                os.unlink(of)
            if rc == 0 and i in d:
                done[i] = d[i]
            else:
                done[i] = '{"op":"%s","how":"%s"}' % ('hang' if rc == 'timeout' else 'crash', rc)
                crashed += 1
        if not crashed and rc != 0 and len(done) == len(texts):
            # dies only in company of others
            for i in begun[-self.jobs:]:
                done[i] += ',{"op":"crash","how":"concurrent"}'
        return done

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, wd, e, workers=8, args=(), timeout=800, heap=None):
    md = '%s/md-%s-%s' % (wd, module, hashlib.md5(repr((sorted(e.items()), args)).encode()).hexdigest()[:8])
    cmd = ['tlc', '-noGenerateSpecTE', '-metadir', md, '-workers', str(workers), '-config', cfg, *args, module + '.tla']
    x = env(**e)
    x['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss16m -Djava.io.tmpdir=%s -XX:TieredStopAtLevel=1 -XX:+UseParallelGC -XX:ParallelGCThreads=%d' % (heap or '6g', wd, workers)
    p = subprocess.Popen(cmd, cwd=SPEC, env=x, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=os.setsid)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        shutil.rmtree(md, ignore_errors=True)
        raise ToolError('TLC %s %s timed out' % (module, cfg))
    shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r'(\d+) states generated(?:, (\d+) distinct states found)?', out.replace(',', ',')) 
    st = m[-1] if m else ('0', '0')
    return p.returncode, out, int(st[1] or st[0]), int(st[0])

def validate(prop, memo, merged, wd, workers):
    """merged: {id: text of events}. Returns (violation or None, states, transitions)"""
    tf = '%s/trace%s.ndjson' % (wd, hashlib.md5(repr(sorted(merged)).encode()).hexdigest()[:8])
    with open(tf, 'w') as f:
        for i, ev in merged.items():
            f.write('{"id":"%s","ev":[%s]}\n' % (i, ev))
    rc, out, states, trans = tlc('TraceLiq', 'TraceLiq.cfg', wd, dict(LIQ_TABLES=SPEC + '/lut.json', LIQ_TRACE=tf, LIQ_PROP=prop, LIQ_MEMO='1' if memo else '0'), workers=workers, heap='3g')
    if rc == 0 and 'No error has been found' in out:
        os.unlink(tf)
        return None, states, trans
    if 'Invariant Conforms is violated' in out:
        w = re.findall(r'/\\ prog = "([^"]*)"', out), re.findall(r'/\\ event = (\d+)', out), re.findall(r'/\\ bad = (\{.*?\})\s*(?=\n\n|\n/\\|\Z)', out, re.S)
        return dict(prog=w[0][-1], event=int(w[1][-1]), bad=' '.join(w[2][-1].split())), states, trans
    errs = [l for l in out.splitlines() if 'Parsing file' not in l and 'Semantic' not in l and 'Linting' not in l]
    raise ToolError('TLC failed on %s:\n%s' % (tf, '\n'.join(errs)[-5000:]))

def generate(focus, depth, walk, n, seed, wd):
    """programs from spec/GenLiq.tla, as lists of lines with $tokens"""
    e = dict(LIQ_FOCUS=focus, LIQ_WALK='1' if walk else '0', LIQ_DEPTH=str(depth))
    args = ('-simulate', 'num=%d' % n, '-depth', str(depth + 1), '-seed', str(seed)) if walk else ()
    rc, out, states, trans = tlc('GenLiq', 'GenLiq.cfg', wd, e, workers=1, args=args, heap='2g')
    if rc != 0:
        raise ToolError('generation failed: ' + out[-3000:])
    g = re.findall(r'^"GEN (.*)"$', out, re.M)
    return [x.split(';') for x in g], states, trans
