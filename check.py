#!/usr/bin/env python3
"""Driver: builds the symbolic harness of one property from /repo's current sources, explores it with
the engine, replays every counterexample natively and writes /verif/evidence/<id>.json.
   check.py C01 [--tier quick|thorough] [--harness NAME] [--keep] [-t SECONDS]
   check.py --tools            build the engine only
   check.py --replay FILE      replay a recorded counterexample against the native build
"""
import inspect, sys, os, re, json, hashlib, subprocess, time, shutil, fcntl, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
SRC = REPO + '/src'
B = os.environ.get('SX_BUILD', V + '/build')
E = V + '/engine'
NJ = int(os.environ.get('SX_JOBS', '0')) or os.cpu_count() or 4
T0 = time.time()
def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)
def sha(*xs):
    h = hashlib.sha256()
    for x in xs: h.update(x if isinstance(x, bytes) else str(x).encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def fsha(p):
    try:
        with open(p, 'rb') as f: return hashlib.sha256(f.read()).hexdigest()[:24]
    except OSError: return 'missing'
def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    if r.returncode: raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))
    return r.stdout.decode(errors='replace')
INC = ['-I' + E, '-I' + V + '/harness', '-I' + SRC + '/include', '-I' + SRC + '/kenlm', '-I' + SRC + '/marisa', '-I' + SRC]
CF = ['-O1', '-g1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-stack-protector', '-fno-pie', '-w',
      '-mllvm', '-inline-threshold=60', '-DKENLM_MAX_ORDER=6', '-U_FORTIFY_SOURCE'] + INC
CXX = ['-std=c++11', '-include', 'map']
Z3LIB = os.environ.get('SX_Z3', '-lz3')
LIBS = ['-lboost_thread', '-lboost_regex', '-lboost_iostreams', '-lboost_system', '-lboost_locale', '-lboost_program_options',
        '-licuuc', '-licui18n', '-licudata', '-lz', '-lpthread', '-lrt', '-lm']
def atomic(tmp, out): os.replace(tmp, out)

def lockdir():
    os.makedirs(B, exist_ok=True)
    f = open(B + '/.lock', 'w'); fcntl.flock(f, fcntl.LOCK_EX); return f

# ------------------------------------------------------------------ engine
def tools(ex):
    """futures for pass.so, rt.o, models.o, stdinst.o"""
    key = sha(inspect.getsource(tools), ' '.join(CF), *[fsha(E + '/' + f) for f in sorted(os.listdir(E))])
    d = B + '/tools-' + key
    os.makedirs(d, exist_ok=True)
    def mk(out, cmd, deps=()):
        def go():
            for x in deps: x.result()
            o = d + '/' + out
            if os.path.exists(o): return o
            t = o + '.%d.tmp' % os.getpid()
            if out.endswith('.so') or not isinstance(cmd, list):
                run(cmd(t) if callable(cmd) else cmd + ['-o', t])
            else: run(cmd + ['-o', t])
            atomic(t, o); return o
        return ex.submit(go)
    lc = run(['llvm-config-18', '--cxxflags']).split()
    p = mk('pass.so', ['clang++', '-O1', '-shared', '-fPIC', E + '/pass.cpp'] + lc)
    def mkrt():
        # the runtime must not share template instantiations with instrumented code: bind its own copies locally
        o = d + '/rt.o'
        if os.path.exists(o): return o
        t = o + '.%d' % os.getpid()
        run(['g++', '-O2', '-g1', '-fno-pie', '-D_GLIBCXX_ASSERTIONS', '-c', E + '/rt.cpp', '-o', t + '.1'])
        run(['ld', '-r', '--force-group-allocation', t + '.1', '-o', t + '.2'])
        run(['objcopy', '--wildcard', '--keep-global-symbol=__sx_*', '--keep-global-symbol=_Zn*', '--keep-global-symbol=_Zda*', '--keep-global-symbol=_Zdl*', '--keep-global-symbol=main', t + '.2', t + '.3'])
        os.unlink(t + '.1'); os.unlink(t + '.2'); atomic(t + '.3', o); return o
    r = ex.submit(mkrt)
    def inst(src, out, extra):
        def go():
            o = d + '/' + out
            if os.path.exists(o): return o
            t = o + '.%d' % os.getpid()
            run(['clang++' if src.endswith('pp') else 'clang'] + extra + CF + ['-emit-llvm', '-c', E + '/' + src, '-o', t + '.bc'])
            p.result()
            run(['opt-18', '-load-pass-plugin=' + d + '/pass.so', '-passes=sx', t + '.bc', '-o', t + '.i.bc'])
            run(['llc-18', '-O0', '--relocation-model=static', '-filetype=obj', t + '.i.bc', '-o', t + '.tmp'])
            os.unlink(t + '.bc'); os.unlink(t + '.i.bc')
            atomic(t + '.tmp', o); return o
        return ex.submit(go)
    m = inst('models.c', 'models.o', ['-fno-builtin'])
    s = inst('stdinst.cpp', 'stdinst.o', ['-std=c++11'])
    return d, [p, r, m, s]

# ------------------------------------------------------------------ translation units -> bitcode
def deps_ok(f):
    try: j = json.load(open(f))
    except Exception: return False
    return all(fsha(p) == h for p, h in j)
def compile_bc(src, extra=(), kind='bc'):
    """src absolute; returns path of the (cached) bitcode / native object"""
    key = sha(src, kind, ' '.join(CF), ' '.join(extra))
    d = B + '/' + kind; os.makedirs(d, exist_ok=True)
    out = '%s/%s-%s.%s' % (d, re.sub(r'[^A-Za-z0-9]+', '_', os.path.basename(src)), key, 'bc' if kind == 'bc' else 'o')
    if os.path.exists(out) and deps_ok(out + '.dep'): return out
    t = out + '.%d' % os.getpid()
    iscxx = not src.endswith('.c')
    if kind == 'bc':
        cmd = ['clang++' if iscxx else 'clang'] + (CXX if iscxx else []) + CF + list(extra) + ['-emit-llvm', '-c', src, '-o', t, '-MD', '-MF', t + '.d']
    else:
        cmd = ['g++' if iscxx else 'gcc'] + (CXX if iscxx else []) + ['-O1', '-g1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-DKENLM_MAX_ORDER=6'] + INC + list(extra) + ['-c', src, '-o', t, '-MD', '-MF', t + '.d']
    run(cmd)
    txt = open(t + '.d').read().replace('\\\n', ' ')
    ds = [x for x in txt.split(':', 1)[1].split() if x.startswith((REPO, V)) or not x.startswith('/')]
    json.dump([(x, fsha(x)) for x in ds], open(t + '.dep', 'w'))
    atomic(t + '.dep', out + '.dep'); os.unlink(t + '.d'); atomic(t, out)
    return out

def allsrc():
    r = []
    for d in ('lib', 'kenlm/util', 'kenlm/util/double-conversion', 'kenlm/util/stream', 'kenlm/lm', 'marisa/marisa', 'tercpp', 'liblbfgs', 'marisa/marisa/grimoire'):
        for root, dirs, fs in os.walk(SRC + '/' + d):
            if 'builder' in root or 'filter' in root or 'wrappers' in root: continue
            for f in sorted(fs):
                if f.endswith(('.cc', '.cpp', '.c')) and not re.search(r'(_main|_test|-test|main)\.(cc|cpp|c)$', f):
                    p = os.path.relpath(root + '/' + f, SRC)
                    if p not in r: r.append(p)
    return r
def defined_syms(bc):
    o = run(['llvm-nm-18' if shutil.which('llvm-nm-18') else 'llvm-nm', '--defined-only', '--extern-only', '--format=just-symbols', bc])
    return set(x for x in o.split() if x)

META = re.compile(r'^//\s*@(\w+)\s*(.*)$')
def meta(prop):
    p = V + '/harness/' + prop + '.cpp'
    m = {'sources': [], 'bounds': [], 'assume': [], 'harness': {}, 'flags': [], 'reach': [], 'stub': [], 'cut': [], 'opt': {}}
    for l in open(p):
        g = META.match(l)
        if not g: continue
        k, v = g.group(1), g.group(2).strip()
        if k == 'sources': m['sources'] += v.split()
        elif k == 'harness':
            a = v.split(); h = {'quick': 25, 'thorough': 400, 'kf': False, 'path': 60, 'maxconc': 0}
            for x in a[1:]:
                if '=' in x:
                    kk, vv = x.split('=', 1); h[kk] = float(vv) if re.match(r'^[\d.]+$', vv) else vv
                else: h[x] = True
            m['harness'][a[0]] = h
        elif k == 'flags': m['flags'] += v.split()
        elif k in m and isinstance(m[k], list): m[k].append(v)
    # de-duplicate, keep order
    m['sources'] = list(dict.fromkeys(m['sources']))
    m['path'] = p
    return m

def build(prop, m, ex):
    td, tf = tools(ex)
    bcs = [ex.submit(compile_bc, m['path'], tuple(m['flags']))] + [ex.submit(compile_bc, SRC + '/' + s, tuple(m['flags'])) for s in m['sources'] if os.path.exists(SRC + '/' + s)]
    files = [f.result() for f in bcs]
    for f in tf: f.result()
    log('compiled %d units' % len(files))
    tried = False
    while True:
        key = sha(td, *[fsha(f) for f in files])
        exe = '%s/exe/%s-%s' % (B, prop, key)
        os.makedirs(B + '/exe', exist_ok=True)
        if os.path.exists(exe): return exe, files
        t = exe + '.%d' % os.getpid()
        run(['llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link', '-o', t + '.bc'] + files)
        run(['opt-18', '-load-pass-plugin=' + td + '/pass.so', '-passes=internalize,globaldce,sx', '-internalize-public-api-list=__sx_none', t + '.bc', '-o', t + '.i.bc'])
        run(['llc-18', '-O0', '--relocation-model=static', '-filetype=obj', t + '.i.bc', '-o', t + '.o'])
        r = subprocess.run(['g++', '-no-pie', '-Wl,-z,now', t + '.o', td + '/rt.o', td + '/models.o', td + '/stdinst.o', '-o', t] + (['-Wl,--warn-unresolved-symbols'] if m['cut'] else []) + [Z3LIB, '-lminisat'] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        for x in ('.bc', '.i.bc', '.o'):
            try: os.unlink(t + x)
            except OSError: pass
        und = [u for u in re.findall(r"undefined reference to `([^']+)'", r.stdout.decode(errors='replace')) if not is_cut(m, u)]
        if r.returncode == 0 and not und:
            atomic(t, exe); log('linked', exe); return exe, files
        if tried or not und: raise RuntimeError('link failed\n' + r.stdout.decode(errors='replace')[-4000:])
        # a unit outside the list is needed (the code was reorganised, or a new harness): find it
        log('undefined symbols, resolving:', sorted(set(und))[:6])
        files = resolve(files, m, ex); tried = True

def is_cut(m, sym):
    """symbols (demangled) that the harness declares unreachable: a call would jump to address 0 and be reported as a crash"""
    return any(re.search(c, sym) for c in m['cut'])
def resolve(files, m, ex):
    srcs = [s for s in allsrc() if s not in m['sources']]
    futs = {s: ex.submit(compile_bc, SRC + '/' + s, tuple(m['flags'])) for s in srcs}
    prov = {}
    bcof = {}
    for s, f in futs.items():
        try: bcof[s] = f.result()
        except RuntimeError: continue
    for s, b in bcof.items():
        for y in defined_syms(b): prov.setdefault(y, s)
    nm = 'llvm-nm-18' if shutil.which('llvm-nm-18') else 'llvm-nm'
    # closure over reachable symbols only: link, internalise, dce, list undefined
    added = []
    while True:
        t = B + '/res.%d' % os.getpid()
        run(['llvm-link', '-o', t + '.bc'] + files)
        run(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=__sx_none', t + '.bc', '-o', t + '.i.bc'])
        und = run([nm, '--undefined-only', '--format=just-symbols', t + '.i.bc']).split()
        if m['cut']: und = [u for u in und if not is_cut(m, run(['c++filt', u]).strip())]
        os.unlink(t + '.bc'); os.unlink(t + '.i.bc')
        new = sorted(set(prov[u] for u in und if u in prov) - set(added))
        if not new: break
        added += new; files = files + [bcof[s] for s in new]
    log('add to @sources: ' + ' '.join(added))
    m['sources'] += added
    return files

def build_native(prop, m, ex):
    """independent g++ build with AddressSanitizer, no instrumentation: the replay target"""
    srcs = [m['path'], E + '/native.cpp'] + [SRC + '/' + s for s in m['sources'] if os.path.exists(SRC + '/' + s)]
    objs = [f.result() for f in [ex.submit(compile_bc, s, tuple(m['flags']), 'nat') for s in srcs]]
    exe = '%s/exe/%s-native-%s' % (B, prop, sha(*[fsha(o) for o in objs]))
    os.makedirs(B + '/exe', exist_ok=True)
    if not os.path.exists(exe):
        t = exe + '.%d' % os.getpid()
        link = ['g++', '-fsanitize=address', '-Wl,--gc-sections'] + objs + ['-o', t]; loose = ['-Wl,--unresolved-symbols=ignore-all', '-no-pie']
        if m['cut']: run(link + loose + LIBS)
        else:
            try: run(link + LIBS)
            # functions that the harness does not reach may need units that are not linked
            except RuntimeError: run(link + loose + LIBS)
        atomic(t, exe)
    return exe
def replay(exe, path, timeout=90):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:malloc_fill_byte=205:max_malloc_fill_size=65536', LC_ALL='C')
    d = B + '/scratch.%d' % os.getpid(); os.makedirs(d, exist_ok=True)
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=d)
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return -14, (e.stdout or b'').decode(errors='replace')
    finally: shutil.rmtree(d, ignore_errors=True)

def known_findings(prop):
    r = []
    p = V + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            j = json.loads(l)
            if j.get('property') == prop and j.get('status', 'open') == 'open': r.append(j)
    return r

SAFE_EXT = re.compile(r'^(_Zn[wa]|_Zd[la]|_ZNSt6locale|_ZNKSt6locale|_ZNSt8ios_base|_ZNSt9basic_ios|_ZNKSt9basic_ios|__cxa_|_Unwind|__gxx|_ZSt\d+__throw|_ZNSt\w*exception|_ZNSt\d+\w*error|_ZNSs|_ZSt9use_facet|_ZSt9has_facet|_ZNSt5ctype|_ZNKSt5ctype|__sx|_ZSt1[68]_Rb_tree|_ZNSt15__exception_ptr)')

def main():
    a = sys.argv[1:]
    prop = None; tier = os.environ.get('VERIF_TIER') or 'quick'; only = []; over = None; rep = None
    i = 0
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--harness': only.append(a[i + 1]); i += 2
        elif a[i] == '-t': over = float(a[i + 1]); i += 2
        elif a[i] == '--replay': rep = a[i + 1]; i += 2
        elif a[i] == '--native':  # development aid: the replay build alone
            with cf.ThreadPoolExecutor(NJ) as ex: print(build_native(prop, meta(prop), ex))
            return 0
        elif a[i] == '--tools':
            with cf.ThreadPoolExecutor(NJ) as ex: [f.result() for f in tools(ex)[1]]
            return 0
        else: prop = a[i]; i += 1
    if rep:
        prop = os.path.basename(rep).split('-')[0]; m = meta(prop)
        with cf.ThreadPoolExecutor(NJ) as ex: exe = build_native(prop, m, ex)
        rc, o = replay(exe, rep); print(o); print('exit', rc)
        return 0 if rc == 0 else 1
    seed = int(os.environ.get('VERIF_SEED') or 1)
    m = meta(prop)
    # two pools: compile jobs wait on nothing but each other via tool futures
    ex = cf.ThreadPoolExecutor(NJ + 4)
    exe, files = build(prop, m, ex)
    build_s = time.time() - T0
    hs = [h for h in m['harness'] if not only or h in only]
    listed = run([exe, '--list'], env=dict(os.environ, SX_NOASLR='1')).split()
    for h in hs:
        if h not in listed: raise RuntimeError('harness %s not in binary' % h)
    if not only and set(listed) - set(m['harness']): raise RuntimeError('harness without @harness: %s' % (set(listed) - set(m['harness'])))
    kfs = known_findings(prop)
    rdir = V + '/replays'; os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'): os.unlink(rdir + '/' + f)
    results = []; viol = []; kfseen = []; unconf = []; native = None; validated = 0; vacuous = []
    sampled = 0
    for h in hs:
        c = m['harness'][h]
        o = '%s/out-%s-%d.json' % (B, h, os.getpid())
        bud = over or c[tier]
        if bud == 0: continue
        cmd = [exe, h, '-j', str(NJ), '-t', str(bud), '-o', o, '--tier', '1' if tier == 'thorough' else '0', '--path-timeout', str(int(c['path'])), '--seed', str(seed)]
        if c['maxconc']: cmd += ['--maxconc', str(int(c['maxconc']))]
        sd = '%s/run.%d' % (B, os.getpid()); os.makedirs(sd, exist_ok=True)
        r = subprocess.run(cmd, cwd=sd, env=dict(os.environ, SX_CROSS=os.environ.get('SX_CROSS', '20' if tier == 'thorough' else '200')), stdout=subprocess.PIPE, stderr=None if os.environ.get('SX_PROGRESS') else subprocess.PIPE)
        shutil.rmtree(sd, ignore_errors=True)
        if r.returncode or not os.path.exists(o): raise RuntimeError('engine failed on %s: rc %d\n%s' % (h, r.returncode, (r.stderr or b'').decode(errors='replace')[-2000:]))
        j = json.load(open(o)); os.unlink(o)
        results.append(j)
        log('%-28s complete=%s paths=%d queries=%d solver=%.1fs wall=%.1fs asserts=%d/%d cands=%d%s%s%s' % (h, j['complete'], j['paths'], j['queries'], j['solver_s'], j['wall_s'], j['asserts'], j['assert_queries'], len(j['candidates']),
            ' ERRORS=%d %s' % (j['engine_errors'], j['errors'][:2]) if j['engine_errors'] else '', ' LOST=%d' % j['lost_runs'] if j['lost_runs'] else '', ' reach=%s' % j['reach']))
        if j['fallbacks'] and os.environ.get('SX_V'): log('   fallbacks', j['fallbacks'])
        if os.environ.get('SX_V'): log('   externals', [x for x in j['externals'] if not SAFE_EXT.match(x)])
        want = ['end'] + [x.split()[1] for x in m['reach'] if x.split()[0] == h]
        if not j['candidates'] and j['complete']:
            for w in want:
                if not j['reach'].get(w): vacuous.append((h, w))
        n = 0; seen = {}
        for cd in j['candidates']:
            if seen.get(cd['msg'], 0) >= 1 and not (cd['msg'] in [u['msg'] for u in unconf]) : continue
            if native is None: native = build_native(prop, m, ex); log('native replay build done')
            rp = '%s/%s-%s-%d.txt' % (rdir, prop, h, n); n += 1
            with open(rp, 'w') as f: f.write('%s\n%d\n%s\n#names %s\n' % (h, 1 if tier == 'thorough' else 0, ' '.join(map(str, cd['vals'])), cd['names']))
            rc, txt = replay(native, rp)
            validated += 1
            ok = rc not in (0, 43, 2) and (cd['kind'] == 'C' or rc == 42 or True)
            if not ok:
                unconf.append({'harness': h, 'msg': cd['msg'], 'rc': rc}); log('   UNCONFIRMED', cd['msg'], 'rc', rc, rp)
                continue
            seen[cd['msg']] = seen.get(cd['msg'], 0) + 1
            what = cd['msg']
            g = re.search(r'SX-ASSERT-FAIL (.*)', txt)
            if g: what = g.group(1)
            elif 'AddressSanitizer' in txt: what = 'crash: ' + (re.search(r'AddressSanitizer: ([^\n]{0,80})', txt) or [0, 'asan'])[1]
            elif rc == -14 or rc == -2: what = 'hang'
            else: what = 'crash/exception rc=%d: %s' % (rc, txt.strip().split('\n')[-1][:120])
            with open(rp, 'a') as f: f.write('# ' + what.replace('\n', ' ') + '\n' + ''.join('# ' + l + '\n' for l in txt.split('\n')[:60]))
            kf = next((k for k in kfs if k['harness'] == h and re.search(k['match'], what)), None)
            if kf: kfseen.append(kf['id']) if kf['id'] not in kfseen else None; continue
            viol.append((h, what, rp))
        if len(viol) >= 3: break
        if tier == 'thorough' and j['samples'] and not j['candidates']:
            # translator validation: inputs the engine executed must behave the same in the native build
            if native is None: native = build_native(prop, m, ex)
            for vs in j['samples']:
                rp = '%s/sample-%d.txt' % (B, os.getpid())
                with open(rp, 'w') as f: f.write('%s\n1\n%s\n' % (h, ' '.join(map(str, vs))))
                rc, txt = replay(native, rp); sampled += 1
                os.unlink(rp)
                if rc not in (0, 43): log('   native run of an explored input disagrees: rc', rc, h, vs, txt[-300:]); unconf.append({'harness': h, 'msg': 'native-disagrees', 'rc': rc})
    ex.shutdown()
    for k in kfs:
        if k['id'] in kfseen: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    fns = {}
    for j in results:
        for n, f, l, ni in j['functions']: fns[n] = (f, l, ni)
    dem = {}
    try:
        d = subprocess.run(['c++filt'], input='\n'.join(fns), capture_output=True, text=True).stdout.split('\n')
        dem = dict(zip(fns, d))
    except Exception: pass
    repofns = sorted(set('%s:%s %s' % (os.path.relpath(f.split('|')[-1] if f.split('|')[-1].startswith('/') else f.replace('|', '/'), REPO), l, dem.get(n, n)[:160]) for n, (f, l, ni) in fns.items() if REPO + '/' in f.replace('|', '/')))
    tot = lambda k: sum(j[k] for j in results)
    exts = sorted(set(x for j in results for x in j['externals'] if not SAFE_EXT.match(x)))
    cov = {
        'states': int(tot('paths')), 'transitions': int(tot('decisions')), 'traces_validated_against_impl': validated + sampled,
        'samples': [{'harness': j['harness'], 'path_inputs': s} for j in results for s in j['samples'][:2]][:10] or [{'harness': j['harness'], 'path_inputs': []} for j in results],
        'exhaustive_within_bounds': all(j['complete'] for j in results) and not vacuous,
        'bounds': m['bounds'], 'outside_the_bounds': 'nothing is claimed for inputs beyond the stated bounds',
        'harnesses': [{k: j[k] for k in ('harness', 'complete', 'paths', 'queue_left', 'decisions', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'asserts', 'assert_queries', 'concretised_values', 'engine_errors', 'lost_runs', 'solver_timeouts', 'max_decisions', 'branch_sites', 'wall_s', 'reach')} for j in results],
        'functions_encoded': repofns, 'functions_encoded_count': len(repofns), 'all_functions_encoded_count': len(fns),
        'ir_instructions_encoded': int(sum(x[2] for x in fns.values())),
        'queries_discharged': int(tot('queries')), 'unsat': int(tot('unsat')), 'solver_s': round(tot('solver_s'), 3),
        'uninstrumented_externals_called': exts, 'not_reproduced_candidates': unconf, 'vacuous': vacuous, 'known_findings_seen': kfseen,
        'violations_found': [{'what': w, 'replay': r, 'harness': h} for h, w, r in viol],
        'queries_cross_checked_with_z3': int(tot('z3_queries')),
        'build_s': round(build_s, 2), 'stubs': m['stub'],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(time.time() - T0, 2),
          'assumptions': m['assume'] or ['engine models of libc and stream extraction (engine/models.c, engine/stdinst.cpp)'], 'violations': len(viol)}
    if not only:
        os.makedirs(V + '/evidence', exist_ok=True)
        with open(V + '/evidence/%s.json.tmp' % prop, 'w') as f: json.dump(ev, f, indent=1)
        os.replace(V + '/evidence/%s.json.tmp' % prop, V + '/evidence/%s.json' % prop)
    for h, w, r in viol:
        print('VIOLATION property=%s replay=%s' % (prop, r)); print('  %s: %s' % (h, w))
    for h, w in vacuous: log('VACUOUS: %s never reaches %s' % (h, w))
    log('%s %s: %s, %d paths, %d queries, %.1fs solver, %.1fs wall' % (prop, tier, 'VIOLATED' if viol else ('holds (exhaustive)' if cov['exhaustive_within_bounds'] else 'holds on everything explored'), cov['states'], cov['queries_discharged'], cov['solver_s'], time.time() - T0))
    if os.environ.get('SX_STRICT') and (vacuous or unconf or not cov['exhaustive_within_bounds']): log('STRICT: not clean')
    return 1 if viol else 0
if __name__ == '__main__':
    try: rc = main()
    except RuntimeError as e:
        print('ERROR', e, file=sys.stderr); rc = 3
    sys.exit(rc)
