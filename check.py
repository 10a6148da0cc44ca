#!/usr/bin/env python3-vt
"""check.py <property> — decides one property on /repo's current tree.  See DESIGN.md."""
import sys, os, json, time, subprocess, tempfile, shutil, glob, re, hashlib, threading
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'irvc'))
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)
CLANG = 'clang++-18'
BASE = ['-I' + REPO + '/include', '-I' + HERE + '/specs', '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm',
        '-fno-threadsafe-statics', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
CONFIGS = {
    '17d': ['-std=c++17'],
    '17n': ['-std=c++17', '-DNDEBUG'],
    '20d': ['-std=c++20'],
    '20n': ['-std=c++20', '-DNDEBUG'],
}
GCC = {'g17': ['-std=c++17'], 'g20': ['-std=c++20']} if shutil.which('g++') else {}


def die(msg):
    print('ERROR: ' + msg)
    sys.stdout.flush()
    sys.exit(2)


def compile_unit(a):
    src, cfg, out, defs = a
    t = time.time()
    if cfg in GCC:                                                   # second front end: the same uses are well-formed there
        r = subprocess.run(['g++', '-fsyntax-only', '-w'] + BASE[:2] + GCC[cfg] + defs + [src], capture_output=True, text=True)
    else:
        r = subprocess.run([CLANG] + CONFIGS[cfg] + BASE + defs + [src, '-o', out], capture_output=True, text=True)
    return (src, cfg, out, r.returncode, r.stderr, time.time() - t)


def salvage(a):
    """a unit with an ill-formed contract: drop only the contracts whose instantiation is ill-formed, keep the others"""
    src, cfg, out, defs = a
    t = time.time()
    r = subprocess.run([CLANG] + CONFIGS[cfg] + BASE[:2] + ['-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-E', '-P'] + defs + [src], capture_output=True, text=True)
    if r.returncode:
        return None
    lines = re.sub(r'[ \t]*(extern "C" void spec_\w+\s*\(\s*\)\s*\{)', r'\n\1', r.stdout).split('\n')
    defs_at = {}                                                     # line -> specification whose body covers it
    for i, ln in enumerate(lines):
        m = re.match(r'extern "C" void (spec_\w+)\s*\(', ln)
        if m:
            depth, j = 0, i
            while True:
                depth += lines[j].count('{') - lines[j].count('}')
                defs_at[j] = (m.group(1), i)
                if depth <= 0 or j + 1 >= len(lines):
                    break
                j += 1
    pre = out[:-3] + '_salvaged.cpp'
    dropped = []
    for _ in range(6):
        open(pre, 'w').write('\n'.join(lines))
        r = subprocess.run([CLANG] + CONFIGS[cfg] + BASE + ['-ferror-limit=0', '-ftemplate-backtrace-limit=0', pre, '-o', out], capture_output=True, text=True)
        if r.returncode == 0:
            return (pre, cfg, out, dropped, time.time() - t) if len(dropped) < len({v[0] for v in defs_at.values()}) else None
        groups, bad = [], set()
        for ln in r.stderr.split('\n'):
            m = re.match(re.escape(pre) + r':(\d+):\d+: (fatal error|error|note): (.*)', ln)
            if not m:
                continue
            if m.group(2) != 'note':
                groups.append(set())
            if m.group(2) != 'note' or 'requested here' in m.group(3) or 'while ' in m.group(3):
                d = defs_at.get(int(m.group(1)) - 1)
                if d and groups:
                    groups[-1].add(d)
        if not groups or not groups[0]:                              # (the context is printed once for consecutive errors in it)
            return None                                              # an error outside every contract
        for g in groups:
            bad |= g
        for name, at in bad:
            dropped.append(name)
            for j in [j for j, d in defs_at.items() if d[0] == name]:
                lines[j] = ''
                del defs_at[j]
    return None


_mods = {}


def _verify(job):
    """runs in a worker process, in a big-stack thread"""
    path, fname, opts = job
    out = {}

    def body():
        import irparse, interp
        try:
            m = _mods.get(path)
            if m is None:
                m = irparse.Module(open(path).read())
                _mods[path] = m
            V = interp.Verifier(m, fname, opts)
            t = time.time()
            try:
                V.run()
            except interp.Unsupported as e:
                out['error'] = 'unsupported: %s' % e
            s = V.stats
            out.update(oblig=s.oblig, simpl=s.by_simpl, solver=s.by_solver, cvc5=s.cvc5, second=s.second, failed=s.failed, paths=s.paths,
                       queries=s.queries, solver_time=s.solver_time, time=time.time() - t, kinds=s.kinds, covers=s.covers,
                       funcs=sorted(s.funcs), externs=sorted(s.externs),
                       failures=[dict(label=f.label, kind=f.kind, stack=f.stack, nondets=f.nondets, ufs=f.ufs, smt=f.smt)
                                 for f in V.failures.values()])
        except Exception as e:
            import traceback
            out['error'] = 'internal: ' + traceback.format_exc()[-3000:]
    th = threading.Thread(target=body)
    th.start()
    th.join()
    return (path, fname, out)


def demangle(names):
    if not names:
        return {}
    r = subprocess.run(['llvm-cxxfilt-18'] if shutil.which('llvm-cxxfilt-18') else ['c++filt'],
                       input='\n'.join(n.lstrip('@') for n in names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


def native_replay(src, cfg, defs, fname, failure, work):
    """replay the counterexample on the real code; True if reproduced"""
    tag = hashlib.md5((src + cfg + ' '.join(defs)).encode()).hexdigest()[:10]
    exe = os.path.join(work, 'native_' + tag)
    if not os.path.exists(exe):
        r = subprocess.run([CLANG] + CONFIGS[cfg] + ['-I' + REPO + '/include', '-I' + HERE + '/specs', '-DVC_NATIVE', '-w', '-g', '-O0',
                            '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=all', '-rdynamic'] + defs +
                           [src, HERE + '/irvc/native.cpp', '-o', exe, '-ldl'], capture_output=True, text=True)
        if r.returncode:
            return False, 'native build failed: ' + r.stderr[-2000:]
    rp = os.path.join(work, 'replay_%s_%d.txt' % (fname.strip('@'), os.getpid()))
    write_inputs(rp, failure)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:handle_sigbus=0:handle_sigtrap=0:exitcode=42')
    env['UBSAN_OPTIONS'] = 'exitcode=42'
    try:
        r = subprocess.run([exe, fname.strip('@'), rp], capture_output=True, text=True, timeout=60, env=env)
    except subprocess.TimeoutExpired:
        return False, 'replay timed out'
    return r.returncode == 42, (r.stdout[-1500:] + r.stderr[-2500:])


def write_inputs(path, failure):
    with open(path, 'w') as f:
        for tag, bits, v in failure['nondets']:
            f.write('N ' + (v.to_bytes(bits // 8, 'little')).hex() + '\n')
        for i, args, r in failure['ufs']:
            f.write('U %d %x %x %x\n' % (i, args[0], args[1], r))


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': []}


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    keep = False
    verbose = False
    cfgs = None
    for a in sys.argv[2:]:
        if a.startswith('--tier='):
            tier = a[7:]
        elif a.startswith('--only='):
            only = a[7:]
        elif a.startswith('--cfg='):
            cfgs = a[6:].split(',')
        elif a == '-v':
            verbose = True
    if cfgs is None:
        cfgs = ['17d', '17n', '20d', '20n']
    units = sorted(glob.glob(HERE + '/specs/%s_*.cpp' % prop) + glob.glob(HERE + '/specs/%s.cpp' % prop))
    if not units:
        die('no specification units for ' + prop)
    work = tempfile.mkdtemp(prefix='irvc_%s_' % prop)
    rc = 2
    try:
        rc = run(prop, tier, seed, only, verbose, cfgs, units, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def directives(src):
    d = {}
    for ln in open(src):
        m = re.match(r'// vc-(\w+):\s*(.*)', ln)
        if m:
            d.setdefault(m.group(1), []).append(m.group(2).strip())
    return d


def run(prop, tier, seed, only, verbose, cfgs, units, work, t0):
    # 1. extraction
    smoke = os.path.join(work, 'smoke.cpp')
    open(smoke, 'w').write('#include <opt/option.hpp>\n')
    jobs = [(smoke, c, os.path.join(work, 'smoke_%s.ll' % c), []) for c in cfgs]
    unitinfo = {}
    for u in units:
        d = directives(u)
        parts = [x.split() for x in d.get('part', [''])] or [[]]
        ucfgs = cfgs
        if 'configs' in d:
            allowed = d['configs'][0].split()
            ucfgs = [c for c in cfgs if c in allowed]
        if tier != 'thorough' and 'quick' in d:
            ucfgs = d['quick'][0].split()
        for i, defs in enumerate(parts):
            for c in ucfgs:
                out = os.path.join(work, '%s_%d_%s.ll' % (os.path.basename(u)[:-4], i, c))
                jobs.append((u, c, out, defs))
                unitinfo[out] = (u, c, defs)
            for c in GCC if only is None else ():
                out = os.path.join(work, '%s_%d_%s.none' % (os.path.basename(u)[:-4], i, c))
                jobs.append((u, c, out, defs))
                unitinfo[out] = (u, c, defs)
    with mp.Pool(8) as pool:
        res = pool.map(compile_unit, jobs, chunksize=1)
    illformed, retry, kept = [], [], []
    for src, cfg, out, code, err, t in res:
        if code:
            msg = '\n'.join([l for l in err.split('\n') if 'error:' in l or 'note: candidate' in l or 'requested here' in l][:20])
            if src == smoke:
                die('extraction: the header does not compile (%s):\n%s' % (cfg, msg))
            illformed.append((src, cfg, unitinfo[out][2], msg, err))
            if cfg not in GCC:
                retry.append((src, cfg, out, unitinfo[out][2]))
    if retry:
        with mp.Pool(8) as pool:
            for x in pool.map(salvage, retry, chunksize=1):
                if x:
                    kept.append((x[0], x[1], x[2], 0, '', x[4]))
                    unitinfo[x[2]] = (x[0], x[1], [])
    #    (every call a contract makes is documented usage: that it is well-formed is an obligation too)
    # 2. obligations
    vjobs = []
    opts = {'time_limit': 700 if tier == 'quick' else 3000, 'second': tier == 'thorough', 'timeout_ms': 60000}
    for src, cfg, out, code, err, t in res + kept:
        if src == smoke or code or cfg in GCC:
            continue
        for ln in open(out):
            if ln.startswith('define '):
                m = re.search(r'@(spec_\w+)\(', ln)
                if m and (only is None or re.search(only, m.group(1))):
                    vjobs.append((out, '@' + m.group(1), opts))
    if not vjobs and not illformed:
        die('no specification functions')
    tot = dict(oblig=0, simpl=0, solver=0, cvc5=0, second=0, failed=0, paths=0, queries=0, solver_time=0.0)
    kinds, funcs, externs = {}, set(), set()
    samples, fails, errors, perspec = [], [], [], []
    covers = 0
    # interleave so that one module's functions spread over workers, while each worker caches modules
    with mp.Pool(8) as pool:
        for path, fname, out in pool.imap_unordered(_verify, vjobs, chunksize=1):
            u, c, defs = unitinfo[path]
            if 'error' in out:
                errors.append('%s [%s]: %s' % (fname, c, out['error']))
            if 'oblig' not in out:
                continue
            for k in tot:
                tot[k] += out[k]
            for k, v in out['kinds'].items():
                kinds[k] = kinds.get(k, 0) + v
            funcs |= set(out['funcs'])
            externs |= set(out['externs'])
            perspec.append((fname, c, out['paths'], out['oblig'], round(out['time'], 2)))
            bad_cov = [k for k, v in out['covers'].items() if not v]
            if not out['failures'] and 'error' not in out:
                if not out['covers'] or bad_cov:
                    errors.append('%s [%s]: vacuous precondition (covers %r)' % (fname, c, out['covers']))
                if out['kinds'].get('postcondition', 0) == 0:
                    errors.append('%s [%s]: no postcondition obligation generated' % (fname, c))
            covers += sum(1 for v in out['covers'].values() if v)
            for f in out['failures']:
                fails.append((fname, c, path, f))
            if verbose:
                print('%-50s %s paths=%d oblig=%d simpl=%d solver=%d fail=%d %.2fs (%.2f)' % (
                    fname, c, out['paths'], out['oblig'], out['simpl'], out['solver'], len(out['failures']), out['time'], out['solver_time']))
                if 'error' in out:
                    print('    ERROR', out['error'])
                for f in out['failures']:
                    print('    FAIL', f['kind'], '|', f['label'], '|', [x[:60] for x in f['stack'][-4:]])
    # 3. report
    known = [k for k in load_known().get('findings', []) if k.get('property') == prop]
    violations = []
    seen_known = {}
    for fname, c, path, f in fails:
        hit = None
        for k in known:
            if k['spec'] == fname.strip('@') and (k.get('label') in (None, f['label']) or re.fullmatch(k.get('label_re', r'(?!)'), f['label'])):
                hit = k
                break
        if hit:
            seen_known[json.dumps(hit, sort_keys=True)] = hit
        else:
            violations.append((fname, c, path, f))
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k['spec'], k['what']))
    rdir = os.path.join(HERE, 'replay')
    confirmed = 0
    if violations:
        os.makedirs(rdir, exist_ok=True)
        dm = demangle(sorted({s for _, _, _, f in violations for s in f['stack']}))
        groups = {}
        for v in violations:
            groups.setdefault((v[0], v[3]['label']), v)
        lst = list(groups.values())[:12]
        for n, (fname, c, path, f) in enumerate(lst):
            u, _, defs = unitinfo[path]
            rp = os.path.join(rdir, '%s-%d.json' % (prop, n))
            try:
                ok, log = native_replay(u, c, defs, fname, f, work)
            except Exception as e:
                ok, log = False, repr(e)
            json.dump({'property': prop, 'specification': fname.strip('@'), 'unit': os.path.basename(u), 'config': c, 'flags': CONFIGS[c] + defs,
                       'failed_obligation': f['label'], 'kind': f['kind'],
                       'call_stack': [dm.get(s, s) for s in f['stack']],
                       'inputs': [{'width_bits': b, 'value_hex': '%x' % v, 'kind': t} for t, b, v in f['nondets']],
                       'uninterpreted_functions': f['ufs'],
                       'reproduced_natively': ok, 'native_log': log,
                       'verifier_output_smt2': f['smt'] if not ok else None}, open(rp, 'w'), indent=1)
            print('obligation failed: %s [%s] %s (%s) at %s' % (fname.strip('@'), c, f['label'], f['kind'], ' <- '.join(reversed([dm.get(s, s)[:90] for s in f['stack'][-4:]]))))
            print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if ok else ' no-failing-input-found'))
            confirmed += ok
    for n, (src, cfg, defs, msg, err) in enumerate(illformed):
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s-illformed-%d.json' % (prop, n))
        json.dump({'property': prop, 'unit': os.path.relpath(src, HERE), 'config': cfg, 'flags': (CONFIGS.get(cfg) or ['g++'] + GCC[cfg]) + defs, 'kind': 'well-formedness',
                   'failed_obligation': 'the documented uses of the library in this contract are well-formed',
                   'compiler_output': err[-6000:]}, open(rp, 'w'), indent=1)
        if n < 4:
            print('obligation failed: %s [%s] the documented uses are well-formed:\n%s' % (os.path.basename(src), cfg, msg))
            if not confirmed:                                        # else a VIOLATION with a failing input is already reported
                print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    dmf = demangle(sorted(funcs))
    lib = sorted({x for x in dmf.values() if re.match(r'^(.* )?(opt::|std::hash<opt::)', x) or ' opt::' in x.split('(')[0]})
    for fname, c, p, o, t in sorted(perspec)[:6]:
        samples.append({'contract': fname.strip('@'), 'config': c, 'paths': p, 'obligations': o, 'seconds': t})
    discharged = tot['simpl'] + tot['solver']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': tot['oblig'], 'discharged': discharged,
            'checker_cmd': 'python3-vt /verif/check.py %s' % prop,
            'trusted_base': TRUSTED,
            'discharged_by': {'term rewriting (z3 simplify / constant evaluation)': tot['simpl'], 'z3': tot['solver'] - tot['cvc5'], 'cvc5': tot['cvc5']},
            'confirmed_by_second_backend_cvc5': tot['second'],
            'obligation_kinds': kinds, 'contracts': len({p[0] for p in perspec}), 'contract_instances': len(perspec),
            'paths': tot['paths'], 'reachability_witnesses': covers,
            'solver_queries': tot['queries'], 'solver_time_s': round(tot['solver_time'], 2),
            'configurations': sorted({p[1] for p in perspec}),
            'library_functions_under_contract': len(lib), 'library_functions': [x[:200] for x in lib][:400],
            'assumed_external_functions': sorted(externs), 'samples': samples,
            'known_findings_reported': len(seen_known),
        },
        'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations) + len(illformed),
    }
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    print('%s %s: contracts=%d obligations=%d discharged=%d violations=%d known=%d errors=%d %.1fs' % (
        prop, tier, len(perspec), tot['oblig'], discharged, len(violations), len(seen_known), len(errors), time.time() - t0))
    if violations or illformed:
        return 1
    if errors:
        for e in errors[:20]:
            print('ERROR: ' + e)
        return 2
    return 0


TRUSTED = [
    'clang++-18 front end (source to unoptimised LLVM IR; no optimisation pass is run)',
    'irvc VC generator and memory model (/verif/irvc/interp.py, models.py)',
    'z3 5.x (cvc5 cross-checks in the thorough tier)',
    'contracts of operator new/delete, memcpy/memset/memcmp, the Itanium C++ exception ABI, std::_Hash_bytes',
]
ASSUMPTIONS = [
    'x86-64 System V ABI, libstdc++ 13; addresses of objects lie in canonical user space [0x10000, 0x7ffffffff000) and objects do not overlap',
    'user element types and functions satisfy the contracts written in specs/abs.hpp (uninterpreted results, ghost lifetime)',
    'the library templates are verified at the representative instantiations named in the contracts (each for all inputs)',
    'floating point is IEEE-754; signaling/quiet NaN payloads are preserved by register moves',
]

if __name__ == '__main__':
    main()
