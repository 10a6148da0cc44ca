#!/usr/bin/env python3-vt
"""mutate.py — mutation campaign (development tool; no check uses it).

Mutates option.hpp textually in scratch copies, compiles every contract unit against the mutant (config 17d), re-verifies only the
specifications whose transitive IR closure changed, and records which properties fail.   mutate.py OUT.jsonl N SEED [lo-hi]"""
import sys, os, re, json, random, hashlib, time, subprocess, shutil, glob
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V)
import multiprocessing as mp
import check

SRC = os.environ.get('VERIF_REPO', '/repo') + '/include'
HDR = 'opt/option.hpp'


def mutants(text):
    lines = text.split('\n')
    out = []
    incomment = False
    for i, ln in enumerate(lines):
        s = ln.strip()
        if not s or s.startswith(('//', '#', '*', '/*', 'template', 'static_assert', 'using ', 'OPTION_')):
            continue
        code = ln.split('//')[0]

        def add(a, b, rep, op):
            out.append((i, ln[:a] + rep + ln[b:], op))
        for m in re.finditer(r' (==|!=|<=|>=|<|>|\+|-|&&|\|\|) ', code):
            o = m.group(1)
            for r in {'==': ['!='], '!=': ['=='], '<': ['<=', '>'], '>': ['>=', '<'], '<=': ['<', '>='], '>=': ['>', '<='], '+': ['-'], '-': ['+'],
                      '&&': ['||'], '||': ['&&']}[o]:
                add(m.start(1), m.end(1), r, o + '->' + r)
        for m in re.finditer(r'\b(true|false)\b', code):
            add(m.start(), m.end(), 'false' if m.group(1) == 'true' else 'true', 'bool')
        for m in re.finditer(r'(?<![\w.x])(\d+)(u?)\b(?!\w)', code):
            add(m.start(1), m.end(1), str(int(m.group(1)) + 1), 'n+1')
            if int(m.group(1)) > 0:
                add(m.start(1), m.end(1), str(int(m.group(1)) - 1), 'n-1')
        for m in re.finditer(r'\bif (constexpr )?\(', code):
            # matching paren on the same line
            d, j = 0, m.end() - 1
            while j < len(code):
                d += {'(': 1, ')': -1}.get(code[j], 0)
                if d == 0:
                    break
                j += 1
            if j < len(code):
                add(m.end(), j, '!(' + code[m.end():j] + ')', 'neg-if')
                add(m.end(), j, 'true', 'if-true')
                add(m.end(), j, 'false', 'if-false')
        for m in re.finditer(r'(static_cast<(?:[^<>]|<[^<>]*>)*>|std::move|std::forward<[^>]*>|std::as_const)\(', code):
            d, j = 0, m.end() - 1
            while j < len(code):
                d += {'(': 1, ')': -1}.get(code[j], 0)
                if d == 0:
                    break
                j += 1
            if j < len(code):
                add(m.start(), j + 1, '(' + code[m.end():j] + ')', 'drop-' + m.group(1)[:12])
        for m in re.finditer(r'(?<![\w!])!(?=[\w:(])', code):
            add(m.start(), m.end(), '', 'drop-not')
        for m in re.finditer(r'\b(left|right)\b', code):
            if 'noexcept' in code or code.strip().endswith('{') and '(' in code and 'if' not in code:
                continue
            add(m.start(), m.end(), 'right' if m.group(1) == 'left' else 'left', 'swap-lr')
        m = re.match(r'^(\s*)((?!return|using|static|constexpr|const |auto|case|break|default|friend|struct|class|template|typedef|else|for|if|while|public|private|throw|namespace|operator|virtual|explicit|inline)[\w:*(].*;)\s*$', code)
        if m and '(' in code and '= default' not in code and '= delete' not in code:
            add(m.start(2), m.end(2), ';', 'del-stmt')
        m = re.match(r'^(\s*)((?:\w+(?:\.|->))*\w+ = .*;)\s*$', code)
        if m:
            add(m.start(2), m.end(2), ';', 'del-assign')
        for m in re.finditer(r'std::uint(8|16|32|64)_t|\bmax_level\b|\b(has_value|get_level|set_level|reset|construct|assign)\b(?=\()', code):
            pass
    # unique
    seen, res = set(), []
    for t in out:
        if (t[0], t[1]) in seen or t[1] == lines[t[0]]:
            continue
        seen.add((t[0], t[1]))
        res.append(t)
    return lines, res


def norm(body):
    body = re.sub(r'#\d+', '#', body)
    body = re.sub(r'!\d+', '!', body)
    body = re.sub(r'@(\.str|__PRETTY_FUNCTION__[\w.]*)(\.\d+)?', '@S', body)
    body = re.sub(r'(%"?(?:class|struct|union)\.[\w:.<>, *&()-]*?)\.\d+\b', r'\1', body)
    return body


def spec_hashes(path):
    funcs, gl = {}, {}
    cur, buf = None, []
    for ln in open(path):
        if cur is None:
            if ln.startswith('define '):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', ln)
                cur, buf = m.group(1), [ln]
            elif ln.startswith('@'):
                nm = ln.split(' ', 1)[0][1:]
                if not nm.startswith(('.str', '__PRETTY')):
                    gl[nm] = ln
        else:
            buf.append(ln)
            if ln.startswith('}'):
                funcs[cur] = ''.join(buf)
                cur = None
    h, deps = {}, {}
    for n, b in list(funcs.items()) + list(gl.items()):
        deps[n] = set(re.findall(r'@("[^"]+"|[\w.$]+)', b)) - {n}
        h[n] = hashlib.md5(norm(b).encode()).hexdigest()
    out = {}
    for n in funcs:
        if not n.startswith('spec_'):
            continue
        seen, st = {n}, [n]
        while st:
            x = st.pop()
            for y in deps.get(x, ()):
                if y not in seen and y in h:
                    seen.add(y)
                    st.append(y)
        out[n] = hashlib.md5(' '.join(sorted(h[x] for x in seen)).encode()).hexdigest()
    return out


def units():
    r = []
    for u in sorted(glob.glob(V + '/specs/C*_*.cpp')):
        d = check.directives(u)
        parts = [x.split() for x in d.get('part', [''])] or [[]]
        for i, defs in enumerate(parts):
            r.append((u, defs, '%s_%d' % (os.path.basename(u)[:3], i)))
    return r


def comp(a):
    src, inc, out, defs = a
    base = ['-I' + inc if x.endswith('/include') and x.startswith('-I') else x for x in check.BASE]
    try:
        r = subprocess.run([check.CLANG] + check.CONFIGS['17d'] + base + defs + [src, '-o', out], capture_output=True, text=True, timeout=300)
        return out, r.returncode, (spec_hashes(out) if r.returncode == 0 else r.stderr[-1500:])
    except subprocess.TimeoutExpired:
        return out, 1, 'timeout'


def ver(j):
    try:
        return check._verify(j)
    finally:
        check._mods.clear()


def lines_of(a):
    """header lines that the unit's code comes from (debug line tables)"""
    src, inc, out, defs = a
    base = ['-I' + inc if x.endswith('/include') and x.startswith('-I') else x for x in check.BASE]
    subprocess.run([check.CLANG] + check.CONFIGS['17d'] + base + defs + ['-gline-tables-only', src, '-o', out], capture_output=True, text=True, timeout=600)
    files, scopes, locs = {}, {}, []
    for ln in open(out):
        if ln[0] != '!':
            continue
        m = re.match(r'(!\d+) = (?:distinct )?!(DI\w+)\((.*)\)', ln)
        if not m:
            continue
        if m.group(2) == 'DIFile':
            files[m.group(1)] = 'opt/option.hpp' in m.group(3)
        elif m.group(2) in ('DISubprogram', 'DILexicalBlock', 'DILexicalBlockFile'):
            f = re.search(r'file: (!\d+)', m.group(3))
            l = re.search(r'\bline: (\d+)', m.group(3))
            scopes[m.group(1)] = (f and f.group(1), int(l.group(1)) if l else 0)
        elif m.group(2) == 'DILocation':
            locs.append((int(re.search(r'line: (\d+)', m.group(3)).group(1)), re.search(r'scope: (!\d+)', m.group(3)).group(1)))
    os.remove(out)
    r = {l for f, l in scopes.values() if files.get(f)}
    r |= {l for l, sc in locs if files.get(scopes.get(sc, (None, 0))[0])}
    return os.path.basename(out), r


def main():
    outp, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    lo, hi = 1, 10 ** 9
    if len(sys.argv) > 4:
        lo, hi = map(int, sys.argv[4].split('-'))
    W = '/tmp/m/camp_%d' % os.getpid()
    os.makedirs(W)
    shutil.copytree(SRC, W + '/base')
    text = open(W + '/base/' + HDR).read()
    lines, muts = mutants(text)
    muts = [m for m in muts if lo <= m[0] + 1 <= hi]
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add((d['old'], d['new']))
    random.Random(seed).shuffle(muts)
    muts = [m for m in muts if (lines[m[0]].strip(), m[1].strip()) not in done]
    print('%d mutants' % len(muts), flush=True)
    U = units()
    NW = int(os.environ.get('NW', '6'))
    pool = mp.Pool(NW, maxtasksperchild=60)
    os.makedirs(W + '/b')
    base, ctime, cover = {}, {}, {}
    for out, rc, h in pool.imap_unordered(comp, [(u, W + '/base', W + '/b/' + k + '.ll', d) for u, d, k in U]):
        assert rc == 0, (out, h)
        base[os.path.basename(out)] = h
    for k2, r in pool.imap_unordered(lines_of, [(u, W + '/base', W + '/b/' + k + '.ll', d) for u, d, k in U]):
        cover[k2] = r
    print('baseline', sum(len(x) for x in base.values()), 'specs', flush=True)
    tfile = '/tmp/m/spec_times.json'
    times = json.load(open(tfile)) if os.path.exists(tfile) else {}
    size = {k2: sum(1 for _ in open(W + '/b/' + k2)) for k2 in base if os.path.exists(W + '/b/' + k2)}
    for (i, new, op) in muts[:n]:
        t0 = time.time()
        M = W + '/mut'
        shutil.rmtree(M, ignore_errors=True)
        shutil.copytree(W + '/base', M)
        L = list(lines)
        L[i] = new
        open(M + '/' + HDR, 'w').write('\n'.join(L))
        sm = W + '/smoke.cpp'
        open(sm, 'w').write('#include <opt/option.hpp>\n')
        rec = dict(line=i + 1, op=op, old=lines[i].strip(), new=new.strip())
        if comp((sm, M, W + '/smoke.ll', []))[1]:
            rec['result'] = 'header-ill-formed'
        else:
            shutil.rmtree(W + '/o', ignore_errors=True)
            os.makedirs(W + '/o')
            hit = [x for x in U if i + 1 in cover[x[2] + '.ll']]
            todo = hit or list(U)
            rec['units'] = len(hit)
            ncov = {x[2]: len(cover[x[2] + '.ll']) for x in todo}
            todo.sort(key=lambda x: ncov[x[2]])
            killed, errs, ill, changed, unver = {}, [], {}, 0, 0
            deadline = time.time() + float(os.environ.get('MUT_TIME', '240'))
            opts = {'time_limit': 60, 'second': False, 'timeout_ms': 10000}
            while todo and not killed and not ill and time.time() < deadline:
                rnd, todo = todo[:NW], todo[NW:]
                jobs = []
                for out, rc, h in pool.imap_unordered(comp, [(u, M, W + '/o/' + k2 + '.ll', d) for u, d, k2 in rnd]):
                    key = os.path.basename(out)
                    if rc:
                        ill[key[:3]] = next((x for x in h.split('\n') if 'error' in x), '')[:160]
                        continue
                    jobs += [(out, '@' + f) for f in h if base[key].get(f) != h[f]]
                changed += len(jobs)
                jobs.sort(key=lambda j: times.get(os.path.basename(j[0]) + j[1], 2.0))
                while jobs and not killed and time.time() < deadline:
                    batch, jobs = jobs[:NW * 3], jobs[NW * 3:]
                    for path, fn, out in pool.imap_unordered(ver, [(a, b, opts) for a, b in batch]):
                        if out.get('time'):
                            times[os.path.basename(path) + fn] = out['time']
                        if out.get('failures'):
                            killed.setdefault(os.path.basename(path)[:3], fn[1:] + ': ' + out['failures'][0]['label'])
                        elif out.get('error'):
                            errs.append(fn + ' ' + out['error'][-200:])
                unver += len(jobs)
            rec.update(changed=changed, ill=ill, killed=killed, errs=errs[:3], unverified=unver + len(todo))
            rec['result'] = 'killed' if killed else 'ill' if ill else 'SURVIVED' if changed else 'NOCHANGE'
        rec['t'] = round(time.time() - t0, 1)
        with open(outp, 'a') as f:
            f.write(json.dumps(rec) + '\n')
        json.dump(times, open(tfile, 'w'))
    pool.terminate()
    shutil.rmtree(W)


if __name__ == '__main__':
    main()
