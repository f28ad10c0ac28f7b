#!/usr/bin/env python3
"""Mutation analysis (development only; no check uses it): makes small changes to the library's headers, one at a time, in scratch copies of /repo,
   and runs the checks of the properties anchored in the changed file until one reports it.
   mutate.py list FILE...            numbers the mutants
   mutate.py run OUT FILE... [-j N] [-e STEP OFFSET]   every mutant, or every STEP-th one from OFFSET"""
import json, os, re, shutil, signal, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
REPO = '/repo'
SWAP = {'+': '-', '-': '+', '*': '/', '/': '*', '<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==', '&&': '||', '||': '&&', '<<': '>>', '>>': '<<',
        '&': '|', '|': '&', '^': '|', '++': '--', '--': '++', '+=': '-=', '-=': '+=', '*=': '/=', '/=': '*=', '|=': '&=', '&=': '|=', '^=': '|=', '<<=': '>>=', '>>=': '<<=', '~': '', '!': ''}
TOK = re.compile(r'"[^"]*"|\'[^\']*\'|//.*$|/\*.*?\*/|0x[0-9a-fA-F]+|\d[\d\']*\.?\d*(?:[eE][-+]?\d+)?[uUlLfF]*|[A-Za-z_]\w*|<<=|>>=|->|::|\+\+|--|&&|\|\||<<|>>|<=|>=|==|!=|\+=|-=|\*=|/=|\|=|&=|\^=|[-+*/<>&|^~!]|\S')
def mutants(path):
    out = []; block = False
    lines = open(os.path.join(REPO, path), newline='').read().split('\n')
    live = [True]
    for n, line in enumerate(lines):
        s = line.strip()
        if s.startswith('#if'): live.append(not re.match(r'#if\s+0', s)); continue
        if s.startswith('#else'): live[-1] = True; continue
        if s.startswith('#endif'): live.pop(); continue
        if block or s.startswith('/*'): block = '*/' not in s; continue
        if not s or s.startswith('#') or s.startswith('//') or not all(live): continue
        if s.startswith('using namespace') or s.startswith('template'): continue
        for m in TOK.finditer(line):
            t, a, b = m.group(), m.start(), m.end()
            def put(r): out.append((n, line[:a] + r + line[b:], '%s -> %s' % (t, r or '(nothing)')))
            if t.startswith(('//', '/*', '"', "'")): continue
            if t in ('<', '>', '&', '*', '&&', '>>', '=', '<=', '>=') and not (line[a-1:a] == ' ' and line[b:b+1] == ' '): continue     # a template, reference or pointer
            if t in SWAP: put(SWAP[t])
            elif re.fullmatch(r'0x[0-9a-fA-F]+', t): put(hex(int(t, 16) ^ 1))
            elif re.fullmatch(r'\d+[uUlLfF]*', t): put(str(int(re.match(r'\d+', t).group()) + 1))
            elif re.fullmatch(r'\d+\.\d*(?:[eE][-+]?\d+)?[fF]?', t): put('(' + t + ' * 1.01)')
            elif t in ('true', 'false'): put('false' if t == 'true' else 'true')
            elif t == 'sin': put('cos')
            elif t == 'cos': put('sin')
            elif t == 'rw_t': put('r_t')
            elif t == 'rc_w1_t': put('rw_t')
            elif t == 'write_lazy': put('write')
            elif t in ('row', 'col', 'N', 'M', 'b0', 'b1', 'b2', 'a1', 'a2', 'v1', 'v2', 's0', 's1', 'hi', 'lo', 'P', 'Q', 'R', 'K'):
                o = {'row': 'col', 'col': 'row', 'N': 'M', 'M': 'N', 'b0': 'b1', 'b1': 'b2', 'b2': 'b0', 'a1': 'a2', 'a2': 'a1', 'v1': 'v2', 'v2': 'v1', 's0': 's1', 's1': 's0', 'hi': 'lo', 'lo': 'hi', 'P': 'Q', 'Q': 'P', 'R': 'Q', 'K': 'K'}[t]
                if o != t: put(o)
            elif path.endswith('atmega328.hpp') and re.fullmatch(r'[A-Z]{2,}\d?[A-Z]?\d?', t) and not t.isupper() is False and t not in ('F_CPU_HZ',): put('(%s^1)' % t)
        if re.match(r'^\s*[A-Za-z_][\w:\.\[\]\(\)\->]*\s*(?:=|\+=|-=|\(|\|=|&=).*;\s*$', line) and not re.match(r'^\s*(return|using|static_assert|constexpr|static|typedef|auto|const|inline|friend|assert)\b', line):
            out.append((n, re.match(r'^\s*', line).group() + ';', 'statement deleted'))
    return lines, out
def checks_for(path):
    from properties import P
    from registry import CHECKS
    return [p['id'] for p in P if path in p['files'] and p['id'] in CHECKS]
def run(job):
    path, lines, i, (n, text, what), order = job
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        os.makedirs(d + '/r'); shutil.copytree(REPO + '/include', d + '/r/include')
        l = list(lines); l[n] = text
        open(os.path.join(d, 'r', path), 'w', newline='').write('\n'.join(l))
        res = 'SURVIVED'; broken = []
        avr = '/mcu/' in path
        head = {'include/core/text.hpp': 'core/core.hpp', 'include/dsp/biquad-design.hpp': 'dsp/filter.hpp'}.get(path, path.split('/', 1)[1])     # not self-contained
        probe = (['avr-g++', '-mmcu=atmega328p', '-DF_CPU_HZ=16000000L'] if avr else ['g++']) + ['-std=c++17', '-fsyntax-only', '-x', 'c++', '-I', d + '/r/include', os.path.join(d, 'r', 'include', head)]
        if subprocess.run(probe, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return dict(file=path, id=i, line=n + 1, what=what, text=text.strip(), result='BUILD')
        for c in order:
            p = subprocess.Popen([V + '/bin/check', c, 'quick'], env=dict(os.environ, VERIF_REPO=d + '/r', VERIF_EVIDENCE=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            try: o, _ = p.communicate(timeout=400)
            except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.wait(); res = 'TIMEOUT ' + c; break
            if p.returncode == 1: res = 'caught ' + c; break
            if p.returncode != 0:
                o = o.decode(errors='replace'); broken.append(c)
                if 'build failed' in o: res = 'BUILD ' + c; break
                res = 'EXIT%d %s' % (p.returncode, c); break
        return dict(file=path, id=i, line=n + 1, what=what, text=text.strip(), result=res)
    finally:
        shutil.rmtree(d)
if __name__ == '__main__':
    a = sys.argv[1:]; mode = a.pop(0); j, step, off = 3, 1, 0
    if '-j' in a: k = a.index('-j'); j = int(a[k + 1]); del a[k:k + 2]
    if '-e' in a: k = a.index('-e'); step, off = int(a[k + 1]), int(a[k + 2]); del a[k:k + 3]
    out = a.pop(0) if mode == 'run' else None
    done = set()
    if out and os.path.exists(out): done = {(r['file'], r['line'], r['what'], r['text']) for r in map(json.loads, open(out))}
    jobs = []
    for path in a:
        lines, ms = mutants(path); order = checks_for(path)
        if mode == 'list':
            for i, m in enumerate(ms): print(path, i, m[0] + 1, m[2], '|', m[1].strip())
        else: jobs += [(path, lines, i, m, order) for i, m in enumerate(ms) if i % step == off and (path, m[0] + 1, m[2], m[1].strip()) not in done]
    if mode == 'run':
        with ThreadPoolExecutor(j) as ex, open(out, 'a') as f:
            for r in (x.result() for x in as_completed([ex.submit(run, job) for job in jobs])): f.write(json.dumps(r) + '\n'); f.flush()
