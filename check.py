#!/usr/bin/env python3
"""Decides one property of /repo by bounded symbolic execution of its compiled code (LLVM IR) with an SMT solver.
usage: check.py <property> [--entry NAME] [--tier quick|thorough] [--keep]      (see DESIGN.md)"""
import sys, os, re, json, hashlib, subprocess, time, concurrent.futures as cf, shlex, shutil, threading
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VF_REPO', '/repo')
CACHE = os.path.join(V, '.cache'); OUT = os.path.join(V, 'out'); EV = os.path.join(V, 'evidence')
CXX = next(c for c in ('/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++-18', '/usr/bin/clang++') if os.path.exists(c))
LINK = next(c for c in ('/usr/lib/llvm-18/bin/llvm-link', '/usr/bin/llvm-link-18', '/usr/bin/llvm-link') if os.path.exists(c))
QUICK_BUDGET = 560
NCPU = min(8, os.cpu_count() or 4)
BASE = ['-std=c++17', '-O1', '-fwrapv', '-DNDEBUG', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-fno-unroll-loops', '-fno-pic',
        '-emit-llvm', '-c', '-I' + V + '/shim', '-I' + REPO + '/include', '-I' + V + '/rt', '-I' + V + '/harness', '-DBOOST_FIBERS_SOURCE', '-DBOOST_ALL_NO_LIB', '-w']
def log(*a): print(*a, flush=True)
class Bad(Exception): pass
def sh(cmd, what, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode: raise Bad('%s failed: %s\n%s' % (what, ' '.join(cmd)[:300], r.stdout[-4000:]))
    return r.stdout
def hfiles(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h
def tree(d, exts):
    r = []
    for b, ds, fs in os.walk(d):
        for f in fs:
            if not exts or f.endswith(exts): r.append(os.path.join(b, f))
    return r
_locks = {}; _lk = threading.Lock()
def once(path, make):
    with _lk: l = _locks.setdefault(path, threading.Lock())
    with l:
        if not os.path.exists(path):
            os.makedirs(os.path.dirname(path), exist_ok=True); tmp = path + '.tmp%d' % os.getpid(); make(tmp); os.replace(tmp, path)
    return path
def engine():
    src = [os.path.join(V, 'engine', f) for f in ('expr.cpp', 'front.cpp', 'exec.cpp')]; hd = [os.path.join(V, 'engine', f) for f in ('expr.h', 'core.h', 'intrin.h')]
    key = hfiles(src + hd).hexdigest()[:16]; exe = os.path.join(CACHE, 'engine-' + key, 'fsym')
    def mk(tmp):
        d = os.path.dirname(tmp); objs = []
        def one(s):
            o = os.path.join(d, os.path.basename(s) + '.%d.o' % os.getpid())
            sh(['g++', '-O1' if 'front' in s else '-O2', '-g1', '-std=c++17', '-w', '-I/usr/lib/llvm-18/include', '-c', s, '-o', o], 'engine build'); return o
        with cf.ThreadPoolExecutor(3) as ex: objs = list(ex.map(one, src))
        sh(['g++'] + objs + ['-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-o', tmp], 'engine link')
        for o in objs: os.remove(o)
    return once(exe, mk)
def libsources(extra):
    s = [f for f in tree(os.path.join(REPO, 'src'), ('.cpp',)) if '/numa/' not in f]
    return sorted(s + [os.path.join(REPO, x) for x in extra])
_repohash = None
def repohash():
    global _repohash
    if _repohash is None: _repohash = hfiles(tree(os.path.join(REPO, 'include'), None) + tree(os.path.join(REPO, 'src'), None) + tree(os.path.join(V, 'shim'), None)).hexdigest()
    return _repohash
def bc(src, flags=(), deps=()):
    key = hashlib.sha256((repohash() + src + hfiles([src] + list(deps)).hexdigest() + ' '.join(BASE) + ' '.join(flags) + CXX).encode()).hexdigest()[:24]
    return once(os.path.join(CACHE, 'bc', key[:2], key + '.bc'), lambda t: sh([CXX] + BASE + list(flags) + [src, '-o', t], 'compiling ' + src))
class Prog: pass
def build(hname, defs, extra, pool, hdefs=()):
    hs = os.path.join(V, 'harness', hname + '.cpp'); hdeps = [os.path.join(V, 'harness', f) for f in os.listdir(os.path.join(V, 'harness')) if f.endswith('.hpp')] + [os.path.join(V, 'rt', 'vf.h')]
    p = Prog(); vh = [os.path.join(V, 'rt', 'vf.h')]
    # defines that are seen by the library too
    fut = [pool.submit(bc, s, defs) for s in libsources(extra)] + [pool.submit(bc, os.path.join(V, 'rt', 'env.cpp'), (), vh), pool.submit(bc, hs, defs + hdefs, hdeps)]
    frt = pool.submit(bc, os.path.join(V, 'rt', 'rt.cpp'), ('-fno-builtin', '-fno-threadsafe-statics'), vh)
    bcs = [f.result() for f in fut]; p.rt = frt.result()
    key = hashlib.sha256(' '.join(bcs).encode()).hexdigest()[:24]; p.key = key
    p.bc = once(os.path.join(CACHE, 'prog', key + '.bc'), lambda t: sh([LINK] + bcs + ['-o', t], 'llvm-link'))
    return p
WRAP = ['-Wl,--wrap=' + s for s in ('malloc', 'free', 'mmap', 'munmap', '__cxa_thread_atexit')]
def native(p, exe):
    key = p.key + 'O0' + hfiles([os.path.join(V, 'rt', 'native.cpp'), os.path.join(V, 'rt', 'vf.h'), os.path.join(V, 'engine', 'front.cpp')]).hexdigest()[:12]
    def mk(t):
        b = t + '.instr.bc'; o = t + '.o'; n = t + '.n.o'
        sh([exe, p.bc, '--instr', b], 'instrumentation'); 
        a = subprocess.Popen([CXX, '-O0', '-w', '-c', b, '-o', o]); sh([CXX, '-O1', '-w', '-std=c++17', '-I' + V + '/rt', '-c', V + '/rt/native.cpp', '-o', n], 'native runtime')
        if a.wait(): raise Bad('native code generation failed')
        sh([CXX, '-no-pie', '-rdynamic', o, n] + WRAP + ['-lboost_context', '-lpthread', '-ldl', '-o', t], 'native link')
        for x in (b, o, n): os.remove(x)
    return once(os.path.join(CACHE, 'native', key), mk)
def writetrace(path, tr, v=None):
    with open(path, 'w') as f:
        if v: f.write('V %s\t%s\n' % (v['kind'], v['msg']))
        for n, x in tr['syms']: f.write('S %s\t%s\n' % (n, x))
        for a, b in tr['switches']: f.write('W %d\t%d\n' % (a, b))
        for n, x in tr['log']: f.write('L %s\t%s\n' % (n, x))
def replay(nat, entry, trace):
    try: r = subprocess.run([nat, trace, entry], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired: return 2, 'replay timed out'
    return r.returncode, r.stdout.decode('utf8', 'replace').strip()[-300:]
def entries(prop):
    """//@ lines of the harness files: entry options"""
    es = []
    for f in sorted(os.listdir(os.path.join(V, 'harness'))):
        if not f.endswith('.cpp'): continue
        fileopts = {}
        for l in open(os.path.join(V, 'harness', f)):
            m = re.match(r'//@(file)?\s+(.*)', l)
            if not m: continue
            kv = {}
            for t in shlex.split(m.group(2)):
                k, _, x = t.partition('='); kv[k] = x
            if m.group(1): fileopts = kv; continue
            o = dict(fileopts); o.update(kv); o['harness'] = f[:-4]
            if prop in o.get('prop', '').split(','): es.append(o)
    return es
def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--entry'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--nonative', action='store_true'); ap.add_argument('-v', action='store_true'); ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args(); t0 = time.time(); prop = a.prop; tier = 'thorough' if a.tier == 'thorough' else 'quick'; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for d in (CACHE, OUT, EV): os.makedirs(d, exist_ok=True)
    es = [e for e in entries(prop) if (not a.entry or e['entry'] == a.entry) and (tier == 'thorough' or e.get('tier', 'quick') == 'quick' or a.entry)]
    if tier == 'thorough': es = [e for e in es if e.get('tier', 'quick') in ('quick', 'thorough')]
    if not es: log('no entries for', prop); return 2
    pool = cf.ThreadPoolExecutor(NCPU * 2); bpool = cf.ThreadPoolExecutor(16)
    exe = engine()
    progs = {}
    for e in es:
        k = (e['harness'], e.get('defs', ''), e.get('extra', ''))
        if k not in progs: progs[k] = bpool.submit(build, k[0], tuple(k[1].split()), tuple(k[2].split()), pool, ('-DVF_THOROUGH',) if tier == 'thorough' else ())
    def run(e):
        p = progs[(e['harness'], e.get('defs', ''), e.get('extra', ''))].result()
        jobs = min(NCPU, int(e.get('jobs', '1'))); 
        if 1:
            res = os.path.join(OUT, '%s-%s.%s.json' % (prop, e['entry'], tier)); tl = float(e.get('time', '100')) if tier == 'quick' else float(e.get('ttime', '300'))
            if tier == 'quick': tl = max(8.0, min(tl, QUICK_BUDGET - (time.time() - t0)))  # the whole check has to end in time
            if found: tl = min(tl, 20.0)                                                     # something is broken already: only look briefly at the rest
            cmd = [exe, p.bc, '--rt', p.rt, '--entry', e['entry'], '--out', res, '--src', REPO + '/', '--pb', str(int(e.get('pb', '2')) + (1 if tier == 'thorough' and e.get('mt') == '1' and e.get('tier') != 'thorough' else 0)), '--jobs', str(jobs), '--time', str(tl * a.scale), '--seed', str(seed), '--samples', e.get('samples', '3')]
            if 'insn' in e: cmd += ['--max-insn', e['insn']]
            if e.get('hb', '0') == '1': cmd += ['--hb']
            if 'quantum' in e: cmd += ['--quantum', e['quantum']]
            if e.get('sched') == 'one': cmd += ['--one-schedule']
            if e.get('nopor'): cmd += ['--nopor']
            if os.path.exists(res): os.remove(res)
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tl * a.scale * 1.5 + 120)
            if not os.path.exists(res): raise Bad('engine failed on %s: rc %d %s' % (e['entry'], r.returncode, r.stdout[-2000:]))
            d = json.load(open(res))
            if d['error']: raise Bad('engine error in %s: %s' % (e['entry'], d['error'][:1500]))
            return e, p, d
    results = []; errors = []; found = []
    order = sorted(es, key=lambda e: -int(e.get('jobs', '1')))
    def guarded(e):
        try: return run(e)
        except Bad as x: return x
        except subprocess.TimeoutExpired as x: return Bad('engine timed out on ' + e['entry'])
    class Sem:  # all-or-nothing acquisition
        def __init__(s, n): s.n = n; s.c = threading.Condition()
        def take(s, k):
            with s.c:
                while s.n < k: s.c.wait()
                s.n -= k
        def give(s, k):
            with s.c: s.n += k; s.c.notify_all()
    sem = Sem(NCPU)
    def runall(e):
        k = min(NCPU, int(e.get('jobs', '1')))
        progs_k = progs[(e['harness'], e.get('defs', ''), e.get('extra', ''))]
        try: progs_k.result()
        except Bad as x: return x
        sem.take(k)
        try: return guarded(e)
        finally: sem.give(k)
    nats = {}
    with cf.ThreadPoolExecutor(max(NCPU, 4) + 8) as ex:
        futs = [ex.submit(runall, e) for e in order]
        for f in cf.as_completed(futs):
            r = f.result()
            if isinstance(r, Bad): errors.append(str(r)); continue
            results.append(r)
            if r[2]['violations']: found.append(r[0]['entry'])
    # vacuity
    for e, p, d in results:
        if d['violations'] or d['incomplete']: continue
        for lab in [x for x in e.get('reach', '').split(',') if x]:
            if d['reach'].get(lab, 0): continue
            if d['bounds_hit'] or d['paths'] == 0: errors.append('entry %s is vacuous: "%s" was never reached' % (e['entry'], lab))
            else: d['violations'].append(dict(kind='unreachable', msg='no execution within the bound reaches "%s"' % lab, where='', stack='', path=dict(syms=[], switches=[], log=[])))
        if d['paths'] == 0 and not e.get('reach'): errors.append('entry %s explored no path' % e['entry'])
    # what has to happen in some execution: every "want:X" that occurs needs an execution with "got:X"
    for e, p, d in results:
        if d['violations'] or d['incomplete']: continue
        for lab in sorted(d['reach']):
            if lab.startswith('want:') and len(d['violations']) < 4 and not d['reach'].get('got:' + lab[5:]): d['violations'].append(dict(kind='unreachable', msg='no execution within the bound reaches "%s"' % lab[5:], where='', stack='', path=dict(syms=[], switches=[], log=[])))
    # native validation of sample paths, and replay of violations
    validated = 0; tried = 0; valnotes = []; viols = []
    known = load_known(prop)
    def nat(p): return native(p, exe)
    jobs = []
    for e, p, d in results:
        vs = d['violations']
        for i, v in enumerate(vs): jobs.append((e, p, d, v, i))
        if not a.nonative and e.get('native', '1') == '1' and not vs:
            for i, s in enumerate(d['samples'][: int(e.get('validate', '2'))]): jobs.append((e, p, d, None, i, s))
    def donat(j):
        e, p = j[0], j[1]
        base = os.path.join(OUT, '%s-%s-%s%d' % (prop, e['entry'], 'v' if j[3] else 's', j[4]))
        if j[3]:
            v = j[3]; rep = dict(property=prop, harness=e['harness'], entry=e['entry'], options=e, violation=v); tr = base + '.trace'; writetrace(tr, v['path'], v)
            rc, o = (None, 'native replay not applicable')
            if v['kind'] == 'unreachable': o = 'holds for all executions, nothing to replay'
            elif not a.nonative and e.get('native', '1') == '1':
                try: rc, o = replay(nat(p), e['entry'], tr)
                except Bad as x: rc, o = 2, str(x)
            rep['native_replay'] = dict(rc=rc, output=o); rep['how'] = 'check.py %s --entry %s re-derives it; native: .cache/native/<program> %s %s' % (prop, e['entry'], tr, e['entry'])
            json.dump(rep, open(base + '.json', 'w'), indent=1); return ('v', e, v, rc, o, base + '.json')
        tr = base + '.trace'; writetrace(tr, j[5])
        try: rc, o = replay(nat(p), e['entry'], tr)
        except Bad as x: rc, o = 2, str(x)
        return ('s', e, None, rc, o, tr)
    with cf.ThreadPoolExecutor(NCPU) as ex: outs = list(ex.map(donat, jobs))
    newv = 0
    for o in outs:
        if o[0] == 's':
            tried += 1
            if o[3] == 0: validated += 1
            else: valnotes.append('%s: %s' % (o[1]['entry'], o[4]))
        else:
            _, e, v, rc, text, path = o
            k = [x for x in known if x['entry'] in ('*', e['entry']) and x['kind'] == v['kind'] and x['msg'] in v['msg'] and x.get('where', '') in v['where']]
            desc = '%s: %s [%s] at %s (entry %s; native replay: %s)' % (v['kind'], v['msg'], prop, v['where'], e['entry'], text.replace('\n', ' ')[:120])
            if k:
                log('KNOWN-FINDING: property=%s %s' % (prop, k[0]['desc']))
            else:
                newv += 1; viols.append(desc); log('  ' + desc)
                if a.v: log('    stack: ' + ' <- '.join([x for x in re.split(r' ?<- ?|\n', v['stack']) if 'harness' in x or 'fiber/' in x or 'src/' in x][:6])[:900])
                log('VIOLATION property=%s replay=%s' % (prop, path))
    if valnotes:
        for x in valnotes: log('  note: sample path not confirmed natively: ' + x)
    # evidence
    S = lambda k: sum(d[k] for _, _, d in results)
    fns = sorted({tuple(f) for _, _, d in results for f in d['functions']})
    inc = [e['entry'] for e, _, d in results if d['incomplete']]
    samp = []
    for e, _, d in results:
        for s in d['samples'][:1]: samp.append(dict(entry=e['entry'], inputs=s['syms'][:40], thread_switches=s['switches'][:40], events=s['log'][:40]))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=newv,
        coverage=dict(states=S('forks') + len(results), transitions=S('instructions'), traces_validated_against_impl=validated, traces_tried_natively=tried, samples=samp[:8],
            paths=S('paths'), bound_cut_paths=S('bound_cut'), partial_order_pruned=S('por_pruned'), thread_switches=S('thread_switches'), checks_evaluated=S('checks'), symbolic_checks=S('symbolic_checks'),
            solver_queries=S('queries'), queries_sat=S('sat'), queries_unsat=S('unsat'), query_cache_hits=S('query_cache_hits'), solver_s=round(S('solver_s'), 3),
            exhaustive=not inc and not S('bound_cut'), incomplete_entries=inc,
            entries=[dict(entry=e['entry'], what=e.get('what', ''), bound=e.get('bound', ''), preemption_bound=d['preemption_bound'] if d['sched_points'] else None, paths=d['paths'], states=d['forks'] + 1, instructions=d['instructions'], queries=d['queries'], solver_s=round(d['solver_s'], 3), wall_s=round(d['wall_s'], 2), complete=not d['incomplete'], bounds_hit=d['bounds_hit'], reached=d['reach'], races_checked=e.get('hb', '0') == '1') for e, _, d in results],
            functions_encoded=len(fns), functions=['%s (%s)' % f for f in fns][:400]),
        assumptions=['interleavings are sequentially consistent; weaker memory orders are covered only by the happens-before race check where races_checked is set',
            'preemptions of OS threads are bounded per entry as stated; single-threaded programs are explored completely within their bounds',
            'the environment model of rt/env.cpp (pthread objects, futex, clocks) and the libstdc++ stand-ins of rt/rt.cpp',
            'LLVM IR of clang 18 -O1 -fwrapv stands for the source: signed arithmetic wraps'])
    json.dump(ev, open(os.path.join(EV, prop + '.json'), 'w'), indent=1)
    log('%s %s: %d entries, %d paths, %d states, %d queries (%.1f s solver), %d/%d traces validated, %d functions, %.1f s%s' % (prop, tier, len(results), S('paths'), ev['coverage']['states'], S('queries'), S('solver_s'), validated, tried, len(fns), time.time() - t0, (' INCOMPLETE ' + ','.join(inc)) if inc else ''))
    if a.v:
        for e, _, d in sorted(results, key=lambda r: r[0]['entry']): log('   %-28s paths %-7d insns %-10d wall %.1f  switches %d pruned %d cut %s reach %s' % (e['entry'], d['paths'], d['instructions'], d['wall_s'], d['thread_switches'], d['por_pruned'], d['bounds_hit'], d['reach']))
    if newv: return 1
    if errors:
        for x in dict.fromkeys(errors): log('ERROR: ' + x[:2500])
        return 2
    return 0
def load_known(prop):
    r = []; p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: '):
                d = json.loads(l[len('finding: '):])
                if d['property'] == prop: r.append(d)
    return r
if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--setup': engine(); print('engine ready'); sys.exit(0)
    try: sys.exit(main())
    except Bad as x: print('ERROR:', x); sys.exit(2)
