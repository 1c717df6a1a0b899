#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources to LLVM bitcode, runs vpsym (symbolic
execution, Z3) on the property's harnesses, replays counterexamples and sampled paths against a
native AddressSanitizer build of the same sources, writes the evidence file.

exit 0: held on everything explored (known findings are printed)
exit 1: VIOLATION lines, each confirmed by a native replay
exit 2: no verdict (engine incomplete, vacuous harness, unconfirmed counterexample, build failure)
"""
import sys, os, json, re, subprocess, tempfile, shutil, time, hashlib, glob, fcntl, resource
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
JOBS = int(os.environ.get('VP_JOBS', str(os.cpu_count() or 4)))
INC = [f'-I{REPO}/include', f'-I{REPO}/judy-1.0.5/src', f'-I{VERIF}/harness']
STD = ['-DNDEBUG', '-std=c99', '-D_GNU_SOURCE', '-w']
SYM = ['-DVP_SYMBOLIC', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-builtin', '-emit-llvm']
NAT = ['-g', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer']
WRAP = ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup']


class Inconclusive(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode != 0:
        raise Inconclusive('command failed: ' + ' '.join(cmd)[:300] + '\n' + r.stderr[-1500:])
    return r


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in ('vpsym.cpp', 'expr.h', 'build.sh'):
        h.update(open(os.path.join(VERIF, 'engine', f), 'rb').read())
    exe = os.path.join(BUILD, 'vpsym-' + h.hexdigest()[:16])
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            must(['bash', os.path.join(VERIF, 'engine/build.sh'), exe])
    return exe


class Builder:
    """object files of one run, symbolic (.bc) and native (.o), built on demand"""
    def __init__(self, tmp):
        self.tmp, self.done = tmp, {}

    def defs_for(self, src, h):
        d = list(h.get('defs', []))
        if not src.startswith((VERIF + '/runtime/', VERIF + '/stubs/libc.c')):
            d += [f'-D{f}=vpf_{f}' for f in h.get('rename', [])]
        if h.get('python') and not src.startswith((VERIF + '/runtime/', VERIF + '/stubs/libc.c', VERIF + '/stubs/judy.c', REPO + '/src/')):
            d += ['-I/usr/include/python3.12', f'-I{REPO}', f'-I{VERIF}/harness']
        return d

    def compile(self, src, h, sym):
        d = self.defs_for(src, h)
        key = (src, sym, tuple(d))
        if key in self.done:
            return None
        out = os.path.join(self.tmp, hashlib.md5(repr(key).encode()).hexdigest()[:12] + '_' + os.path.basename(src) + ('.bc' if sym else '.o'))
        self.done[key] = out
        cc = ['clang'] + SYM if sym else ['gcc'] + NAT
        pre = [f'-I{h["incdir"]}'] if h.get('incdir') else []
        return cc + STD + pre + d + INC + ['-c', src, '-o', out]

    def objs(self, srcs, h, sym):
        cmds = [c for c in (self.compile(s, h, sym) for s in srcs) if c]
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(must, cmds))
        return [self.done[(s, sym, tuple(self.defs_for(s, h)))] for s in srcs]


def repo_sources(h):
    excl = set(h.get('exclude', []))
    s = sorted(glob.glob(REPO + '/src/*.c'))
    if h.get('python'):
        s += [os.path.join(REPO, 'python', p) for p in h['python']]
    return [x for x in s if os.path.basename(x) not in excl]


def harness_sources(h):
    r = [os.path.join(VERIF, 'harness', h['src']), os.path.join(VERIF, 'stubs/judy.c')]
    for e in h.get('extra', []):
        r.append(os.path.join(VERIF, e))
    return r


def build_sym(b, h, name):
    objs = b.objs(repo_sources(h) + harness_sources(h) + [os.path.join(VERIF, 'stubs/libc.c')], h, True)
    allbc, bc = os.path.join(b.tmp, name + '.all.bc'), os.path.join(b.tmp, name + '.bc')
    must(['llvm-link', '--suppress-warnings'] + objs + ['-o', allbc])
    must(['opt', '-passes=internalize,globaldce,function(sroa,early-cse,instsimplify,simplifycfg)', '-internalize-public-api-list=main', allbc, '-o', bc])
    return bc


def build_native(b, h, name):
    objs = b.objs(repo_sources(h) + harness_sources(h) + [os.path.join(VERIF, 'runtime/vp_native.c')] + [os.path.join(VERIF, e) for e in h.get('native_extra', [])], h, False)
    exe = os.path.join(b.tmp, name + '.exe')
    if h.get('python'):
        h = dict(h, wrap=h.get('wrap', []) + ['-Wl,--unresolved-symbols=ignore-all'])
    must(['gcc', '-fsanitize=address'] + WRAP + h.get('wrap', []) + objs + ['-lm', '-o', exe])
    return exe


def native(exe, tape, args, timeout=20, stack=0, max_alloc=None):
    tf = tempfile.NamedTemporaryFile('w', suffix='.tape', delete=False, dir=os.path.dirname(exe))
    tf.write('\n'.join(map(str, tape)) + '\n'); tf.close()
    env = dict(os.environ, VP_TAPE=tf.name, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1')
    if max_alloc:
        env['VP_MAX_ALLOC'] = str(max_alloc)
    for k, v in args.items():
        env['VP_ARG%d' % k] = str(v)
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors='replace', text=True, cwd=os.path.dirname(exe),
                           preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_STACK, (stack, stack))) if stack else None)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''
    finally:
        os.unlink(tf.name)


def confirms(v, res):
    rc, out, err = res
    if v['kind'] == 'check':
        return 'CHECK-FAILED ' + v['msg'] in out or 'AddressSanitizer' in err or rc == 'timeout' or (isinstance(rc, int) and rc < 0)
    if v['kind'] == 'steps':
        return rc == 'timeout' or 'AddressSanitizer' in err or 'CHECK-FAILED' in out
    return 'AddressSanitizer' in err or (isinstance(rc, int) and rc < 0) or 'CHECK-FAILED' in out or rc == 'timeout'


def explore(b, exe, h, name, tier, left):
    opt = dict(h.get('opts', {})); opt.update(h.get(tier, {}).get('opts', {}))
    args = dict(h.get('args', {})); args.update(h.get(tier, {}).get('args', {}))
    limit = max(5, min(opt.get('time', 300), left))
    bc = build_sym(b, h, name)
    out = os.path.join(b.tmp, name + '.out')
    cmd = [exe, bc, '-o', out, '-j', str(JOBS), '--time', str(limit), '--samples', str(opt.get('samples', 24))]
    for k in ('steps', 'enum', 'smt-ms', 'max-alloc', 'max-paths', 'split', 'depth'):
        if k in opt:
            cmd += ['--' + k, str(opt[k])]
    if opt.get('uninit'):
        cmd.append('--uninit')
    for k, v in args.items():
        cmd += ['--arg', f'{k}={v}']
    t0 = time.time()
    try:
        r = run(cmd, timeout=limit + 100)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f'{name}: engine did not stop in time')
    rec = {'harness': name, 'src': h['src'], 'args': args, 'wall_s': round(time.time() - t0, 2)}
    tot, reach, funcs, viols, paths, inc, part, end = {}, {}, set(), {}, [], [], [], None
    for l in open(out) if os.path.exists(out) else []:
        try:
            d = json.loads(l)
        except ValueError:
            inc.append('garbled engine output'); continue
        t = d['t']
        if t == 'stats':
            for k, x in d.items():
                if isinstance(x, (int, float)):
                    tot[k] = max(tot.get(k, 0), x) if k in ('depth', 'exprs') else tot.get(k, 0) + x
            for k, x in d['reach'].items():
                reach[k] = reach.get(k, 0) + x
            funcs.update(d['funcs'])
        elif t == 'viol':
            viols.setdefault((d['kind'], d['msg'], ' < '.join(d['stack'].split(' < ')[:3])), d)
        elif t == 'path':
            paths.append(d)
        elif t == 'end':
            end = d
        elif t in ('incomplete', 'internal'):
            (part if t == 'incomplete' else inc).append(d.get('msg', '') + ' @ ' + d.get('stack', ''))
    if r.returncode != 0 or end is None:
        inc.append('engine failed: ' + r.stderr[-400:])
    elif end['stop'] == 1:
        part.append('time limit reached before all paths were explored')
    elif end['lost']:
        part.append('%d worker processes lost' % end['lost'])
    rec.update(paths=tot.get('paths', 0), pruned=tot.get('pruned', 0), terminated=tot.get('term', 0), instructions=tot.get('instr', 0), forks=tot.get('forks', 0), queries=tot.get('queries', 0),
               solver_queries=tot.get('solver', 0), solver_unknown=tot.get('unknown', 0), solver_s=round(tot.get('solver_s', 0), 2), max_depth=tot.get('depth', 0))
    rec['functions'] = sorted({f.rsplit(':', 1)[1] for f in funcs if f.startswith(REPO)})
    rec['checks'] = {k[6:]: v for k, v in reach.items() if k.startswith('check:')}
    rec['reach'] = {k[6:]: v for k, v in reach.items() if k.startswith('reach:')}
    # counterexamples
    nat = None
    confirmed, unconfirmed = [], []
    if viols or paths:
        nat = build_native(b, h, name)
    items = list(viols.values())[:60]
    with ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(lambda v: native(nat, v['tape'], args, stack=1 << 19 if v['kind'] == 'stack' else 0, max_alloc=opt.get('max-alloc')), items))
    for v, res in zip(items, results):
        if confirms(v, res):
            v['native'] = {'rc': res[0], 'stdout': res[1][-600:], 'stderr': '\n'.join([x for x in res[2].splitlines() if 'ERROR' in x or re.match(r'\s+#[0-4] ', x)][:6])}
            confirmed.append(v)
        else:
            v['native'] = {'rc': res[0], 'stdout': res[1][-300:], 'stderr': res[2][-300:]}
            unconfirmed.append(v)
    # engine/native agreement on complete paths
    agree, mism = 0, []
    with ThreadPoolExecutor(JOBS) as ex:
        for p, res in zip(paths, ex.map(lambda p: native(nat, p['tape'], args, max_alloc=opt.get('max-alloc')), paths)):
            outs = [int(x.split()[1]) for x in res[1].splitlines() if x.startswith('OUT ')]
            if res[0] == 0 and outs == p['out']:
                agree += 1
            elif len(mism) < 3:
                mism.append({'tape': p['tape'], 'engine': p['out'], 'native': outs, 'rc': res[0], 'stderr': res[2][-500:], 'stdout': res[1][-200:]})
    rec['traces_validated'] = agree
    rec['sample'] = {'inputs': paths[0]['tape'], 'observed': paths[0]['out']} if paths else None
    rec['problems'] = inc[:8] + ['engine and native build disagree: ' + json.dumps(m)[:900] for m in mism] + \
        ['counterexample not reproduced natively: %s %s at %s (%s) tape %s' % (v['kind'], v['msg'], v['stack'], v['native'], v['tape']) for v in unconfirmed]
    rec['partial'] = part[:8]
    rec['confirmed'] = confirmed
    return rec


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def is_known(known, prop, harness, v):
    for f in known['findings']:
        if f['property'] == prop and re.fullmatch(f.get('harness', '.*'), harness) and f['kind'] == v['kind'] and f['msg'] == v['msg'] and (not f.get('stack') or f['stack'] in re.sub(r'@[^ ]*', '', v['stack'])):
            return f
    return None


def main():
    if sys.argv[1] == '--setup':
        ensure_engine(); return 0
    import checks
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--only='):
            only = a[7:]
    cfg = checks.CHECKS[prop]
    t0 = time.time()
    recs, status, nviol = [], 0, 0
    budget = float(os.environ.get('VP_BUDGET', '720' if tier == 'quick' else '1e9'))  # s; what does not fit is reported as partial
    known = load_known()
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vp-', dir='/tmp')
    try:
        try:
            exe = ensure_engine()
            b = Builder(tmp)
            printed = set()
            for h0 in cfg['harnesses']:
                if tier not in h0.get('tiers', ('quick', 'thorough')) or (only and not re.fullmatch(only, h0['name'])):
                    continue
                rec = explore(b, exe, h0, h0['name'], tier, budget - (time.time() - t0))
                recs.append(rec)
                for v in rec['confirmed']:
                    k = is_known(known, prop, h0['name'], v)
                    if k:
                        if k['what'] not in printed:
                            printed.add(k['what']); print(f'KNOWN-FINDING: property={prop} {k["what"]}')
                        continue
                    nviol += 1
                    rp = os.path.join(rdir, f'{prop}-{re.sub(chr(32), "_", h0["name"])}-{nviol}.json')
                    json.dump({'property': prop, 'harness': h0['name'], 'args': rec['args'], 'violation': v}, open(rp, 'w'), indent=1)
                    print(f'VIOLATION property={prop} replay={rp}')
                    print(f'  {h0["name"]}: {v["kind"]}: {v["msg"]} at {v["stack"]}')
                    print('  inputs: ' + ' '.join(map(str, v['tape'])))
                    if v['native']['stderr']:
                        print('  native: ' + v['native']['stderr'].replace('\n', '\n          '))
                if nviol:
                    break
                for p in rec['problems']:
                    print(f'INCONCLUSIVE {h0["name"]}: {p}')
                    status = 2
                for p in rec['partial']:
                    print(f'PARTIAL {h0["name"]}: {p}')
            # vacuity: every marker of a harness source must be reached by some configuration of it
            for src in sorted({h['src'] for h in cfg['harnesses']}):
                mine = [r for r in recs if r['src'] == src]
                if not mine or only:
                    continue
                need = set(re.findall(r'VP_REACH\("([^"]+)"\)', open(os.path.join(VERIF, 'harness', src)).read())) - set(cfg.get('unreached', []))
                missing = sorted(x for x in need if not any(r['reach'].get(x) for r in mine))
                if missing and not nviol and not any(r['partial'] for r in mine):
                    print(f'INCONCLUSIVE {src}: never reached: {", ".join(missing)}'); status = 2
        except Inconclusive as e:
            print('INCONCLUSIVE ' + str(e)); status = 2
        if nviol:
            status = 1
        ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': cfg.get('level', 'model_checking'),
              'coverage': {
                  'states': sum(r['paths'] + r['pruned'] + r['terminated'] for r in recs), 'transitions': sum(r['instructions'] for r in recs),
                  'traces_validated_against_impl': sum(r['traces_validated'] for r in recs),
                  'samples': [dict(r['sample'], harness=r['harness']) for r in recs if r['sample']][:12],
                  'explanation': 'states: symbolic paths explored to their end (each stands for all inputs satisfying its path condition); transitions: LLVM IR instructions executed symbolically; traces_validated_against_impl: complete paths whose solver model was run on the native build of the same sources with identical observed values.',
                  'bounds': cfg['bounds'], 'outside_bounds': cfg.get('outside', ''),
                  'functions_encoded': sorted({f for r in recs for f in r['functions']}),
                  'queries': sum(r['queries'] for r in recs), 'queries_sent_to_solver': sum(r['solver_queries'] for r in recs), 'solver_unknown': sum(r['solver_unknown'] for r in recs), 'solver_s': round(sum(r['solver_s'] for r in recs), 2),
                  'harnesses': [{k: r[k] for k in ('harness', 'args', 'paths', 'pruned', 'terminated', 'forks', 'queries', 'solver_queries', 'solver_s', 'wall_s', 'traces_validated', 'checks', 'problems', 'partial')} for r in recs],
                  'exhaustive': status == 0 and not any(r['partial'] for r in recs)},
              'assumptions': cfg.get('assumptions', []) + checks.COMMON_ASSUMPTIONS,
              'wall_s': round(time.time() - t0, 2), 'violations': nviol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
        if '-v' in sys.argv or os.environ.get('VP_VERBOSE'):
            for r in recs:
                print({k: r[k] for k in ('harness', 'paths', 'pruned', 'terminated', 'queries', 'solver_queries', 'solver_s', 'wall_s', 'traces_validated', 'checks')})
        if status == 0:
            print(f'{prop}: held on {sum(r["paths"] for r in recs)} paths, {len(recs)} harnesses, {time.time() - t0:.1f}s')
        return status
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
