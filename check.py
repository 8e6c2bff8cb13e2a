#!/usr/bin/env python3
"""check.py <PROPERTY> quick|thorough     decide one property on /repo's current tree
   check.py replay <replay file>          replay a reported violation against the real code
   check.py list                          list properties and entries

Compiles the harness and the repository's current sources to LLVM IR, executes every entry symbolically with
build/symex (z3 decides branches and assertions), replays every candidate violation natively, and writes
evidence/<PROPERTY>.json."""
import concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
INC = [f'-I{V}/harness', f'-I{V}/harness/stub', f'-I{REPO}'] + [f'-I{REPO}/libs/{x}/include' for x in ('core', 'std', 'finance', 'api')]
IRFLAGS = ['-std=c++17', '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-access-control', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-pic', '-fno-pie', '-emit-llvm', '-c']
APIFLAGS = [f'-I{V}/harness/symshim', '-include', f'{V}/harness/symshim/pre.h']
COREFLAGS = [f'-I{V}/harness/symshim', '-include', f'{V}/harness/symshim/streams.h']
PLAIN = ['-std=c++17', '-O0', '-w', '-rdynamic', '-fno-access-control']
NATFLAGS = ['-std=c++17', '-O2', '-g1', '-w', '-rdynamic', '-fno-access-control']
ASAN = ['-std=c++17', '-O1', '-g1', '-w', '-rdynamic', '-fno-access-control', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment']


def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')


def ir_build(cmds):
    """first with the stand-ins for the stream classes, then (code that uses more of them) without"""
    for c in cmds:
        rc, out = sh(c, 600)
        if rc == 0: break
    return rc, out


def generated(work, srcs):
    """the one header the build generates"""
    if 'libs/api/src/bindings.cpp' in srcs:
        import schema
        schema.write(REPO, f'{work}/gen')
    return [f'-I{work}/gen']


def ensure_engine():
    exe = f'{V}/build/symex'
    src = [f'{V}/engine/{f}' for f in os.listdir(f'{V}/engine')]
    os.makedirs(f'{V}/build', exist_ok=True)
    with open(f'{V}/build/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) + 1 for s in src):
            rc, out = sh(['make', '-B', '-C', f'{V}/engine', f'OUT={V}/build'])
            if rc:
                print(out)
                raise SystemExit('engine does not build')
    return exe


def memlimit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))


def parse_inputs(path):
    ent, defs, harness, srcs = None, [], None, []
    for l in open(path):
        if l.startswith('# entry '): ent = l.split()[2]
        if l.startswith('# defs '): defs = l.split()[2:]
        if l.startswith('# harness '): harness = l.split()[2]
        if l.startswith('# srcs '): srcs = l.split()[2:]
    return ent, defs, harness, srcs


def nat_build(work, harness, srcs, defs, name, flags):
    exe = f'{work}/{name}'
    objs, procs = [], []
    for s in [f'{V}/harness/{harness}', f'{V}/harness/replay.cpp'] + [f'{REPO}/{x}' for x in srcs]:
        o = f'{work}/{name}_{os.path.basename(s)}.o'
        objs.append(o)
        procs.append(subprocess.Popen(['g++'] + flags + defs + [f'-I{work}/gen'] + INC + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    out = ''
    ok = True
    for p in procs:
        o, _ = p.communicate()
        out += o
        ok &= p.returncode == 0
    if not ok: return None, out
    rc, o = sh(['g++'] + flags + objs + ['-ldl', '-o', exe])
    return (exe if rc == 0 else None), out + o


def run_replay(exe, entry, inp, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66', UBSAN_OPTIONS='print_stacktrace=0')
    p = f'ulimit -v 8000000 2>/dev/null; exec "$@"' if 'asan' not in os.path.basename(exe) else 'exec "$@"'
    return sh(['bash', '-c', p, 'x', exe, entry, inp], timeout=timeout, env=env)


def write_inputs(path, inputs, header):
    with open(path, 'w') as f:
        for h in header: f.write('# ' + h + '\n')
        for n, v in inputs: f.write(f'{n} {v}\n')


def bad(rc):
    return rc not in (0, 4, 2, 127, 126)


def replay_cmd(path):
    lines = open(path).read().split('\n')
    if lines[1].startswith('# typescript '):
        import tscheck
        rc, out = tscheck.replay(lines[1].split()[3], lines[1].split()[2], path)
        print(out)
        print('reproduced' if rc == 3 else 'not reproduced')
        return int(rc == 3)
    if lines[1].startswith('# python '):
        import pycheck
        rc, out = pycheck.replay((lines[1].split() + ['helper'])[3], lines[1].split()[2], '\n'.join(lines[2:]).strip())
        print(out)
        print('reproduced' if rc == 3 else 'not reproduced')
        return int(rc == 3)
    entry, defs, harness, srcs = parse_inputs(path)
    with tempfile.TemporaryDirectory(prefix='rtbot-replay.') as w:
        generated(w, srcs)
        for nm, fl in (('native', NATFLAGS), ('plain', PLAIN), ('asan', ASAN)):
            exe, out = nat_build(w, harness, srcs, defs, nm, fl)
            if not exe:
                print(out)
                return 2
            rc, out = run_replay(exe, entry, path)
            print(out, end='')
            if bad(rc):
                print(f'reproduced ({nm} build, exit {rc})')
                return 1
    print('not reproduced')
    return 0


def main():
    import props
    if sys.argv[1:2] == ['list']:
        for k, p in props.PROPS.items(): print(k, p['harness'], [e['name'] for e in p['entries']])
        return 0
    if sys.argv[1:2] == ['replay']: return replay_cmd(sys.argv[2])
    pid, tier = sys.argv[1], sys.argv[2]
    only = sys.argv[3:]
    P = props.PROPS[pid]
    if P.get('typescript'):
        import tscheck
        return tscheck.check(pid, tier, P)
    if P.get('python'):
        import pycheck
        return pycheck.check(pid, tier, P)
    return check(pid, tier, P, only)


def check(pid, tier, P, only=()):
    t0 = time.time()
    budget = 840.0 if tier == 'thorough' else float(P.get('budget', 600))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    defs = ['-DTHOROUGH=%d' % thorough] + P.get('defs', [])
    srcs = P.get('srcs', [])
    harness = P['harness']
    entries = [e for e in P['entries'] if (thorough or not e.get('thorough')) and (not only or e['name'] in only)]
    work = tempfile.mkdtemp(prefix='rtbot-verif.')
    os.makedirs(f'{V}/evidence/replay', exist_ok=True)
    notes, res = [], {}
    try:
        exe = ensure_engine()
        gen = generated(work, srcs)
        pool = cf.ThreadPoolExecutor(8)
        jobs = []
        for s in [f'{V}/harness/{harness}', f'{V}/harness/sym_rt.cpp'] + [f'{REPO}/{x}' for x in srcs]:
            o = f'{work}/{os.path.basename(s)}.bc'
            if s.endswith('sym_rt.cpp'): fls = [['-fno-builtin']]
            else: fls = [APIFLAGS, APIFLAGS + ['-DSYM_NO_STREAMS']] if srcs else [COREFLAGS, []]
            jobs.append((s, o, pool.submit(ir_build, [['clang++'] + IRFLAGS + fl + defs + gen + INC + [s, '-o', o] for fl in fls])))
        bcs = []
        for s, o, j in jobs:
            rc, out = j.result()
            if rc:
                errs = [l for l in out.splitlines() if 'error' in l]
                notes.append(f'{s} does not compile: ' + '\n'.join(errs[:6] or [out[:800]]))
            bcs.append(o)
        irtime = time.time() - t0
        nat = None
        results = []
        if not notes:
            natf = pool.submit(nat_build, work, harness, srcs, defs, 'native', NATFLAGS)

            stop = threading.Event()

            def one(e):
                out = f'{work}/{e["name"]}.json'
                left = budget - (time.time() - t0) - 60
                lim = min(left, e.get('time', 400) * (2.0 if thorough else 1.0))
                if lim < 5: return e, None, 'no time left'
                cmd = [exe] + bcs + ['--entry', e['name'], '--out', out, '--time', str(lim), '--solver-ms', str(e.get('ms', 20000)), '--witnesses', str(e.get('wit', 6)), '--src', REPO + '/', '--seed', str(seed)]
                if 'steps' in e: cmd += ['--max-steps', str(e['steps'])]
                if stop.is_set(): return e, None, 'stopped'
                logf = f'{work}/{e["name"]}.log'
                with open(logf, 'w') as lf:
                    p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, preexec_fn=memlimit)
                    end = time.time() + lim + 120
                    while True:
                        try: p.wait(0.3); break
                        except subprocess.TimeoutExpired:
                            if stop.is_set() or time.time() > end:
                                p.kill(); p.wait()
                                return e, None, 'stopped' if stop.is_set() else 'timeout'
                log = open(logf, errors='replace').read()
                if not os.path.exists(out): return e, None, f'symex exit {p.returncode}: {log[-500:]}'
                try: r = json.load(open(out))
                except Exception as x: return e, None, f'bad output: {x}'
                if r['violations'] and not e.get('finding') and natf.result()[0]:
                    # one violation the real code reproduces settles the verdict: the other entries need not finish
                    for k, v in enumerate(r['violations'][:4]):
                        path = f'{work}/early-{e["name"]}-{k}.txt'
                        write_inputs(path, v['inputs'], [])
                        if bad(run_replay(natf.result()[0], e['name'], path)[0]): stop.set(); break
                return e, r, log[-2000:]

            order = sorted(entries, key=lambda e: -e.get('time', 60))
            results = list(pool.map(one, order))
            nat, natout = natf.result()
            if not nat: notes.append('native build failed: ' + natout[-1500:])
        # ------------------------------------------------------------ verdicts
        confirmed, unconfirmed, known = [], [], []
        asan = plain = None
        traces = disagree = 0
        samples = []
        nrep = 0
        for e, r, log in results:
            if r is None and log == 'stopped': continue
            if r is None:
                notes.append(f'{e["name"]}: no result: {log}')
                continue
            if os.environ.get('SYM_LOG'): print(e['name'], log)
            hdr = [f'property {pid}', f'entry {e["name"]}', 'defs ' + ' '.join(defs), f'harness {harness}', 'srcs ' + ' '.join(srcs)]
            for v in r['violations']:
                if (len(confirmed) >= 12 or sum(c['entry'] == e['name'] for c in confirmed) >= 2) and not e.get('finding'): break
                path = f'{V}/evidence/replay/{pid}-{e["name"]}-{nrep}.txt'
                nrep += 1
                write_inputs(path, v['inputs'], hdr + [f'kind {v["kind"]}', f'label {v["label"]}'])
                ok, how = False, ''
                if nat:
                    rc, out = run_replay(nat, e['name'], path)
                    ok, how = bad(rc), f'native exit {rc}: ' + ' | '.join(l for l in out.splitlines() if 'FAIL' in l)[:300]
                    if not ok:  # an optimiser may hide a read of memory nobody wrote
                        if plain is None: plain = nat_build(work, harness, srcs, defs, 'plain', PLAIN)
                        if plain[0]:
                            rc, out = run_replay(plain[0], e['name'], path, 60)
                            ok, how = bad(rc), f'-O0 exit {rc}: ' + ' | '.join(l for l in out.splitlines() if 'FAIL' in l)[:300]
                    if not ok and v['kind'] in ('memory', 'hang', 'abort'):
                        if asan is None: asan = nat_build(work, harness, srcs, defs, 'asan', ASAN)
                        if asan[0]:
                            rc, out = run_replay(asan[0], e['name'], path, 60)
                            ok, how = bad(rc), f'asan exit {rc}: ' + ' | '.join(l for l in out.splitlines() if 'ERROR' in l or 'runtime error' in l or 'FAIL' in l)[:300]
                rec = dict(entry=e['name'], kind=v['kind'], label=v['label'], replay=path, how=how)
                if ok and e.get('finding'): known.append((e['finding'], rec))
                elif ok: confirmed.append(rec)
                else: unconfirmed.append(rec)
            for i, w in enumerate(r['witnesses']):
                if not nat: break
                path = f'{work}/w-{e["name"]}-{i}.txt'
                write_inputs(path, w, hdr)
                rc, out = run_replay(nat, e['name'], path)
                if rc == 0: traces += 1
                elif rc != 4 and not e.get('finding') and not r['violations']:
                    disagree += 1
                    notes.append(f'{e["name"]}: witness {i} disagrees natively (exit {rc}): {out[:300]}; inputs {w}')
                if i == 0 and len(samples) < 6: samples.append(dict(entry=e['name'], inputs=w[:40], native_exit=rc))
            if r['status'] not in ('ok', 'violation') and not (e.get('finding') and r['violations']):
                notes.append(f'{e["name"]}: {r["status"]} {r["why"]} errors={json.dumps(r["errors"])[:600]} undischarged={r["checks_undischarged"]}')
            for c in e.get('covers', []):
                if not r['covers'].get(c): notes.append(f'{e["name"]}: cover "{c}" not reached')
            if r['checks'] == 0: notes.append(f'{e["name"]}: no assertion reached')
        rs = [r for _, r, _ in results if r]
        tot = lambda k: sum(r[k] for r in rs)
        fns = sorted({f for r in rs for f in r['functions']})
        lines = {}
        for r in rs:
            for k, n in r['lines'].items(): lines[os.path.relpath(k, REPO)] = max(lines.get(os.path.relpath(k, REPO), 0), n)
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(confirmed),
                  assumptions=P.get('assumptions', []) + COMMON,
                  coverage=dict(states=tot('paths') + tot('forks'), transitions=tot('instructions'), traces_validated_against_impl=traces, samples=samples or [dict(note='none')],
                                bounds=P.get('bounds', {}).get(tier, P.get('bounds', {}).get('quick', '')), outside_bounds=P.get('outside', ''),
                                functions_encoded=fns, repo_lines_executed=lines, entries=[dict(entry=e['name'], status=r['status'] if r else 'none', paths=r['paths'], checks=r['checks'], checks_by_normal_form=r['checks_syntactic'], checks_by_solver=r['checks_solver'],
                                  checks_undischarged=r['checks_undischarged'], queries=r['queries'], unsat=r['unsat'], sat=r['sat'], unknown=r['unknown'], solver_s=round(r['solver_s'], 3), wall_s=round(r['wall_s'], 2), covers=r['covers'], labels=r['labels']) if r else dict(entry=e['name'], status='none') for e, r, _ in results],
                                paths=tot('paths'), assertions=tot('checks'), assertions_undischarged=tot('checks_undischarged'), queries_discharged=tot('queries'), solver_s=round(tot('solver_s'), 3), ir_build_s=round(irtime, 2),
                                exhaustive_within_bounds=all(r['status'] == 'ok' for e, r, _ in results if r and not e.get('finding')) and len(rs) == len(results) and not notes,
                                native_disagreements=disagree, notes=notes, unconfirmed_candidates=unconfirmed, known_findings=[k for k, _ in known]))
        with open(f'{V}/evidence/{pid}.json', 'w') as f: json.dump(ev, f, indent=1)
        print(f'{pid} {tier}: {len(rs)} entries, {tot("paths")} paths, {tot("instructions")} IR steps, {tot("checks")} assertions ({tot("checks_undischarged")} undischarged), {tot("queries")} queries, solver {tot("solver_s"):.1f}s, {traces} traces replayed, wall {time.time()-t0:.1f}s')
        for n in notes: print('NOTE:', n)
        for u in unconfirmed: print('NOTE: candidate not reproduced natively:', json.dumps(u))
        for k in sorted({k for k, _ in known}): print(f'KNOWN-FINDING: property={pid} {props_finding(k)}')
        if confirmed:
            for c in confirmed: print(f'  {c["entry"]} [{c["kind"]}] {c["label"]} -- {c["how"]}')
            print(f'VIOLATION property={pid} replay={confirmed[0]["replay"]}')
            return 1
        if os.environ.get('VERIF_STRICT') and (notes or unconfirmed): print('STRICT: inconclusive'); return 5
        if not rs: print('nothing could be explored'); return 2
        if notes: print(f'INCONCLUSIVE parts listed above; no violation found in what was explored')
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


COMMON = ['LLVM IR from clang++ 18 -O1 of the current sources is what is executed; the release build is g++',
          'unless stated otherwise double arithmetic is interpreted over the reals (rounding, overflow, NaN and infinities are outside the claim); candidates are replayed with real doubles',
          'integers are exact machine integers (64-bit wrap-around kept)', 'allocation never fails', 'API checks: printing a number as JSON text and reading it back gives the same number (nlohmann json); string and console streams are replaced by harness/symshim/pre.h',
          'libstdc++ code that exists only as machine code (red-black tree balancing, exception classes, string-to-number) is replaced by harness/sym_rt.cpp']


def props_finding(k):
    try:
        for f in json.load(open(f'{V}/known_findings.json'))['findings']:
            if f['id'] == k: return f'{k}: {f["what"]}'
    except Exception: pass
    return k


if __name__ == '__main__': sys.exit(main())
