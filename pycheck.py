"""Decides the property of the Python helper with crosshair: the Python code is executed symbolically, z3 decides every branch; an entry holds
when all paths are exhausted without a failed assertion. Candidates are replayed under plain Python with the real json module."""
import ast, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = 'python3-vt'
DRIVE = f'{V}/harness/python/drive.py'


def entries(mod):
    m = re.search(r'^ENTRIES = (\[.*\])', open(f'{V}/harness/python/{mod}.py').read(), re.M)
    return ast.literal_eval(m.group(1))


def run1(cmd, lim, gen=''):
    env = dict(os.environ, VERIF_REPO=REPO, VERIF_GEN=gen, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=lim, env=env, errors='replace')
        return p.returncode, (p.stdout + p.stderr)[-4000:]
    except subprocess.TimeoutExpired: return 124, 'timeout'


def generate(out):
    """the repository's generator, target python"""
    p = subprocess.run(['node', f'{V}/harness/ts/gen.js', REPO, 'python', out], capture_output=True, text=True, timeout=120)
    return p.stdout + p.stderr


def replay(mod, entry, call, gen=''):
    if gen: return run1([PY, DRIVE, mod, '--replay', entry, call], 60, gen)
    with tempfile.TemporaryDirectory(prefix='rtbot-replay.') as w:
        generate(w)
        return run1([PY, DRIVE, mod, '--replay', entry, call], 60, w)


def functions(mod):
    """what is encoded: the functions of the helper module"""
    if mod != 'helper': return ['tools/generator/templates/python.hbs (every generated class)', 'tools/generator/src/index.ts (run concretely)']
    t = ast.parse(open(f'{REPO}/libs/wrappers/python/rtbot.py').read())
    r = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef): r.append(n.name)
        if isinstance(n, ast.ClassDef): r += [f'{n.name}.{x.name}' for x in n.body if isinstance(x, ast.FunctionDef)]
    return [f'libs/wrappers/python/rtbot.py:{x}' for x in r]


def check(pid, tier, P):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='rtbot-verif.')
    os.makedirs(f'{V}/evidence/replay', exist_ok=True)
    lim = 240.0 if tier == 'quick' else 700.0
    notes, confirmed, unconfirmed, res = [], [], [], {}
    mod = os.path.basename(P['harness'])[:-3]
    try:
        notes += [f'generator: {x}' for x in [generate(work)[-600:].strip()] if x] if mod != 'helper' else []
        def one(e):
            out = f'{work}/{e}.json'
            rc, log = run1([PY, DRIVE, mod, e, str(lim), out], lim + 60, work)
            return e, (json.load(open(out)) if os.path.exists(out) else None), log
        with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, entries(mod)))
        samples = []
        for e, r, log in rs:
            if r is None:
                notes.append(f'{e}: no result: {log[-600:]}')
                continue
            res[e] = r
            for m in r['messages']:
                if m['state'] == 'CONFIRMED': continue
                c = re.search(rf'when calling ({e}\(.*)$', m['message'], re.S)
                if not c:
                    notes.append(f'{e}: {m["state"]}: {m["message"][:300]}')
                    continue
                call = re.sub(r' with crosshair\.patch_to_return\(.*$', '', c.group(1), flags=re.S)
                call = re.sub(r' \(which returns .*$', '', call, flags=re.S)
                rc, out = replay(mod, e, call, work)
                path = f'{V}/evidence/replay/{pid}-{e}.txt'
                with open(path, 'w') as f: f.write(f'# property {pid}\n# python {e} {mod}\n{call}\n')
                rec = dict(entry=e, label=m['message'].split(' when calling')[0][:300], replay=path, how=f'plain python exit {rc}: ' + out.strip().split('\n')[-1][:300])
                (confirmed if rc == 3 else unconfirmed).append(rec)
            if not r['messages']: notes.append(f'{e}: no verdict')
        for e in entries(mod)[:6]:
            if e in res: samples.append(dict(entry=e, verdict=[m['state'] for m in res[e]['messages']], paths=res[e]['stats'].get('num_paths', 0)))
        paths = sum(r['stats'].get('num_paths', 0) for r in res.values())
        ok = sum(all(m['state'] == 'CONFIRMED' for m in r['messages']) and bool(r['messages']) for r in res.values())
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(confirmed),
                  assumptions=P['assumptions'], coverage=dict(states=paths, transitions=paths, traces_validated_against_impl=len(confirmed), samples=samples or [dict(note='none')], bounds=P['bounds']['quick'], outside_bounds=P['outside'],
                  functions_encoded=functions(mod), entries=[dict(entry=e, paths=r['stats'].get('num_paths', 0), exhausted=r['stats'].get('exhaustion', 0), wall_s=round(r['wall'], 2), verdict=[m['state'] for m in r['messages']]) for e, r in res.items()],
                  paths=paths, entries_confirmed_over_all_paths=ok, solver='z3 through crosshair, not reported separately from execution', exhaustive_within_bounds=ok == len(entries(mod)), notes=notes, unconfirmed_candidates=unconfirmed, known_findings=[]))
        with open(f'{V}/evidence/{pid}.json', 'w') as f: json.dump(ev, f, indent=1)
        print(f'{pid} {tier}: {len(res)} entries, {paths} paths, {ok} confirmed over all paths, wall {time.time()-t0:.1f}s')
        for n in notes: print('NOTE:', n)
        for u in unconfirmed: print('NOTE: candidate not reproduced under plain Python:', json.dumps(u))
        if confirmed:
            for c in confirmed: print(f'  {c["entry"]} {c["label"]} -- {c["how"]}')
            print(f'VIOLATION property={pid} replay={confirmed[0]["replay"]}')
            return 1
        if os.environ.get('VERIF_STRICT') and (notes or unconfirmed): print('STRICT: inconclusive'); return 5
        if not res: print('nothing could be explored'); return 2
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
