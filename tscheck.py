"""Decides the properties of the TypeScript helper: harness/ts instruments the sources and runs them on symbolic inputs, z3 decides every branch and every
assertion; an entry holds when all paths are exhausted. Candidates are replayed on the plainly transpiled sources with the real JSON."""
import concurrent.futures as cf, json, os, shutil, subprocess, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
DRIVE = f'{V}/harness/ts/drive.js'


def run1(mod, args, lim):
    try:
        p = subprocess.run(['node', DRIVE, mod] + args, capture_output=True, text=True, timeout=lim, env=dict(os.environ, VERIF_REPO=REPO), errors='replace')
        return p.returncode, (p.stdout + p.stderr)[-20000:]
    except subprocess.TimeoutExpired: return 124, 'timeout'


def replay(mod, entry, path): return run1(mod, ['--replay', entry, path], 60)


def check(pid, tier, P):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='rtbot-verif.')
    os.makedirs(f'{V}/evidence/replay', exist_ok=True)
    mod = os.path.basename(P['harness'])[:-3]
    lim = 200.0 if tier == 'quick' else 700.0
    notes, confirmed, unconfirmed, res = [], [], [], {}
    ents = [e for e in P['entries'] if tier != 'quick' or not e.get('thorough')]
    try:
        def one(e):
            out = f'{work}/{e["name"]}.json'
            rc, log = run1(mod, [e['name'], str(lim), out], lim + 60)
            return e, (json.load(open(out)) if os.path.exists(out) else None), log
        with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, ents))
        for e, r, log in rs:
            n = e['name']
            if r is None:
                notes.append(f'{n}: no result: {log[-600:]}')
                continue
            res[n] = r
            for i, c in enumerate(r['candidates'][:8]):
                path = f'{V}/evidence/replay/{pid}-{n}{"-%d" % i if i else ""}.txt'
                with open(path, 'w') as f: f.write(f'# property {pid}\n# typescript {n} {mod}\n{json.dumps(c["model"])}\n')
                rc, out = replay(mod, n, path)
                rec = dict(entry=n, label=c['label'][:300], replay=path, how=f'plain run exit {rc}: ' + out.strip().split('\n')[0][:300])
                (confirmed if rc == 3 else unconfirmed).append(rec)
                if rc == 3: break
            notes += [f'{n}: {x}' for x in sorted(set(r['notes']))]
            if not r['candidates']: notes += [f'{n}: cover {c} not reached' for c in e['covers'] if c not in r['covers']]
        tot = lambda k: sum(r.get(k, 0) for r in res.values())
        ok = sum(r['exhausted'] and not r['candidates'] and not r['notes'] for r in res.values())
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(confirmed),
                  assumptions=P['assumptions'], coverage=dict(states=tot('paths'), transitions=tot('branches') + tot('paths'), traces_validated_against_impl=len(confirmed) + len(unconfirmed),
                  samples=[dict(entry=n, **(r.get('sample') or {})) for n, r in res.items()][:6] or [dict(note='none')], bounds=P['bounds']['quick'], outside_bounds=P['outside'],
                  functions_encoded=run1(mod, ['--functions'], 60)[1].split(), entries=[dict(entry=n, paths=r['paths'], checks=r['checks'], checks_by_solver=r['checks_by_solver'], queries=r['queries'], solver_s=round(r['solver_s'], 2), wall_s=round(r['wall'], 2), exhausted=r['exhausted'], covers=r['covers']) for n, r in res.items()],
                  paths=tot('paths'), assertions=tot('checks'), queries=tot('queries'), solver_s=round(tot('solver_s'), 2), solver='z3 4.8.12', exhaustive_within_bounds=ok == len(ents), notes=notes, unconfirmed_candidates=unconfirmed, known_findings=[]))
        with open(f'{V}/evidence/{pid}.json', 'w') as f: json.dump(ev, f, indent=1)
        print(f'{pid} {tier}: {len(res)} entries, {tot("paths")} paths, {tot("checks")} assertions, {tot("queries")} queries, solver {tot("solver_s"):.1f}s, {ok} entries exhausted, wall {time.time()-t0:.1f}s')
        for n in notes: print('NOTE:', n)
        for u in unconfirmed: print('NOTE: candidate not reproduced by a plain run:', json.dumps(u))
        if confirmed:
            for c in confirmed: print(f'  {c["entry"]} {c["label"]} -- {c["how"]}')
            print(f'VIOLATION property={pid} replay={confirmed[0]["replay"]}')
            return 1
        if os.environ.get('VERIF_STRICT') and (notes or unconfirmed or ok != len(ents)): print('STRICT: inconclusive'); return 5
        if not res: print('nothing could be explored'); return 2
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
