// drive.js MODULE ENTRY SECONDS OUT: decides one entry;  drive.js MODULE --replay ENTRY FILE: runs it once, without instrumentation, on the inputs of FILE
const fs = require('fs'), path = require('path'), vm = require('vm'), { spawn } = require('child_process');
const { transpile, functions } = require('./instrument');
const { $, R, Sym, Run, isS, Unsupported, lit } = require('./runtime');
const REPO = process.env.VERIF_REPO || '/repo';
const MOD = require('./' + process.argv[2]), SRC = `${REPO}/${MOD.SRC}`;

class Failed extends Error {}
const quiet = new Proxy({}, { get: () => () => {} });

function loader(plain, stubs) {
  const cache = {};
  const load = (file) => {
    if (cache[file]) return cache[file].exports;
    const text = fs.readFileSync(file, 'utf8');
    const t = load.code[plain + file] || (load.code[plain + file] = transpile(text, path.basename(file), plain).outputText);
    const m = (cache[file] = { exports: {} });
    const req = (n) => {
      if (n in stubs) return typeof stubs[n] === 'function' && stubs[n].load ? stubs[n](load) : stubs[n];
      if (n.startsWith('.')) for (const e of ['.ts', '/index.ts', '']) { const p = path.resolve(path.dirname(file), n + e); if (fs.existsSync(p) && fs.statSync(p).isFile()) return load(p); }
      throw new Error('module ' + n + ' has no stand-in');
    };
    vm.runInThisContext(`(function (exports, require, module, $, process, console) {${t}\n})`, { filename: file })(m.exports, req, m, $, stubs.process || process, stubs.console || quiet);
    return m.exports;
  };
  load.code = loader.code;
  return load;
}
loader.code = {};

// what an entry sees: symbolic inputs, checks and the module under test
function env(run, plain) {
  const given = (name, dflt) => run.model[run.unique(name)] ?? dflt;
  const num = (name, sort) => (plain ? given(name, 0) : run.input(name, sort, 0));
  const str = (name, dom) => (plain ? given(name, dom[0]) : run.input(name, 'String', dom[0], (t) => `(or ${dom.map((d) => `(= ${t} ${lit(d)})`).join(' ')})`));
  const E = {
    plain, text: (v) => (isS(v) ? $.text(v) : `${v}`), J: plain ? JSON : { stringify: (...x) => $.call(JSON, 'stringify', x), parse: (...x) => $.call(JSON, 'parse', x) }, cat: (...x) => $.cat('', ...x.flatMap((y) => [y, ''])), round: (v) => $.call(Math, 'round', [v]),
    real: (n) => num(n, 'Real'), int: (n) => num(n, 'Int'), str,
    name: (n) => (plain ? given(n, 'x') : run.input(n, 'String', 'x', (t) => `(<= 1 (str.len ${t}) 20)`)),
    choice(name, n) { // 0..n-1, one path each
      if (plain) return given(name, 0);
      const s = run.input(name, 'Int', 0, (t) => `(and (<= 0 ${t}) (< ${t} ${n}))`);
      for (let i = 0; i < n - 1; i++) if ($.truth($.op('===', s, i))) return i;
      return n - 1;
    },
    bool: (name) => E.choice(name, 2) === 1,
    truth: (v) => $.truth(v), eq: (a, b) => $.op('===', a, b), op: (o, a, b) => $.op(o, a, b),
    cover: (l) => run.covers.add(l),
    check(c, label) {
      if (isS(c)) run.checks.push({ label, term: c.term, at: run.branches.length, val: c.val });
      else run.checks.push({ label, val: !!c, at: run.branches.length });
      if (!(isS(c) ? c.val : c)) throw new Failed(label);
    },
    // deep equality of structures that may hold symbolic values
    same(a, b, label) {
      const d = diff(a, b, label);
      if (d) E.check(false, d);
    },
    async raises(f) { try { await f(); } catch (x) { if (x instanceof Failed || x instanceof Unsupported) throw x; return x; } return null; },
  };
  const diff = (a, b, at) => {
    if (isS(a) || isS(b)) { const c = $.op('===', a, b); if (isS(c)) { E.check(c, at); return null; } return c ? null : at; }
    if (typeof a !== typeof b || a === null || b === null || typeof a !== 'object') return Object.is(a, b) || a === b ? null : `${at}: ${show(a)} instead of ${show(b)}`;
    if (Array.isArray(a) !== Array.isArray(b)) return at;
    const ka = Object.keys(a).filter((k) => a[k] !== undefined).sort(), kb = Object.keys(b).filter((k) => b[k] !== undefined).sort();
    if (ka.join('\n') !== kb.join('\n') || (Array.isArray(a) && a.length !== b.length)) return `${at}: ${show(ka)} instead of ${show(kb)}`;
    for (const k of ka) { const d = diff(a[k], b[k], `${at}.${k}`); if (d) return d; }
    return null;
  };
  const show = (x) => { try { return String(JSON.stringify(x)).slice(0, 80); } catch { return '?'; } };
  return E;
}

async function execute(entry, model, plain) {
  const run = new Run(model);
  R.cur = run;
  const helper = MOD;
  let fail = null;
  const E = env(run, plain);
  try { await helper.run(entry, E, (stubs) => loader(plain, stubs), SRC); }
  catch (x) { fail = x; }
  if (fail instanceof Unsupported) fail = null;
  return { run, fail };
}

// z3 over its standard input
class Z3 {
  constructor() {
    this.p = spawn('z3', ['-in', '-smt2']);
    this.buf = ''; this.wait = null; this.queries = 0; this.ms = 0; this.lines = [];
    this.p.stdout.on('data', (d) => { this.buf += d; this.pump(); });
    this.p.stdin.write('(set-option :timeout 20000)\n');
    this.log = [];
  }
  pump() { const i = this.buf.indexOf('<<end>>'); if (i >= 0 && this.wait) { const r = this.buf.slice(0, i).trim(); this.buf = this.buf.slice(i + 7); const w = this.wait; this.wait = null; w(r); } }
  ask(text) { return new Promise((ok) => { this.wait = ok; this.p.stdin.write(text + '\n(echo "<<end>>")\n'); }); }
  async solve(run, terms) {
    const t0 = Date.now();
    this.queries++;
    let q = '(push)\n(declare-fun numtext (Real) String)\n';
    for (const i of run.inputs) { q += `(declare-const |${i.name}| ${i.sort})\n`; if (i.constraint) q += `(assert ${i.constraint})\n`; }
    for (const t of terms) q += `(assert ${t})\n`;
    const r = await this.ask(q + '(check-sat)');
    let model = null;
    if (r === 'sat') {
      model = {};
      if (run.inputs.length) { const v = await this.ask(`(get-value (${run.inputs.map((i) => `|${i.name}|`).join(' ')}))`); for (const i of run.inputs) model[i.name] = value(v, i); }
    }
    await this.ask('(pop)');
    this.ms += Date.now() - t0;
    return { r, model };
  }
  end() { this.p.stdin.end(); this.p.kill(); }
}
function value(text, i) {
  const toks = text.match(/\|[^|]*\||"(?:[^"]|"")*"|[()]|[^\s()]+/g);
  for (let k = 0; k < toks.length; k++) {
    if (toks[k] !== `|${i.name}|` && toks[k] !== i.name) continue;
    const rd = () => { const t = toks[++k]; if (t !== '(') return t; const l = []; for (;;) { if (toks[k + 1] === ')') { k++; return l; } l.push(rd()); } };
    const e = rd();
    if (i.sort === 'String') return e.slice(1, -1).replace(/""/g, '"').replace(/\\u\{([0-9a-f]+)\}/g, (_, h) => String.fromCodePoint(parseInt(h, 16)));
    if (i.sort === 'Bool') return e === 'true';
    const ev = (x) => (Array.isArray(x) ? (x[0] === '-' ? (x.length === 2 ? -ev(x[1]) : ev(x[1]) - ev(x[2])) : x[0] === '/' ? ev(x[1]) / ev(x[2]) : NaN) : Number(x));
    return ev(e);
  }
  throw new Error('no value for ' + i.name);
}

async function explore(entry, seconds) {
  const z = new Z3(), t0 = Date.now(), out = { entry, paths: 0, checks: 0, checks_by_solver: 0, branches: 0, candidates: [], notes: [], covers: [] };
  const work = [{ model: {}, bound: 0 }], seen = new Set(), known = new Set(), covers = new Set();
  const cand = (label, model) => { if (!seen.has(label)) { seen.add(label); out.candidates.push({ label, model }); } };
  while (work.length) {
    if ((Date.now() - t0) / 1000 > seconds) { out.notes.push('time limit'); break; }
    if (out.candidates.length && (Date.now() - t0) / 1000 > 20) { out.notes.push('stopped after a candidate'); break; }
    const w = work.pop();
    const { run, fail } = await execute(entry, w.model, false);
    out.paths++;
    if (process.env.TS_DEBUG) console.error(JSON.stringify(w.model), run.branches.length, fail && fail.stack);
    for (const c of run.covers) covers.add(c);
    for (const n of run.notes) out.notes.push('unsupported: ' + n);
    const inputs = () => Object.fromEntries(run.inputs.map((i) => [i.name, i.val]));
    if (w.path && w.path.some((t, i) => !run.branches[i] || run.branches[i].taken !== t)) out.notes.push('a path went another way than predicted');
    if (fail) cand(fail instanceof Failed ? fail.message : `${fail.name}: ${fail.message}`.slice(0, 200), inputs());
    const pc = run.branches.map((b) => (b.taken ? b.term : `(not ${b.term})`));
    for (const c of run.checks) {
      out.checks++;
      if (!c.term || !c.val) continue;
      // the same check under a condition already decided needs no second query
      const key = [...pc.slice(0, c.at), c.term].join('\n');
      if (known.has(key)) continue;
      const r = await z.solve(run, [...pc.slice(0, c.at), `(not ${c.term})`]);
      out.checks_by_solver++;
      if (r.r === 'sat') cand(c.label, r.model);
      else if (r.r !== 'unsat') out.notes.push('undecided check: ' + c.label + ' ' + r.r.slice(0, 100));
      else known.add(key);
    }
    // a check that failed in this run hides what comes after it; the other inputs on this path are reached through its negation
    const failing = run.checks.find((c) => c.term && !c.val);
    if (failing) { const r = await z.solve(run, [...pc.slice(0, failing.at), failing.term]); if (r.r === 'sat') work.push({ model: r.model, bound: run.branches.length }); }
    for (let k = w.bound; k < pc.length; k++) {
      out.branches++;
      const neg = run.branches[k].taken ? `(not ${run.branches[k].term})` : run.branches[k].term;
      const r = await z.solve(run, [...pc.slice(0, k), neg]);
      if (r.r === 'sat') work.push({ model: r.model, bound: k + 1, path: [...run.branches.slice(0, k).map((b) => b.taken), !run.branches[k].taken] });
      else if (r.r !== 'unsat') out.notes.push('undecided branch: ' + r.r.slice(0, 100));
    }
    if (out.sample === undefined && run.inputs.length) out.sample = { inputs: run.inputs.map((i) => i.name), path_condition: pc.slice(0, 6), checks: run.checks.filter((c) => c.term).slice(0, 4).map((c) => c.term) };
  }
  out.exhausted = !work.length;
  out.covers = [...covers];
  out.queries = z.queries; out.solver_s = z.ms / 1000; out.wall = (Date.now() - t0) / 1000;
  z.end();
  return out;
}

async function main() {
  const a = process.argv.slice(3);
  if (a[0] === '--functions') {
    for (const f of MOD.FILES) for (const n of functions(fs.readFileSync(`${SRC}/${f}`, 'utf8'), f)) console.log(`${MOD.SRC}/${f}:${n}`);
    return 0;
  }
  if (a[0] === '--entries') { console.log(JSON.stringify(MOD.ENTRIES)); return 0; }
  if (a[0] === '--replay') {
    const { fail } = await execute(a[1], JSON.parse(fs.readFileSync(a[2], 'utf8').split('\n').filter((l) => l[0] !== '#').join('\n')), true);
    if (!fail) return 0;
    console.log('FAIL', fail instanceof Failed ? fail.message : fail.stack);
    return 3;
  }
  fs.writeFileSync(a[2], JSON.stringify(await explore(a[0], +a[1])));
  return 0;
}
main().then((r) => process.exit(r), (e) => { console.error(e); process.exit(4); });
