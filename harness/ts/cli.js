// W04 the command line debugger: the debug command with the real helper behind it, and the store of the interactive screen.
const helper = require('./helper');
exports.SRC = 'apps/cli/src';
exports.FILES = ['commands/debug.ts', 'tui/store.ts'];
const HELPER = '../../../libs/wrappers/javascript/src/index.ts';

function immer(f, draft) {
  // a deep copy is drafted, the original stays as it is
  const copy = (o) => (Array.isArray(o) ? o.map(copy) : o && typeof o === 'object' && Object.getPrototypeOf(o) === Object.prototype ? Object.fromEntries(Object.entries(o).map(([k, v]) => [k, copy(v)])) : o);
  const d = copy(f);
  const r = draft(d);
  return r === undefined ? d : r;
}
function zustand(init) {
  let state;
  const subs = new Set();
  const get = () => state;
  const set = (p, replace) => { const n = typeof p === 'function' ? p(state) : p; if (n !== state) { const old = state; state = replace ? n : Object.assign({}, state, n); subs.forEach((s) => s(state, old)); } };
  const api = { getState: get, setState: set, subscribe: (s) => { subs.add(s); return () => subs.delete(s); } };
  state = init(set, get, api);
  return api;
}

function world(E, load, SRC, w) {
  w.exit = null; w.out = []; w.files = {}; w.shown = [];
  const base = helper.stubs(E, w);
  const api = Object.assign((l) => l(require('path').resolve(SRC, HELPER)), { load: true });
  const stubs = {
    ...base, './generated': { ...base['./generated'] },
    '@rtbot-dev/rtbot': api,
    'zustand/vanilla': { createStore: zustand }, immer: { produce: immer },
    papaparse: { __esModule: true, default: { parse: (text, o) => (w.badCsv ? o.error(new Error('bad csv')) : o.complete({ data: w.csv })) } },
    fs: {
      readFileSync: (f) => { if (f === 'program') return w.program; if (f === 'data') return 'csv'; throw new Error('ENOENT ' + f); },
      writeFileSync: (f, t) => { w.files[f] = t; },
    },
    '../tui': { tui: (p, r) => w.shown.push([p, r]) },
    console: new Proxy({}, { get: (_, k) => (...a) => { w.out.push([k, ...a]); } }),
    process: { exit: (c) => { w.exit = c; const x = new Error('exit ' + c); x.exit = true; throw x; } },
  };
  return load(stubs);
}
class Command {
  constructor() { for (const k of ['command', 'description', 'argument', 'option']) this[k] = () => this; }
  action(f) { this.f = f; return this; }
}

// one run of the command; what it was given and what it is expected to send
async function command(E, load, SRC, rows, opts) {
  const w = { csv: [], ports: ['i1'] };
  w.script = opts.script;
  const l = world(E, load, SRC, w);
  const { registerDebug } = l(SRC + '/commands/debug.ts');
  w.program = '{"title":"T","operators":[{"id":"in","type":"Input"}],"connections":[],"entryOperator":"in","apiVersion":"v1"}';
  w.refuse = false;
  const st = opts.st === undefined ? '1' : E.text(opts.st), sv = opts.sv === undefined ? '1' : E.text(opts.sv);
  const want = [];
  for (const r of rows) {
    w.csv.push(r.cells);
    if (r.t === undefined || r.v === undefined) continue;
    want.push([E.round(opts.st === undefined ? r.t : E.op('*', opts.st, r.t)), opts.sv === undefined ? r.v : E.op('*', opts.sv, r.v)]);
  }
  const c = new Command();
  registerDebug(c);
  let err = null;
  try { await c.f('program', opts.noData ? undefined : 'data', { output: opts.output ? 'result' : undefined, verbose: !!opts.verbose, interactive: !!opts.interactive, scaleTimeFactor: st, scaleValueFactor: sv }); }
  catch (x) { err = x; if (!x.exit) throw x; }
  return { w, want, err };
}
function expected(E, w, want, script) {
  return want.map(([time, value], i) => {
    const out = {}, n = script[i] ?? 1;
    if (n) out.in = { o1: [{ time, value }] };
    if (n > 1) out.out = { o1: [{ time, value }, { time: E.op('+', time, 1), value: E.op('*', value, 2) }] };
    if (n > 2) out.out.o2 = [{ time, value: E.op('-', value, 1) }];
    return { in: { i1: [{ time, value }] }, out };
  });
}
function verify(E, r, script, opts) {
  const { w, want } = r;
  E.check(w.exit === null, 'the command ends normally');
  E.same(w.log.filter((l) => l[0] === 'add').map((l) => l.slice(2)), want.map(([t, v]) => ['i1', t, v]), 'every row is sent once, in order, scaled');
  const res = expected(E, w, want, script);
  if (opts.interactive) {
    E.check(w.shown.length === 1, 'the screen is shown');
    E.same(w.shown[0][1], res, 'what is shown');
  } else if (opts.output) E.same(E.J.parse(w.files.result), res, 'what is written');
  else {
    const texts = w.out.filter((l) => l[0] === 'log').map((l) => l[1]);
    E.same(E.J.parse(texts[texts.length - 1]), res, 'what is printed');
  }
}
const cell = (E, bad) => {
  // not a number, a whole number, any number
  const k = bad ? E.choice('cell', 3) : 1;
  if (k === 0) return [E.choice('text', 2) ? '' : 'time', undefined];
  const v = k === 1 ? E.real('number') : E.int('number');
  return [E.text(v), v];
};
const row = (E, bad) => { const [a, t] = cell(E, bad), [b, v] = cell(E, bad); return { cells: [a, b], t, v }; };

const entries = {
  async rows(E, load, SRC) {
    const rs = [row(E, true), row(E, true)], script = [E.choice('reply', 4), E.choice('reply', 4)];
    verify(E, await command(E, load, SRC, rs, { script: [...script] }), script, {});
    E.cover('ran');
  },
  async scaled(E, load, SRC) {
    const rs = [row(E, false), row(E, false)], script = [1, 2];
    const o = { script: [...script], st: E.int('st'), sv: E.real('sv'), output: E.bool('output'), verbose: E.bool('verbose'), interactive: E.bool('interactive') };
    verify(E, await command(E, load, SRC, rs, o), script, o);
    E.cover('ran');
  },
  async short(E, load, SRC) {
    // empty and short lines, as at the end of most files
    const rs = [row(E, false), { cells: [''] }, { cells: [] }, row(E, false), { cells: ['7'] }], o = { script: [1, 1], verbose: E.bool('verbose') };
    verify(E, await command(E, load, SRC, rs, o), [1, 1], o);
    E.cover('ran');
  },
  async long(E, load, SRC) {
    const rs = [], script = [];
    for (let i = 0; i < 45; i++) { rs.push(i % 22 ? { cells: [`${i}`, `${i / 2}`], t: i, v: i / 2 } : row(E, false)); script.push(i % 4); }
    const o = { script: [...script], verbose: E.bool('verbose'), output: E.bool('output'), interactive: E.bool('interactive') };
    verify(E, await command(E, load, SRC, rs, o), script, o);
    E.cover('ran');
  },
  // the screen: every position reached by steps forward and backward, any selection of operators
  async screen(E, load, SRC) { await screen(E, load, SRC, 2, 3); },
  async screen_more(E, load, SRC) { await screen(E, load, SRC, 3, 3); },
  // ids with the character that separates id and port in the column heads
  async screen_ids(E, load, SRC) { const [a, b] = [['a:b', 'c:o1'], [':', 'b'], ['', 'a:'], ['b:o1', 'b']][E.choice('ids', 4)]; await screen(E, load, SRC, 2, 2, a, b, ['Output', 'Pipeline', 'Constant'][E.choice('type', 3)]); },
  async screen_long(E, load, SRC) { await screen(E, load, SRC, 14, 3); },
};

async function screen(E, load, SRC, n, steps, A = 'a', B = 'b', TYPE = 'Input') {
  const w = {};
  const l = world(E, load, SRC, w);
  const { debuggerStore: store } = l(SRC + '/tui/store.ts');
  const result = [], script = [];
  const m = (i) => ({ time: E.int('time'), value: E.real('value') });
  for (let i = 0; i < n; i++) {
    const k = n <= 3 ? E.choice('out', 5) : i % 5, out = {};
    if (k) out[A] = { o1: [m(i)] };
    if (k === 2) out[B] = { o1: [m(i), m(i)] };
    if (k === 3) out[B] = { o2: [m(i)] };
    if (k === 4) out[B] = { o1: [m(i)], o2: [m(i)] };
    script.push(out);
    result.push({ in: { i1: [{ time: i, value: i }] }, out });
  }
  const ops = [{ id: A, type: TYPE }, { id: B, type: 'Demultiplexer', numPorts: 2 }];
  const seen = [];
  store.subscribe((s) => seen.push(s.columns));
  store.getState().init({ operators: ops }, result);
  E.same(store.getState().operators, [{ id: A, type: TYPE, selected: true, ports: ['o1'] }, { id: B, type: 'Demultiplexer', selected: true, ports: ['o1', 'o2'] }], 'operators');
  let at = 0;
  const sel = { a: true, b: true };
  const back = E.choice('start', 3);
  if (back) { const far = back === 1 ? n + 3 : n; for (let i = 0; i < far; i++) store.getState().forward(); at = n; }
  for (let s = 0; s < steps; s++) {
    const op = E.choice('step', 4);
    if (op === 0) { store.getState().forward(); at = Math.min(at + 1, n); }
    if (op === 1) { store.getState().backward(); at = Math.max(at - 1, 0); }
    if (op === 2) { sel.a = !sel.a; store.getState().selectOperator(A, sel.a); }
    if (op === 3) { sel.b = !sel.b; store.getState().selectOperator(B, sel.b); }
  }
  const heads = ['iter', ...(sel.a ? [A] : []), ...(sel.b ? [`${B}:o1`, `${B}:o2`] : [])], want = [heads];
  const text = (ms) => (ms ? E.cat(...ms.flatMap(({ time, value }, i) => [i ? ', ' : '', '(', time, ', ', E.op('/', E.round(E.op('*', value, 100)), 100), ')'])) : '-');
  if (at > 0) for (let i = at - 1; i < Math.min(at + 10, n); i++) {
    const o = script[i];
    want.push([`${i}`, ...(sel.a ? [text(o[A] && o[A].o1)] : []), ...(sel.b ? [text(o[B] && o[B].o1), text(o[B] && o[B].o2)] : [])]);
  }
  E.check(store.getState().iteration === at, 'position');
  E.same(store.getState().columns, want, 'table');
  E.cover('shown');
}

exports.ENTRIES = Object.keys(entries);
exports.run = (entry, E, load, SRC) => entries[entry](E, load, SRC);
