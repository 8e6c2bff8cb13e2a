// W02 the TypeScript helper: what is claimed, as checks over symbolic inputs. The modules of the repository are loaded as they are now; the WebAssembly
// module, class-transformer, nanoid and the generated schemas are stand-ins.
const clone = (o) => (Array.isArray(o) ? o.map(clone) : o && typeof o === 'object' && Object.getPrototypeOf(o) === Object.prototype ? Object.fromEntries(Object.entries(o).map(([k, v]) => [k, clone(v)])) : o);

// plays the module: every message is answered as often as the script says for its evaluation
function fakeWasm(E, w) {
  const { $ } = require('./runtime');
  const J = E.plain ? JSON : { stringify: (...a) => $.call(JSON, 'stringify', a), parse: (...a) => $.call(JSON, 'parse', a) };
  Object.assign(w, { log: [], live: {}, buffer: {}, ports: w.ports || ['i1', 'i2'], script: w.script || [], calls: 0, refuse: false });
  const need = (id) => { if (!(id in w.live)) throw new Error('Program was not found'); };
  const answer = (id, debug) => {
    need(id);
    const n = w.script[w.calls++] ?? 1, r = {};
    w.log.push(['process', id, debug]);
    for (const [port, time, value] of w.buffer[id] || []) {
      const put = (op, p, m) => { r[op] = r[op] || {}; (r[op][p] = r[op][p] || []).push(m); };
      if (n) put('in', 'o' + port.slice(1), { time, value });
      if (n > 1) { put('out', 'o1', { time, value }); put('out', 'o1', { time: E.op('+', time, 1), value: E.op('*', value, 2) }); }
      if (n > 2) put('out', 'o2', { time, value: E.op('-', value, 1) });
      for (let k = 4; k < n; k++) put('out', 'o2', { time: E.op('+', time, k), value });
    }
    w.buffer[id] = [];
    w.answers = w.answers || [];
    w.answers.push(clone(r));
    return J.stringify(r);
  };
  return {
    createProgram(id, text) {
      w.log.push(['create', id, J.parse(text)]);
      if (w.refuse) return J.stringify({ valid: false, error: 'refused by the library' });
      w.live[id] = true;
      return '';
    },
    deleteProgram(id) { w.log.push(['delete', id]); const r = id in w.live; delete w.live[id]; return r ? '1' : '0'; },
    addToMessageBuffer(id, port, time, value) { need(id); w.log.push(['add', id, port, time, value]); (w.buffer[id] = w.buffer[id] || []).push([port, time, value]); return '1'; },
    processMessageBuffer: (id) => answer(id, false),
    processMessageBufferDebug: (id) => answer(id, true),
    getProgramEntryPorts(id) { need(id); return J.stringify(w.ports); },
    getProgramEntryOperatorId(id) { need(id); return 'in'; },
    validate: () => J.stringify({ valid: true }), validateOperator: () => J.stringify({ valid: true }),
  };
}

function stubs(E, w) {
  const excluded = new Map();
  const plainOf = (o) => {
    if (Array.isArray(o)) return o.map(plainOf);
    if (!o || typeof o !== 'object' || o instanceof require('./runtime').Sym || o instanceof Date) return o;
    const skip = new Set();
    for (let p = Object.getPrototypeOf(o); p; p = Object.getPrototypeOf(p)) for (const k of excluded.get(p) || []) skip.add(k);
    return Object.fromEntries(Object.keys(o).filter((k) => !skip.has(k)).map((k) => [k, plainOf(o[k])]));
  };
  const api = fakeWasm(E, w);
  let ids = 0;
  const schema = { parse(o) { if (w.invalid) throw new Error('schema refuses'); return o; }, safeParse: (o) => (w.invalid ? { success: false, error: new Error('schema refuses') } : { success: true, data: o }) };
  return {
    'class-transformer': {
      Exclude: () => (proto, key) => { if (!excluded.has(proto)) excluded.set(proto, []); excluded.get(proto).push(key); },
      Expose: () => () => {}, Type: () => () => {}, Transform: () => () => {},
      instanceToPlain: plainOf,
      plainToInstance: (cls, o) => Object.assign(new cls(), clone(o)),
    },
    './generated': { programSchema: schema },
    nanoid: { nanoid: (n) => 'p' + 'x'.repeat(Math.max(0, (n || 10) - 2)) + ids++ },
    '@rtbot-dev/wasm': { __esModule: true, default: async () => api },
  };
}

function world(E, load, SRC, init = {}) {
  const w = { ...init };
  const l = load(stubs(E, w));
  const M = { ...l(SRC + '/program.ts'), ...l(SRC + '/api.ts') };
  class Op extends M.Operator { constructor(id, type, value) { super(id); this.type = type; if (value !== undefined) this.value = value; } }
  return { M, w, Op };
}
const four = (c) => ({ from: c.from, to: c.to, fromPort: c.fromPort, toPort: c.toPort });
const IDS = ['a', 'ba', 'ab', 'c'], OUT = ['o1', 'o2', 'o12'], IN = ['i1', 'i2', 'c1'];

const entries = {
  // connections: any three of them, then any one deleted
  async connections(E, load, SRC) { await connections(E, load, SRC, 2); },
  async connections_three(E, load, SRC) { await connections(E, load, SRC, 3); },
  async default_ports(E, load, SRC) {
    const { M, Op } = world(E, load, SRC);
    const p = new M.Program('a'), a = new Op('a', 'Input'), b = new Op('b', 'Count'), fp = E.choice('fromPort', 3), tp = E.choice('toPort', 3);
    p.addOperator(a); p.addOperator(b);
    p.addConnection(a, b, ...(fp || tp ? [fp ? OUT[fp] : undefined] : []), ...(tp ? [IN[tp]] : []));
    E.same(p.connections.map(four), [{ from: 'a', to: 'b', fromPort: fp ? OUT[fp] : 'o1', toPort: tp ? IN[tp] : 'i1' }], 'ports default to o1 and i1');
    p.addConnection(a, b, 'o7', 'i7');
    p.deleteConnection('a', 'b', ...(fp || tp ? [fp ? OUT[fp] : undefined] : []), ...(tp ? [IN[tp]] : []));
    E.same(p.connections.map(four), [{ from: 'a', to: 'b', fromPort: 'o7', toPort: 'i7' }], 'the named connection is deleted');
    E.cover('default');
  },
  async delete_operator(E, load, SRC) {
    const { M, Op } = world(E, load, SRC);
    const p = new M.Program('a'), ops = ['a', 'ba', 'ab'].map((i) => new Op(i, 'Identity')), cons = [];
    for (const o of ops) p.addOperator(o);
    for (let k = 0; k < 3; k++) {
      const f = E.choice('from', 3), t = E.choice('to', 3);
      p.addConnection(ops[f], ops[t], 'o' + (k + 1), 'i1');
      cons.push({ from: ops[f].id, to: ops[t].id, fromPort: 'o' + (k + 1), toPort: 'i1' });
    }
    const x = E.str('deleted', IDS);
    p.deleteOperator(x);
    E.same(p.operators.map((o) => o.id), ['a', 'ba', 'ab'].filter((i) => !E.truth(E.eq(i, x))), 'operators');
    E.same(p.connections.map(four), cons.filter((c) => !E.truth(E.eq(c.from, x)) && !E.truth(E.eq(c.to, x))), 'the connections of the deleted operator go, all others stay');
    E.cover('deleted');
  },
  // any texts as names, from the empty one to ones containing separators
  async any_names(E, load, SRC) {
    const { M, Op } = world(E, load, SRC);
    const p = new M.Program('a'), ids = [], ops = [];
    for (let k = 0; k < 4; k++) {
      const id = E.name('id');
      if (ids.some((o) => E.truth(E.eq(o, id)))) return E.cover('same');
      ids.push(id);
      ops.push(new Op(id, 'Identity'));
      p.addOperator(ops[k]);
    }
    const cs = [[0, 1, E.name('port'), E.name('port')], [2, 3, E.name('port'), E.name('port')]].map(([f, t, fp, tp]) => { p.addConnection(ops[f], ops[t], fp, tp); return { from: ids[f], to: ids[t], fromPort: fp, toPort: tp }; });
    E.same(p.connections.map(four), cs, 'connections');
    E.same(p.operators.map((o) => o.id), ids, 'operators');
    if (E.bool('operator')) {
      const x = E.choice('deleted', 4);
      p.deleteOperator(ids[x]);
      E.same(p.operators.map((o) => o.id), ids.filter((_, k) => k !== x), 'operators after one was deleted');
      E.same(p.connections.map(four), [cs[x < 2 ? 1 : 0]], 'connections after an operator was deleted');
      E.cover('deleted');
    } else {
      const c = cs[E.choice('which', 2)], d = { ...c };
      const f = ['from', 'to', 'fromPort', 'toPort'][E.choice('field', 4)];
      d[f] = f[f.length - 1] === 't' ? E.name('named') : ids[E.choice('id', 4)];
      p.deleteConnection(d.from, d.to, d.fromPort, d.toPort);
      E.same(p.connections.map(four), cs.filter((e) => !['from', 'to', 'fromPort', 'toPort'].every((g) => E.truth(E.eq(e[g], d[g])))), 'connections after one was deleted');
      E.cover('disconnected');
    }
  },
  async same_ports(E, load, SRC) {
    const { M, Op } = world(E, load, SRC);
    const p = new M.Program('a'), a = new Op('a', 'Identity'), b = new Op('b', 'Identity'), cs = [];
    p.addOperator(a); p.addOperator(b);
    for (let k = 0; k < 2; k++) {
      const swap = E.bool('swap'), c = { from: swap ? 'b' : 'a', to: swap ? 'a' : 'b', fromPort: E.name('port'), toPort: E.name('port') };
      const err = await E.raises(() => p.addConnection(swap ? b : a, swap ? a : b, c.fromPort, c.toPort));
      const dup = cs.some((d) => ['from', 'to', 'fromPort', 'toPort'].every((f) => E.truth(E.eq(c[f], d[f]))));
      E.check((err !== null) === dup, 'a connection is refused exactly when it exists already');
      if (!dup) cs.push(c);
      E.same(p.connections.map(four), cs, 'connections');
      E.cover(dup ? 'refused' : 'added');
    }
  },
  // what is sent to the library is what was given
  async described(E, load, SRC) {
    const { M, w, Op } = world(E, load, SRC, {});
    const o = {}, v = E.real('value');
    for (const f of ['title', 'description', 'date', 'author', 'license']) if (E.bool(f)) o[f] = f.toUpperCase();
    const p = new M.Program('a', o.title, o.description, o.date, o.author, o.license);
    const a = new Op('a', 'Input'), b = new Op('b', 'Add', v), text = E.bool('text');
    p.addOperator(a); p.addOperator(b); p.addConnection(a, b, 'o1', 'c2');
    const want = { ...o, entryOperator: 'a', apiVersion: 'v1', operators: [{ id: 'a', type: 'Input' }, { id: 'b', type: 'Add', value: v }], connections: [{ from: 'a', to: 'b', fromPort: 'o1', toPort: 'c2' }] };
    const J = E.plain ? JSON : { stringify: (...x) => require('./runtime').$.call(JSON, 'stringify', x), parse: (...x) => require('./runtime').$.call(JSON, 'parse', x) };
    const written = J.parse(J.stringify(p));
    for (const f of ['operators', 'connections', 'entryOperator', 'title', 'description', 'date', 'author', 'license', 'apiVersion']) E.same(written[f], want[f], 'written ' + f);
    await new M.RtBotRun(text ? J.stringify(p.toPlain()) : p, [], M.RtBotRunOutputFormat.COLLAPSED).run();
    const sent = w.log[0][2];
    for (const f of ['operators', 'connections', 'entryOperator', 'title', 'description', 'date', 'author', 'license', 'apiVersion']) E.same(sent[f], want[f], f);
    E.same(w.log.map((l) => l[0]), ['create', 'delete'], 'calls');
    E.same(w.live, {}, 'the program is released');
    E.cover('described');
  },
  async run_collapsed(E, load, SRC) { await runs(E, load, SRC, true, 3, 1); },
  async run_collapsed_two(E, load, SRC) { await runs(E, load, SRC, true, 2, 2); },
  async run_extended(E, load, SRC) { await runs(E, load, SRC, false, 3, 1); },
  async run_extended_two(E, load, SRC) { await runs(E, load, SRC, false, 2, 2); },
  async run_long(E, load, SRC) { await runs(E, load, SRC, E.bool('collapsed'), 45, 1, true); },
  async refused(E, load, SRC) {
    const { M, w } = world(E, load, SRC, {});
    w.refuse = true;
    const p = new M.Program('a'), start = E.bool('start');
    const err = await E.raises(() => (start ? p.start() : new M.RtBotRun(p, [[E.int('t'), E.real('v')]], M.RtBotRunOutputFormat.COLLAPSED).run()));
    E.check(err !== null && String(err.message).includes('refused by the library'), 'the reason given by the library is reported');
    E.check(w.log.every((l) => l[0] !== 'add' && l[0] !== 'process'), 'a refused program is not run');
    E.cover('refused');
  },
  async invalid(E, load, SRC) {
    const { M, w } = world(E, load, SRC, {});
    w.invalid = E.bool('invalid');
    const p = new M.Program('a');
    const err = await E.raises(() => p.start());
    E.check((err !== null) === w.invalid, 'a description the schema refuses is not started');
    E.check(w.log.length > 0 === !w.invalid, 'nothing is sent for it');
    E.check((await E.raises(() => p.validate())) !== null === w.invalid, 'validate');
    E.check(p.safeValidate().success === !w.invalid, 'safeValidate');
    E.check((await E.raises(() => M.Program.checkValid('{"operators":[],"connections":[]}'))) !== null === w.invalid, 'checkValid');
    E.cover(w.invalid ? 'invalid' : 'valid');
  },
  // a started program: messages one by one, on a named or the first port, plain or debug
  async started(E, load, SRC) {
    const { M, w } = world(E, load, SRC, { ports: ['i2', 'i1'] });
    const p = new M.Program('a'), other = new M.Program('a'), want = [], answers = [];
    await p.start();
    await other.start();
    E.check(p.programId !== other.programId, 'every program has its own id');
    w.script = [];
    for (let k = 0; k < 3; k++) {
      const t = E.int('time'), v = E.real('value'), port = E.choice('port', 3), debug = E.bool('debug'), on = E.bool('other') ? other : p;
      w.script.push(2);
      const r = await on[debug ? 'processMessageDebug' : 'processMessage'](t, v, port ? ['i1', 'i2'][port - 1] : undefined);
      const name = port ? ['i1', 'i2'][port - 1] : 'i2';
      want.push(['add', on.programId, name, t, v], ['process', on.programId, debug]);
      E.same(r, { in: { ['o' + name.slice(1)]: [{ time: t, value: v }] }, out: { o1: [{ time: t, value: v }, { time: E.op('+', t, 1), value: E.op('*', v, 2) }] } }, 'answer');
    }
    E.same(w.log.slice(2), want, 'calls');
    await p.stop();
    E.same(Object.keys(w.live), [other.programId], 'the program is released');
    E.cover('answered');
  },
  // stopped and started again, with another entry or refused
  async restarted(E, load, SRC) {
    const { M, w, Op } = world(E, load, SRC, { ports: ['i2', 'i1'] });
    const p = new M.Program();
    p.addOperator(new Op('in', 'Input'));
    await p.start();
    const send = async (name) => { const t = E.int('time'), v = E.real('value'); E.same(await p.processMessage(t, v), { in: { ['o' + name.slice(1)]: [{ time: t, value: v }] } }, 'answer'); };
    await send('i2');
    if (E.bool('stopped')) await p.stop();
    w.ports = E.bool('ports') ? ['i1', 'i2', 'i3'] : ['i3'];
    w.refuse = E.bool('refused');
    p.addOperator(new Op('x', 'Count'));
    const err = await E.raises(() => p.start());
    E.check((err !== null) === w.refuse, 'refused exactly when the library refuses it');
    if (w.refuse) E.check(String(err.message).includes('refused by the library'), 'the reason given by the library is reported');
    else { E.same(w.log.filter((l) => l[0] === 'create')[1][2].operators, [{ id: 'in', type: 'Input' }, { id: 'x', type: 'Count' }], 'sent as it is now'); await send(w.ports[0]); E.cover('answered'); }
  },
  // ports whose names have two digits, in the order the program gives
  async run_wide(E, load, SRC) {
    const ports = [];
    for (let i = 12; i > 0; i--) ports.push(`i${i}`);
    const { M, w } = world(E, load, SRC, { ports, script: [1, 0] });
    const row = () => { const r = [E.int('time')]; for (let i = 0; i < 12; i++) r.push(i % 5 ? i / 2 : E.real('value')); return r; };
    const data = [row(), row()], r = new M.RtBotRun(new M.Program('in'), data, M.RtBotRunOutputFormat.COLLAPSED);
    await r.run();
    E.same(w.log.filter((l) => l[0] === 'add').map((l) => l.slice(2)), data.flatMap((d) => ports.map((p, i) => [p, d[0], d[i + 1]])), 'values to the ports in order');
    const want = {};
    ports.forEach((p, i) => { want['in:o' + p.slice(1)] = [[data[0][0]], [data[0][i + 1]]]; });
    E.same(r.getOutputs(), want, 'outputs');
    E.cover('ran');
  },
  // several messages for several ports at once
  async batch(E, load, SRC) {
    const { M, w } = world(E, load, SRC, {});
    const bot = M.RtBot.getInstance();
    await bot.createProgram('x', '{}');
    const ms = {}, want = [], debug = E.bool('debug'), order = E.bool('order') ? ['i2', 'i1'] : ['i1', 'i2'];
    for (const port of order) {
      const n = E.choice('n', 3);
      ms[port] = [];
      for (let k = 0; k < n; k++) { const m = { time: E.int('time'), value: E.real('value') }; ms[port].push(m); want.push(['add', 'x', port, m.time, m.value]); }
    }
    const r = await bot[debug ? 'processDebug' : 'process']('x', ms);
    want.push(['process', 'x', debug]);
    E.same(w.log.slice(1), want, 'calls');
    E.same(r, w.answers[0], 'answer');
    E.cover('answered');
  },
  // calls that overlap: every answer holds what its own messages produced
  async overlapping(E, load, SRC) {
    const { M, w } = world(E, load, SRC, { ports: ['i1'] });
    const p = new M.Program('a'), q = new M.Program('b');
    await p.start();
    await q.start();
    const ms = [];
    for (let k = 0; k < 3; k++) ms.push({ t: E.int('time'), v: E.real('value'), on: E.bool('other') ? q : p, debug: E.bool('debug') });
    const rs = await Promise.all(ms.map((m) => m.on[m.debug ? 'processMessageDebug' : 'processMessage'](m.t, m.v)));
    ms.forEach((m, k) => E.same(rs[k], { in: { o1: [{ time: m.t, value: m.v }] } }, 'answer to an overlapping call'));
    E.cover('answered');
  },
};

async function connections(E, load, SRC, n) {
    const { M, Op } = world(E, load, SRC);
    const p = new M.Program('a'), q = new M.Program('a');
    for (const i of ['a', 'ba', 'ab']) p.addOperator(new Op(i, 'Identity'));
    const want = [];
    for (let k = 0; k < n; k++) {
      const c = { from: E.str('from', IDS), to: E.str('to', IDS), fromPort: E.str('fromPort', OUT), toPort: E.str('toPort', IN) };
      const err = await E.raises(() => p.addConnection({ id: c.from }, { id: c.to }, c.fromPort, c.toPort));
      const known = (s) => ['a', 'ba', 'ab'].some((i) => E.truth(E.eq(s, i)));
      const dup = want.some((d) => ['from', 'to', 'fromPort', 'toPort'].every((f) => E.truth(E.eq(c[f], d[f]))));
      const ok = known(c.from) && known(c.to) && !dup;
      E.check((err === null) === ok, 'a connection is refused exactly when an operator is unknown or it exists already');
      if (ok) want.push(c);
      E.same(p.connections.map(four), want, 'connections');
    }
    if (want.length < n) return E.cover('refused');
    const d = { from: E.str('dfrom', IDS), to: E.str('dto', IDS), fromPort: E.str('dfromPort', OUT), toPort: E.str('dtoPort', IN) };
    p.deleteConnection(d.from, d.to, d.fromPort, d.toPort);
    const rest = want.filter((c) => !['from', 'to', 'fromPort', 'toPort'].every((f) => E.truth(E.eq(c[f], d[f]))));
    E.same(p.connections.map(four), rest, 'connections after one was deleted');
    E.check(p.operators.length === 3, 'operators stay');
    E.check(q.operators.length === 0 && q.connections.length === 0, 'programs share nothing');
    if (rest.length < n) E.cover('deleted'); else E.cover('kept');
}

async function runs(E, load, SRC, collapsed, rows, cols, long) {
  const named = E.bool('ports');
  const { M, w, Op } = world(E, load, SRC, { ports: (named ? ['i2', 'i1'] : ['i1', 'i2']).slice(0, cols) });
  const p = new M.Program('in'), data = [], steps = [];
  p.addOperator(new Op('in', 'Input'));
  w.script = [];
  for (let i = 0; i < rows; i++) {
    const sym = !long || i === 0 || i === rows - 1 || i === 22;
    data.push([sym ? E.int('time') : i * 3, ...Array.from({ length: cols }, () => (sym ? E.real('value') : i / 2))]);
    w.script.push(long ? (i === 22 ? 60 : i % 3) : E.choice('reply', 4));
  }
  const script = [...w.script], given = clone(data);
  const progress = long && E.bool('progress');
  const r = new M.RtBotRun(p, data, collapsed ? M.RtBotRunOutputFormat.COLLAPSED : M.RtBotRunOutputFormat.EXTENDED, progress ? (x) => steps.push(x) : undefined, long && E.bool('verbose'));
  await r.run();
  const want = collapsed ? {} : [], log = [];
  given.forEach(([t, ...vs], i) => {
    const out = {}, put = (op, port, time, value) => { out[op] = out[op] || {}; (out[op][port] = out[op][port] || []).push({ time, value }); };
    vs.forEach((v, j) => {
      const port = w.ports[j];
      log.push(['add', p.programId, port, t, v]);
      if (script[i]) put('in', 'o' + port.slice(1), t, v);
      if (script[i] > 1) { put('out', 'o1', t, v); put('out', 'o1', E.op('+', t, 1), E.op('*', v, 2)); }
      if (script[i] > 2) put('out', 'o2', t, E.op('-', v, 1));
      for (let k = 4; k < script[i]; k++) put('out', 'o2', E.op('+', t, k), v);
    });
    log.push(['process', p.programId, true]);
    if (collapsed) {
      for (const [op, ports] of Object.entries(out)) for (const [port, ms] of Object.entries(ports)) for (const m of ms) {
        const e = (want[`${op}:${port}`] = want[`${op}:${port}`] || [[], []]);
        e[0].push(m.time); e[1].push(m.value);
      }
    } else want.push({ in: Object.fromEntries(vs.map((v, j) => [w.ports[j], [{ time: t, value: v }]])), out });
  });
  E.same(r.getOutputs(), want, 'outputs');
  E.same(w.log.slice(1, -1), log, 'every row is fed to the ports in order and evaluated once');
  E.check(w.log[0][0] === 'create' && w.log[w.log.length - 1][0] === 'delete' && Object.keys(w.live).length === 0, 'the program is created and released');
  E.check(steps.every((x) => x >= 0 && x <= 1), 'progress');
  E.cover('ran');
}

exports.SRC = 'libs/wrappers/javascript/src';
exports.FILES = ['api.ts', 'program.ts'];
exports.stubs = stubs;
exports.ENTRIES = Object.keys(entries);
exports.run = (entry, E, load, SRC) => entries[entry](E, load, SRC);
