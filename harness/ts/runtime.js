// Symbolic values and the run-time that instrumented code calls. Every symbolic value carries the term and its value in the current run;
// branches on symbolic conditions are recorded, so that the driver can ask z3 for inputs that take the other side.
class Unsupported extends Error {}
class Sym {
  constructor(sort, term, val) { this.sort = sort; this.term = term; this.val = val; }
  [Symbol.toPrimitive]() { R.cur.unsupported('native use of a symbolic ' + this.sort); }
  toJSON() { R.cur.tokens.push(this); return '\u0001' + (R.cur.tokens.length - 1) + '\u0001'; }
}
const R = { cur: null };
// anything else one could ask of a number or text is answered for the value of this run
Object.setPrototypeOf(Sym.prototype, new Proxy({}, {
  get(_, k, v) {
    if (typeof k === 'symbol' || ['num', 'then', 'load', 'toString', 'valueOf', 'constructor'].includes(k)) return undefined;
    if (k === 'length') return v.sort === 'String' ? new Sym('Real', `(to_real (str.len ${v.term}))`, v.val.length) : undefined;
    const r = R.cur.pin(v)[k];
    return typeof r === 'function' ? r.bind(v.val) : r;
  },
}));
const isS = (v) => v instanceof Sym;
const lit = (v) => {
  if (isS(v)) return v.term;
  if (typeof v === 'number') {
    if (!Number.isFinite(v)) R.cur.unsupported('arithmetic with ' + v);
    return Number.isInteger(v) ? intLit(v) : realLit(v);
  }
  if (typeof v === 'string') return strLit(v);
  if (typeof v === 'boolean') return String(v);
  R.cur.unsupported('term of ' + typeof v);
};
const intLit = (v) => (v < 0 || Object.is(v, -0) ? `(- ${BigInt(-v)})` : String(BigInt(v)));
const realLit = (v) => {
  // exact binary fraction
  let d = 1n, x = v;
  while (!Number.isInteger(x)) { x *= 2; d *= 2n; }
  const n = BigInt(x);
  return n < 0n ? `(- (/ ${-n}.0 ${d}.0))` : `(/ ${n}.0 ${d}.0)`;
};
const strLit = (s) => '"' + [...s].map((c) => (c === '"' ? '""' : c.charCodeAt(0) < 32 || c.charCodeAt(0) > 126 || c === '\\' ? `\\u{${c.codePointAt(0).toString(16)}}` : c)).join('') + '"';
const sortOf = (v) => (isS(v) ? v.sort : typeof v === 'number' ? 'Real' : typeof v === 'string' ? 'String' : typeof v === 'boolean' ? 'Bool' : typeof v);
const real = (v) => (isS(v) ? v.term : typeof v === 'number' && Number.isInteger(v) ? (v < 0 ? `(- ${BigInt(-v)}.0)` : `${BigInt(v)}.0`) : lit(v));
const conc = (v) => (isS(v) ? v.val : v);
const native = { '+': (a, b) => a + b, '-': (a, b) => a - b, '*': (a, b) => a * b, '/': (a, b) => a / b, '%': (a, b) => a % b, '**': (a, b) => a ** b, '<': (a, b) => a < b, '<=': (a, b) => a <= b, '>': (a, b) => a > b, '>=': (a, b) => a >= b,
  '==': (a, b) => a == b, '===': (a, b) => a === b, '!=': (a, b) => a != b, '!==': (a, b) => a !== b, '|': (a, b) => a | b, '&': (a, b) => a & b, '^': (a, b) => a ^ b, '<<': (a, b) => a << b, '>>': (a, b) => a >> b, '>>>': (a, b) => a >>> b, in: (a, b) => a in b };
const EQ = ['==', '===', '!=', '!=='], CMP = ['<', '<=', '>', '>='];

const $ = {
  truth(v) {
    if (!isS(v)) return !!v;
    if (v.sort === 'Bool') return R.cur.branch(v);
    if (v.sort === 'Real') return R.cur.branch(new Sym('Bool', `(not (= ${v.term} 0.0))`, v.val !== 0));
    return R.cur.branch(new Sym('Bool', `(not (= ${v.term} ""))`, v.val !== ''));
  },
  not(v) {
    if (!isS(v)) return !v;
    if (v.sort === 'Bool') return new Sym('Bool', `(not ${v.term})`, !v.val);
    return !$.truth(v);
  },
  op(o, a, b) {
    if (o === 'in') return native.in($.key(b, a), b);
    if (!isS(a) && !isS(b)) return native[o](a, b);
    if (['-', '*', '/', '%', '**'].includes(o)) { if (isS(a) && a.num) a = a.num; if (isS(b) && b.num) b = b.num; if (typeof a === 'string') a = +a; if (typeof b === 'string') b = +b; }
    const val = native[o](conc(a), conc(b));
    const sa = sortOf(a), sb = sortOf(b);
    if (EQ.includes(o)) {
      const neg = o[0] === '!';
      if (sa !== sb || !['Real', 'String', 'Bool'].includes(sa)) {
        if (o.length === 2 && ['Real', 'String', 'Bool'].includes(sa) && ['Real', 'String', 'Bool'].includes(sb)) R.cur.unsupported('loose comparison of ' + sa + ' and ' + sb);
        return neg;
      }
      if (sa === 'Real' && [a, b].some((x) => !isS(x) && !Number.isFinite(x))) return neg;
      const t = sa === 'Real' ? `(= ${real(a)} ${real(b)})` : `(= ${lit(a)} ${lit(b)})`;
      return new Sym('Bool', neg ? `(not ${t})` : t, val);
    }
    if (CMP.includes(o)) {
      if (sa === 'Real' && sb === 'Real') {
        const inf = [a, b].find((x) => !isS(x) && !Number.isFinite(x));
        if (inf !== undefined) return val;
        return new Sym('Bool', `(${o} ${real(a)} ${real(b)})`, val);
      }
      if (sa === 'Real' || sb === 'Real') { if (typeof conc(a) === 'undefined' || typeof conc(b) === 'undefined') return false; }
      if (sa === 'String' && sb === 'String') {
        const lt = (x, y) => `(str.< ${lit(x)} ${lit(y)})`, le = (x, y) => `(str.<= ${lit(x)} ${lit(y)})`;
        return new Sym('Bool', o === '<' ? lt(a, b) : o === '<=' ? le(a, b) : o === '>' ? lt(b, a) : le(b, a), val);
      }
      R.cur.unsupported('comparison of ' + sa + ' and ' + sb);
    }
    if (o === '+' && (sa === 'String' || sb === 'String')) return $.cat('', a, '', b, '');
    if (sa === 'Real' && sb === 'Real') {
      if ([a, b].some((x) => !isS(x) && !Number.isFinite(x))) return val;
      if (o === '+' || o === '-' || o === '*') return new Sym('Real', `(${o} ${real(a)} ${real(b)})`, val);
      if (o === '/' && !isS(b) && b !== 0) return new Sym('Real', `(/ ${real(a)} ${real(b)})`, val);
    }
    // anything else is looked at through the values of this run
    return native[o](R.cur.pin(a), R.cur.pin(b));
  },
  num(v) { return isS(v) ? (v.sort === 'Real' ? v : v.num ? v.num : +R.cur.pin(v)) : +v; },
  int(how, v) {
    const fl = (t) => `(to_real (to_int ${t}))`, up = (t) => `(- ${fl(`(- ${t})`)})`;
    const t = { floor: fl(v.term), ceil: up(v.term), round: fl(`(+ ${v.term} 0.5)`), trunc: `(ite (>= ${v.term} 0.0) ${fl(v.term)} ${up(v.term)})` }[how];
    return new Sym('Real', t, Math[how](v.val) + 0);
  },
  type(v) { return isS(v) ? { Real: 'number', String: 'string', Bool: 'boolean' }[v.sort] : typeof v; },
  cat(...parts) {
    if (!parts.some(isS)) return parts.map((p) => `${p}`).join('');
    const ps = parts.map((p) => (isS(p) && p.sort === 'Real' ? $.text(p) : isS(p) && p.sort !== 'String' ? `${R.cur.pin(p)}` : isS(p) ? p : `${p}`)).filter((p) => p !== '');
    if (!ps.some(isS)) return ps.join('');
    if (ps.length === 1) return ps[0];
    return new Sym('String', `(str.++ ${ps.map(lit).join(' ')})`, ps.map(conc).join(''));
  },
  // the text of a symbolic number is an unknown function of it; reading it back gives the number
  text(v) { const t = new Sym('String', `(numtext ${v.term})`, `${v.val}`); t.num = v; return t; },
  // a property key: known keys of the object are compared one by one
  key(o, k) {
    if (!isS(k)) return k;
    if (k.sort === 'String' && o && typeof o === 'object') for (const x of Object.keys(o)) if ($.truth($.op('===', k, x))) return x;
    return R.cur.pin(k);
  },
  // the text of an error: its value in this run
  show(v) { return isS(v) ? v.val : v; },
  key0(k) { return isS(k) ? R.cur.pin(k) : k; },
  builtin(name, args) {
    const v = args[0];
    if (!args.some(isS)) return globalThis[name](...args);
    if (name === 'Boolean') return $.truth(v);
    if (isS(v) && v.num && ['Number', 'parseFloat'].includes(name)) return v.num;
    if (isS(v) && v.num && name === 'parseInt' && (args.length === 1 || args[1] === 10)) return $.int('trunc', v.num);
    if (isS(v) && v.num && name === 'isNaN') return false;
    if (!isS(v)) return globalThis[name](...args.map((x) => R.cur.pin(x)));
    if (v.sort === 'Real') {
      if (name === 'Number' || name === 'parseFloat') return v;
      if (name === 'isNaN') return false;
      if (name === 'isFinite') return true;
    }
    if (name === 'String') return v.sort === 'Real' ? $.text(v) : v;
    return globalThis[name](...args.map((x) => R.cur.pin(x)));
  },
  call(o, name, args) {
    if (isS(o)) {
      if (name === 'toString' && o.sort === 'String') return o;
      if (name === 'valueOf') return o;
      if (o.sort === 'Real' && name === 'toString' && !args.length) return $.text(o);
      if (name === 'concat') return $.cat(o, ...args.flatMap((a) => ['', a]));
      if (o.sort === 'String' && ['startsWith', 'endsWith', 'includes'].includes(name) && args.length === 1) {
        const a = args[0], t = { startsWith: `(str.prefixof ${lit(a)} ${o.term})`, endsWith: `(str.suffixof ${lit(a)} ${o.term})`, includes: `(str.contains ${o.term} ${lit(a)})` }[name];
        return new Sym('Bool', t, o.val[name](conc(a)));
      }
      return R.cur.pin(o)[name](...args.map((x) => (isS(x) ? R.cur.pin(x) : x)));
    }
    if (Array.isArray(o)) {
      const t = (fn) => (typeof fn === 'function' ? (...a) => $.truth(fn(...a)) : fn);
      if (['filter', 'find', 'findIndex', 'findLast', 'findLastIndex', 'some', 'every'].includes(name)) return o[name](t(args[0]), args[1]);
      if (name === 'includes') { for (let i = args[1] || 0; i < o.length; i++) if ($.truth($.op('===', o[i], args[0]))) return true; return false; }
      if (name === 'indexOf') { for (let i = args[1] || 0; i < o.length; i++) if ($.truth($.op('===', o[i], args[0]))) return i; return -1; }
      if (name === 'lastIndexOf') { for (let i = o.length - 1; i >= 0; i--) if ($.truth($.op('===', o[i], args[0]))) return i; return -1; }
      if (name === 'sort' && args[0]) { const g = args[0]; return o.sort((a, b) => { const r = g(a, b); return isS(r) ? ($.truth($.op('<', r, 0)) ? -1 : $.truth($.op('===', r, 0)) ? 0 : 1) : r; }); }
      if (name === 'sort' && o.some(isS)) return o.sort((a, b) => ($.truth($.op('<', a, b)) ? -1 : $.truth($.op('<', b, a)) ? 1 : 0));
      if (name === 'join' && o.some(isS)) { const sep = args.length ? args[0] : ','; return $.cat('', ...o.flatMap((x, i) => (i ? [sep, x == null ? '' : x] : [x == null ? '' : x]))); }
      return o[name](...args);
    }
    if (o instanceof Map || o instanceof Set) {
      if (['get', 'set', 'has', 'delete', 'add'].includes(name)) {
        let k = args[0];
        if (isS(k) || [...o.keys()].some(isS)) for (const x of o.keys()) if ($.truth($.op('===', x, k))) { k = x; break; }
        return o[name](k, ...args.slice(1));
      }
      return o[name](...args);
    }
    if (o === JSON) {
      if (name === 'parse') return JSON.parse(args[0], (k, v) => (typeof v === 'string' && v[0] === '\u0001' ? R.cur.tokens[+v.slice(1, -1)] : v));
      return o[name](...args);
    }
    if (o === Number && args.length === 1 && isS(args[0])) {
      if (name === 'isNaN') return false;
      if (name === 'isFinite') return args[0].sort === 'Real';
      if (name === 'parseFloat') return $.builtin(name, args);
      return o[name](R.cur.pin(args[0]));
    }
    if (o === Math && args.some(isS)) {
      if ((name === 'max' || name === 'min') && args.length === 2) return $.truth($.op(name === 'max' ? '>=' : '<=', args[0], args[1])) ? args[0] : args[1];
      if (name === 'abs') return $.truth($.op('<', args[0], 0)) ? $.op('-', 0, args[0]) : args[0];
      if (['floor', 'ceil', 'round', 'trunc'].includes(name) && args[0].sort === 'Real') return $.int(name, args[0]);
      return o[name](...args.map((x) => R.cur.pin(x)));
    }
    if (o === Object) {
      if (name === 'fromEntries') return Object.fromEntries([...args[0]].map(([k, v]) => [$.key0(k), v]));
      if (name === 'is' && args.some(isS)) return $.op('===', args[0], args[1]);
      return o[name](...args);
    }
    if (name === 'hasOwnProperty' && isS(args[0])) return Object.prototype.hasOwnProperty.call(o, $.key(o, args[0]));
    return o[name](...args);
  },
};

// one run: `model` gives the values of the inputs (defaults where it is silent); `bound` branches are expected to go as `path` says
class Run {
  constructor(model, expect) { this.model = model; this.expect = expect || []; this.inputs = []; this.branches = []; this.checks = []; this.tokens = []; this.covers = new Set(); this.notes = []; this.steps = 0; this.names = {}; }
  unsupported(what) { this.notes.push(what); throw new Unsupported(what); }
  unique(name) {
    const n = this.names[name] ? `${name}!${this.names[name]}` : name;
    this.names[name] = (this.names[name] || 0) + 1;
    return n;
  }
  input(name, sort, dflt, constraint) {
    const n = this.unique(name);
    const val = n in this.model ? this.model[n] : dflt;
    const s = new Sym(sort === 'Int' ? 'Real' : sort, sort === 'Int' ? `(to_real |${n}|)` : `|${n}|`, val);
    this.inputs.push({ name: n, sort, val, constraint: constraint ? constraint(`|${n}|`) : null });
    return s;
  }
  branch(c) {
    if (c.term === 'true' || c.term === 'false') return c.val;
    this.branches.push({ term: c.term, taken: c.val });
    if (this.branches.length > 3000) this.unsupported('too many branches on one path');
    return c.val;
  }
  // from here on the value is the one of this run; the other values are other paths
  pin(v) {
    if (!isS(v)) return v;
    this.branch(new Sym('Bool', v.sort === 'Real' ? `(= ${v.term} ${real(v.val)})` : `(= ${v.term} ${lit(v.val)})`, true));
    return v.val;
  }
}
module.exports = { $, R, Sym, Run, isS, Unsupported, lit, real };
