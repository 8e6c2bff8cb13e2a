// gen.js REPO TARGET OUT: runs the repository's own generator (tools/generator) on the operator pages, with stand-ins for the packages that are not installed
const fs = require('fs'), path = require('path'), vm = require('vm');
const NODE = process.env.VERIF_NODE_MODULES || '/opt/veriftools/node/node_modules';
const { transpile } = require('./instrument');
const [repo, target, out] = process.argv.slice(2);
const SRC = `${repo}/tools/generator/src`;
const id = (s) => s;
const stubs = {
  chalk: { __esModule: true, default: new Proxy({}, { get: () => id }) },
  yaml: { parse: require(path.join(NODE, 'js-yaml')).load },
  prettier: { format: async (s) => s },
  'json-schema-to-typescript': { compile: async (s, n) => `export interface ${n} {\n${Object.keys(s.properties).map((k) => `  ${k}${s.required.includes(k) ? '' : '?'}: any;`).join('\n')}\n}\n` },
  'json-schema-to-zod': { parseSchema: (s) => 'z.tuple(z.any())' },
};
const cache = {};
const load = (file) => {
  if (cache[file]) return cache[file].exports;
  const m = (cache[file] = { exports: {} });
  const req = (n) => {
    if (n in stubs) return stubs[n];
    if (n.startsWith('.')) return load(path.resolve(path.dirname(file), n + '.ts'));
    try { return require(n); } catch { return require(path.join(NODE, n)); }
  };
  vm.runInThisContext(`(function (exports, require, module, __dirname) {${transpile(fs.readFileSync(file, 'utf8'), path.basename(file), true).outputText}\n})`, { filename: file })(m.exports, req, m, path.dirname(file));
  return m.exports;
};
const pages = (d) => fs.readdirSync(d, { withFileTypes: true }).flatMap((e) => (e.isDirectory() ? pages(`${d}/${e.name}`) : e.name.endsWith('.md') ? [`${d}/${e.name}`] : [])).sort();
const sources = ['std', 'core'].flatMap((l) => pages(`${repo}/libs/${l}/include`));
fs.mkdirSync(out, { recursive: true });
process.argv = ['node', 'generate', '--output', out, '--target', target, '--sources', sources.join(' ')];
console.log = () => {};
load(`${SRC}/index.ts`);
