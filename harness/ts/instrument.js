// Rewrites TypeScript so that every operator that looks at a value goes through the runtime ($.…), and transpiles it to JavaScript.
const path = require('path');
const NODE = process.env.VERIF_NODE_MODULES || '/opt/veriftools/node/node_modules';
const ts = require(path.join(NODE, 'typescript'));
const f = ts.factory, K = ts.SyntaxKind;
const BIN = new Map([[K.PlusToken, '+'], [K.MinusToken, '-'], [K.AsteriskToken, '*'], [K.SlashToken, '/'], [K.PercentToken, '%'], [K.AsteriskAsteriskToken, '**'],
  [K.LessThanToken, '<'], [K.LessThanEqualsToken, '<='], [K.GreaterThanToken, '>'], [K.GreaterThanEqualsToken, '>='],
  [K.EqualsEqualsToken, '=='], [K.EqualsEqualsEqualsToken, '==='], [K.ExclamationEqualsToken, '!='], [K.ExclamationEqualsEqualsToken, '!=='],
  [K.BarToken, '|'], [K.AmpersandToken, '&'], [K.CaretToken, '^'], [K.LessThanLessThanToken, '<<'], [K.GreaterThanGreaterThanToken, '>>'], [K.GreaterThanGreaterThanGreaterThanToken, '>>>'], [K.InKeyword, 'in']]);
const ASSIGN = new Map([[K.PlusEqualsToken, '+'], [K.MinusEqualsToken, '-'], [K.AsteriskEqualsToken, '*'], [K.SlashEqualsToken, '/'], [K.PercentEqualsToken, '%'], [K.BarEqualsToken, '|'], [K.AmpersandEqualsToken, '&']]);
const LOGIC = new Map([[K.BarBarEqualsToken, K.BarBarToken], [K.AmpersandAmpersandEqualsToken, K.AmpersandAmpersandToken]]);

function transformer(ctx) {
  let temps = [], top;
  const $ = (name, ...a) => f.createCallExpression(f.createPropertyAccessExpression(f.createIdentifier('$'), name), undefined, a);
  const str = (s) => f.createStringLiteral(s);
  const temp = () => { const t = f.createUniqueName('$v'); temps.push(t); return t; };
  const comma = (...a) => f.createParenthesizedExpression(a.reduce((x, y) => f.createBinaryExpression(x, K.CommaToken, y)));
  const set = (t, v) => f.createBinaryExpression(t, K.EqualsToken, v);
  const cond = (e) => $('truth', e);
  const isRef = (n) => ts.isIdentifier(n) || n.kind === K.ThisKeyword || (ts.isPropertyAccessExpression(n) && isRef(n.expression));
  const logic = (op, a, b) => {
    const t = temp();
    const c = $('truth', f.createParenthesizedExpression(set(t, a)));
    return f.createParenthesizedExpression(op === K.AmpersandAmpersandToken ? f.createConditionalExpression(c, undefined, b, undefined, t) : f.createConditionalExpression(c, undefined, t, undefined, b));
  };
  const visit = (n) => {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isEnumDeclaration(n)) return n;
    if (ts.isDecorator(n)) return n;
    if (ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isTypeAssertionExpression(n) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(n))) return ts.visitNode(n.expression, visit);
    if (ts.isBinaryExpression(n)) {
      const k = n.operatorToken.kind;
      if (BIN.has(k)) return $('op', str(BIN.get(k)), ts.visitNode(n.left, visit), ts.visitNode(n.right, visit));
      if (k === K.AmpersandAmpersandToken || k === K.BarBarToken) return logic(k, ts.visitNode(n.left, visit), ts.visitNode(n.right, visit));
      let left = n.left;
      while (ts.isParenthesizedExpression(left) || ts.isAsExpression(left) || ts.isNonNullExpression(left)) left = left.expression;
      if (ASSIGN.has(k) || LOGIC.has(k)) {
        const val = (cur) => ASSIGN.has(k) ? $('op', str(ASSIGN.get(k)), cur, ts.visitNode(n.right, visit)) : logic(LOGIC.get(k), cur, ts.visitNode(n.right, visit));
        if (ts.isIdentifier(left)) return f.createParenthesizedExpression(set(left, val(left)));
        if (ts.isPropertyAccessExpression(left)) {
          const o = temp();
          return comma(set(o, ts.visitNode(left.expression, visit)), set(f.createPropertyAccessExpression(o, left.name), val(f.createPropertyAccessExpression(o, left.name))));
        }
        if (ts.isElementAccessExpression(left)) {
          const o = temp(), i = temp();
          return comma(set(o, ts.visitNode(left.expression, visit)), set(i, $('key', o, ts.visitNode(left.argumentExpression, visit))), set(f.createElementAccessExpression(o, i), val(f.createElementAccessExpression(o, i))));
        }
      }
    }
    if (ts.isPrefixUnaryExpression(n)) {
      if (n.operator === K.ExclamationToken) return $('not', ts.visitNode(n.operand, visit));
      if (n.operator === K.MinusToken && !ts.isNumericLiteral(n.operand)) return $('op', str('-'), f.createNumericLiteral(0), ts.visitNode(n.operand, visit));
      if (n.operator === K.PlusToken) return $('num', ts.visitNode(n.operand, visit));
    }
    if (ts.isTypeOfExpression(n)) return ts.isIdentifier(n.expression) ? $('type', f.createConditionalExpression(f.createStrictEquality(f.createTypeOfExpression(n.expression), str('undefined')), undefined, f.createVoidZero(), undefined, n.expression)) : $('type', ts.visitNode(n.expression, visit));
    if (ts.isConditionalExpression(n)) return f.updateConditionalExpression(n, cond(ts.visitNode(n.condition, visit)), n.questionToken, ts.visitNode(n.whenTrue, visit), n.colonToken, ts.visitNode(n.whenFalse, visit));
    if (ts.isIfStatement(n)) return f.updateIfStatement(n, cond(ts.visitNode(n.expression, visit)), ts.visitNode(n.thenStatement, visit), ts.visitNode(n.elseStatement, visit));
    if (ts.isWhileStatement(n)) return f.updateWhileStatement(n, cond(ts.visitNode(n.expression, visit)), ts.visitNode(n.statement, visit));
    if (ts.isDoStatement(n)) return f.updateDoStatement(n, ts.visitNode(n.statement, visit), cond(ts.visitNode(n.expression, visit)));
    if (ts.isForStatement(n)) return f.updateForStatement(n, ts.visitNode(n.initializer, visit), n.condition && cond(ts.visitNode(n.condition, visit)), ts.visitNode(n.incrementor, visit), ts.visitNode(n.statement, visit));
    if (ts.isSwitchStatement(n)) {
      const t = temp();
      return f.createSwitchStatement(comma(set(t, ts.visitNode(n.expression, visit)), f.createTrue()), f.createCaseBlock(n.caseBlock.clauses.map((c) => {
        const body = c.statements.map((s) => ts.visitNode(s, visit));
        return ts.isDefaultClause(c) ? f.createDefaultClause(body) : f.createCaseClause(cond($('op', str('==='), t, ts.visitNode(c.expression, visit))), body);
      })));
    }
    if (ts.isTemplateExpression(n)) return n.templateSpans.reduce((acc, s) => $('cat', acc, ts.visitNode(s.expression, visit), str(s.literal.text)), str(n.head.text));
    if (ts.isElementAccessExpression(n) && n.expression.kind !== K.SuperKeyword) {
      const chain = n.questionDotToken;
      const o = ts.visitNode(n.expression, visit), i = ts.visitNode(n.argumentExpression, visit);
      if (chain || ts.isOptionalChain(n)) return f.createElementAccessChain(o, n.questionDotToken, $('key0', i));
      const t = temp();
      return f.createElementAccessExpression(f.createParenthesizedExpression(set(t, o)), $('key', t, i));
    }
    if (ts.isComputedPropertyName(n)) return f.updateComputedPropertyName(n, $('key0', ts.visitNode(n.expression, visit)));
    if (ts.isCallExpression(n) && n.expression.kind !== K.SuperKeyword && n.expression.kind !== K.ImportKeyword) {
      const args = n.arguments.map((a) => ts.visitNode(a, visit));
      const e = n.expression;
      if (ts.isPropertyAccessExpression(e) && e.expression.kind !== K.SuperKeyword && !ts.isPrivateIdentifier(e.name)) {
        const o = ts.visitNode(e.expression, visit);
        if (ts.isOptionalChain(n)) {
          // a?.b(c): undefined when a is nullish
          const t = temp();
          return f.createParenthesizedExpression(f.createConditionalExpression(f.createBinaryExpression(f.createParenthesizedExpression(set(t, o)), K.EqualsEqualsToken, f.createNull()), undefined, f.createVoidZero(), undefined, $('call', t, str(e.name.text), f.createArrayLiteralExpression(args))));
        }
        return $('call', o, str(e.name.text), f.createArrayLiteralExpression(args));
      }
      if (ts.isIdentifier(e) && ['Number', 'String', 'Boolean', 'parseFloat', 'parseInt', 'isNaN', 'isFinite', 'BigInt'].includes(e.text)) return $('builtin', str(e.text), f.createArrayLiteralExpression(args));
    }
    if (ts.isNewExpression(n) && ts.isIdentifier(n.expression) && /Error$/.test(n.expression.text)) return f.updateNewExpression(n, n.expression, undefined, (n.arguments || []).map((a) => $('show', ts.visitNode(a, visit))));
    return ts.visitEachChild(n, visit, ctx);
  };
  return (file) => {
    temps = [];
    const r = ts.visitEachChild(file, visit, ctx);
    if (!temps.length) return r;
    const decl = f.createVariableStatement(undefined, f.createVariableDeclarationList(temps.map((t) => f.createVariableDeclaration(t)), ts.NodeFlags.Let));
    return f.updateSourceFile(r, [decl, ...r.statements]);
  };
}

exports.transpile = (text, name, plain) => ts.transpileModule(text, {
  fileName: name, reportDiagnostics: true,
  compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS, useDefineForClassFields: true, experimentalDecorators: true, esModuleInterop: true, isolatedModules: true },
  transformers: plain ? {} : { before: [transformer] },
});
exports.functions = (text, name) => {
  const out = [], sf = ts.createSourceFile(name, text, ts.ScriptTarget.ES2022, true);
  const go = (n, pre) => {
    if (ts.isClassDeclaration(n) && n.name) pre = n.name.text + '.';
    if ((ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isFunctionDeclaration(n)) && n.body) out.push(pre + (n.name ? n.name.getText(sf) : 'constructor'));
    ts.forEachChild(n, (c) => go(c, pre));
  };
  go(sf, '');
  return out;
};
