'use strict';
// Rewrites a bundled JavaScript program so that every operator, condition,
// property access and call goes through the symbolic runtime ($).
const ts = require('/opt/veriftools/node/node_modules/typescript');
const f = ts.factory;
const K = ts.SyntaxKind;

const BIN = new Map([
  [K.PlusToken, 'add'], [K.MinusToken, 'sub'], [K.AsteriskToken, 'mul'], [K.SlashToken, 'div'],
  [K.PercentToken, 'mod'], [K.AsteriskAsteriskToken, 'pow'],
  [K.LessThanToken, 'lt'], [K.LessThanEqualsToken, 'le'], [K.GreaterThanToken, 'gt'], [K.GreaterThanEqualsToken, 'ge'],
  [K.EqualsEqualsToken, 'eqeq'], [K.ExclamationEqualsToken, 'neqeq'],
  [K.EqualsEqualsEqualsToken, 'seq'], [K.ExclamationEqualsEqualsToken, 'sne'],
  [K.AmpersandToken, 'band'], [K.BarToken, 'bor'], [K.CaretToken, 'bxor'],
  [K.LessThanLessThanToken, 'shl'], [K.GreaterThanGreaterThanToken, 'shr'], [K.GreaterThanGreaterThanGreaterThanToken, 'ushr'],
]);
const ASG = new Map([
  [K.PlusEqualsToken, 'add'], [K.MinusEqualsToken, 'sub'], [K.AsteriskEqualsToken, 'mul'], [K.SlashEqualsToken, 'div'],
  [K.PercentEqualsToken, 'mod'], [K.AsteriskAsteriskEqualsToken, 'pow'],
  [K.AmpersandEqualsToken, 'band'], [K.BarEqualsToken, 'bor'], [K.CaretEqualsToken, 'bxor'],
  [K.LessThanLessThanEqualsToken, 'shl'], [K.GreaterThanGreaterThanEqualsToken, 'shr'],
  [K.GreaterThanGreaterThanGreaterThanEqualsToken, 'ushr'],
]);
const RAW = new Set(['H', '__env', '__sym']);

function hasAwait(node) {
  let found = false;
  const go = (n) => {
    if (found) return;
    if (n.kind === K.AwaitExpression || n.kind === K.YieldExpression) { found = true; return; }
    if (ts.isFunctionLike(n)) return;
    ts.forEachChild(n, go);
  };
  go(node);
  return found;
}

// markers: [[pos, file]] sorted, from esbuild's "// path" module comments
function moduleMarks(code) {
  const marks = [];
  const re = /^[ \t]*\/\/ (\S+\.(?:ts|tsx|js|mjs))$/gm;
  let m;
  while ((m = re.exec(code))) marks.push([m.index, m[1]]);
  return marks;
}

function instrument(code, opts = {}) {
  const sf = ts.createSourceFile('bundle.js', code, ts.ScriptTarget.ES2020, true, ts.ScriptKind.JS);
  const marks = moduleMarks(code);
  const fileOf = (pos) => { let r = ''; for (const [p, fl] of marks) { if (p > pos) break; r = fl; } return r; };
  const fns = [];
  const $ = () => f.createIdentifier('__sym');
  const call = (name, ...args) => f.createCallExpression(f.createPropertyAccessExpression($(), name), undefined, args);
  const str = (s) => f.createStringLiteral(s);
  const arrow = (e) => f.createArrowFunction(undefined, undefined, [], undefined, f.createToken(K.EqualsGreaterThanToken),
    ts.isObjectLiteralExpression(e) ? f.createParenthesizedExpression(e) : e);
  let hoist = null; let tmpN = 0;

  const transformer = (context) => {
    const isLit = (n) => ts.isStringLiteral(n) || ts.isNumericLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n) ||
      n.kind === K.NullKeyword || n.kind === K.TrueKeyword || n.kind === K.FalseKeyword || ts.isFunctionExpression(n) || ts.isArrowFunction(n) || ts.isObjectLiteralExpression(n) || ts.isArrayLiteralExpression(n);
    const unparen = (n) => { while (ts.isParenthesizedExpression(n)) n = n.expression; return n; };
    const rawObj = (n) => ts.isIdentifier(n) && RAW.has(n.text);
    const isAccess = (n) => (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n));
    const nativeAccess = (n) => n.expression.kind === K.SuperKeyword || rawObj(n.expression) ||
      (ts.isPropertyAccessExpression(n) && ts.isPrivateIdentifier(n.name));
    const keyOf = (n) => ts.isPropertyAccessExpression(n) ? str(n.name.text) : V(n.argumentExpression);
    const V = (n) => ts.visitNode(n, visit);
    const VA = (args) => args.map((a) => V(a));
    const newTmp = () => { const name = '$t' + (tmpN++); hoist.push(name); return f.createIdentifier(name); };

    // condition context: returns a native-boolean expression
    function C(n) {
      const u = unparen(n);
      if (ts.isBinaryExpression(u)) {
        if (u.operatorToken.kind === K.AmpersandAmpersandToken || u.operatorToken.kind === K.BarBarToken)
          return f.createParenthesizedExpression(f.createBinaryExpression(C(u.left), u.operatorToken.kind, C(u.right)));
      }
      if (ts.isPrefixUnaryExpression(u) && u.operator === K.ExclamationToken)
        return f.createPrefixUnaryExpression(K.ExclamationToken, f.createParenthesizedExpression(C(u.operand)));
      if (u.kind === K.TrueKeyword || u.kind === K.FalseKeyword) return u;
      return call('t', V(n));
    }

    function withFn(n, fn) {
      const saved = hoist; hoist = [];
      const r = fn();
      const names = hoist; hoist = saved;
      return [r, names];
    }
    function varDecl(names) {
      return f.createVariableStatement(undefined, f.createVariableDeclarationList(names.map((x) => f.createVariableDeclaration(x)), ts.NodeFlags.Let));
    }
    function fnName(n) {
      if (n.name) return n.name.getText(sf);
      const p = n.parent;
      if (p && ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) return p.name.text;
      if (p && (ts.isPropertyAssignment(p)) && p.name) return p.name.getText(sf);
      if (p && ts.isBinaryExpression(p) && ts.isPropertyAccessExpression(p.left)) return p.left.name.text;
      if (n.kind === K.Constructor) return 'constructor';
      return null;
    }
    function enclosingClass(n) { let p = n.parent; while (p) { if (ts.isClassLike(p)) return p.name ? p.name.text : (p.parent && ts.isVariableDeclaration(p.parent) ? p.parent.name.getText(sf) : ''); if (ts.isFunctionLike(p)) return ''; p = p.parent; } return ''; }
    function enterStmt(n) {
      const name = fnName(n);
      const cls = (ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isAccessor(n)) ? enclosingClass(n) : '';
      const id = fns.length;
      fns.push({ name: name ? (cls ? cls + '.' : '') + name : null, file: fileOf(n.getStart(sf)) });
      return f.createExpressionStatement(call('enter', f.createNumericLiteral(id)));
    }
    function fnBody(n, body) {
      if (!body) return body;
      if (ts.isBlock(body)) {
        const [stmts, names] = withFn(n, () => ts.visitNodes(body.statements, visit));
        const out = [...stmts];
        // keep directive prologue first
        let i = 0; while (i < out.length && ts.isExpressionStatement(out[i]) && ts.isStringLiteral(out[i].expression)) i++;
        const pre = [enterStmt(n)]; if (names.length) pre.push(varDecl(names));
        // super() must come before `this`; enter() does not touch this, so it is safe anywhere
        out.splice(i, 0, ...pre);
        return f.createBlock(out, true);
      }
      const [e, names] = withFn(n, () => V(body));
      const out = [enterStmt(n)]; if (names.length) out.push(varDecl(names));
      out.push(f.createReturnStatement(e));
      return f.createBlock(out, true);
    }
    function loopBody(b) {
      const v = V(b);
      const tick = f.createExpressionStatement(call('tick'));
      if (ts.isBlock(v)) return f.createBlock([tick, ...v.statements], true);
      return f.createBlock([tick, v], true);
    }
    function objLiteral(n) {
      const complex = n.properties.some((p) => ts.isSpreadAssignment(p) || (p.name && ts.isComputedPropertyName(p.name) && !ts.isStringLiteral(p.name.expression)));
      if (!complex) return ts.visitEachChild(n, visit, context);
      const parts = []; let chunk = [];
      const flush = () => { if (chunk.length) { parts.push(f.createArrayLiteralExpression([str('o'), f.createObjectLiteralExpression(chunk, false)])); chunk = []; } };
      for (const p of n.properties) {
        if (ts.isSpreadAssignment(p)) { flush(); parts.push(f.createArrayLiteralExpression([str('s'), V(p.expression)])); }
        else if (ts.isPropertyAssignment(p) && ts.isComputedPropertyName(p.name)) { flush(); parts.push(f.createArrayLiteralExpression([str('p'), V(p.name.expression), V(p.initializer)])); }
        else chunk.push(V(p));
      }
      flush();
      return call('objl', f.createArrayLiteralExpression(parts));
    }
    function assignTo(target, valueOf) { // target identifier or access; valueOf(oldExpr) -> expr
      throw new Error('unused');
    }

    function visit(n) {
      switch (n.kind) {
        case K.FunctionDeclaration: {
          const ps = ts.visitNodes(n.parameters, visit);
          return f.updateFunctionDeclaration(n, n.modifiers, n.asteriskToken, n.name, undefined, ps, undefined, fnBody(n, n.body));
        }
        case K.FunctionExpression: {
          const ps = ts.visitNodes(n.parameters, visit);
          return f.updateFunctionExpression(n, n.modifiers, n.asteriskToken, n.name, undefined, ps, undefined, fnBody(n, n.body));
        }
        case K.ArrowFunction: {
          const ps = ts.visitNodes(n.parameters, visit);
          return f.updateArrowFunction(n, n.modifiers, undefined, ps, undefined, n.equalsGreaterThanToken, fnBody(n, n.body));
        }
        case K.MethodDeclaration: {
          const ps = ts.visitNodes(n.parameters, visit);
          return f.updateMethodDeclaration(n, n.modifiers, n.asteriskToken, V(n.name), undefined, undefined, ps, undefined, fnBody(n, n.body));
        }
        case K.Constructor:
          return f.updateConstructorDeclaration(n, n.modifiers, ts.visitNodes(n.parameters, visit), fnBody(n, n.body));
        case K.GetAccessor:
          return f.updateGetAccessorDeclaration(n, n.modifiers, V(n.name), n.parameters, undefined, fnBody(n, n.body));
        case K.SetAccessor:
          return f.updateSetAccessorDeclaration(n, n.modifiers, V(n.name), ts.visitNodes(n.parameters, visit), fnBody(n, n.body));
        case K.PropertyDeclaration: {
          if (!n.initializer) return n;
          const [e, names] = withFn(n, () => V(n.initializer));
          if (names.length) throw new Error('await in property initializer');
          return f.updatePropertyDeclaration(n, n.modifiers, n.name, undefined, undefined, e);
        }
        case K.IfStatement:
          return f.updateIfStatement(n, C(n.expression), V(n.thenStatement), n.elseStatement ? V(n.elseStatement) : undefined);
        case K.WhileStatement: return f.updateWhileStatement(n, C(n.expression), loopBody(n.statement));
        case K.DoStatement: return f.updateDoStatement(n, loopBody(n.statement), C(n.expression));
        case K.ForStatement:
          return f.updateForStatement(n, n.initializer ? V(n.initializer) : undefined, n.condition ? C(n.condition) : undefined, n.incrementor ? V(n.incrementor) : undefined, loopBody(n.statement));
        case K.ForOfStatement:
          return f.updateForOfStatement(n, n.awaitModifier, V(n.initializer), call('iter', V(n.expression)), loopBody(n.statement));
        case K.ForInStatement:
          return f.createForOfStatement(undefined, n.initializer, call('forin', V(n.expression)), loopBody(n.statement));
        case K.ConditionalExpression:
          return f.updateConditionalExpression(n, C(n.condition), n.questionToken, V(n.whenTrue), n.colonToken, V(n.whenFalse));
        case K.SwitchStatement: {
          const cases = []; const clauses = [];
          for (const c of n.caseBlock.clauses) {
            if (ts.isCaseClause(c)) { clauses.push(f.createCaseClause(f.createNumericLiteral(cases.length), ts.visitNodes(c.statements, visit))); cases.push(arrow(V(c.expression))); }
            else clauses.push(f.createDefaultClause(ts.visitNodes(c.statements, visit)));
          }
          return f.createSwitchStatement(call('sw', V(n.expression), f.createArrayLiteralExpression(cases)), f.createCaseBlock(clauses));
        }
        case K.CatchClause: {
          if (!n.variableDeclaration) {
            const b = V(n.block); const e = '$e' + (tmpN++);
            return f.updateCatchClause(n, f.createVariableDeclaration(e), f.createBlock([f.createExpressionStatement(call('chk', f.createIdentifier(e))), ...b.statements], true));
          }
          const b = V(n.block);
          const pre = ts.isIdentifier(n.variableDeclaration.name) ? [f.createExpressionStatement(call('chk', f.createIdentifier(n.variableDeclaration.name.text)))] : [];
          return f.updateCatchClause(n, n.variableDeclaration, f.createBlock([...pre, ...b.statements], true));
        }
        case K.BinaryExpression: {
          const op = n.operatorToken.kind;
          if (op === K.AmpersandAmpersandToken || op === K.BarBarToken || op === K.QuestionQuestionToken) {
            const nm = op === K.AmpersandAmpersandToken ? 'and' : op === K.BarBarToken ? 'or' : 'nc';
            if (!hasAwait(n.right)) return call(nm, V(n.left), arrow(V(n.right)));
            const t = newTmp();
            const test = op === K.QuestionQuestionToken ? call('nn', f.createAssignment(t, V(n.left))) : call('t', f.createAssignment(t, V(n.left)));
            const r = V(n.right);
            return f.createParenthesizedExpression(op === K.AmpersandAmpersandToken ? f.createConditionalExpression(test, undefined, r, undefined, t)
              : f.createConditionalExpression(test, undefined, t, undefined, r));
          }
          if (op === K.EqualsToken) {
            const l = unparen(n.left);
            if (isAccess(l) && !nativeAccess(l)) return call('set', V(l.expression), keyOf(l), V(n.right));
            if (isAccess(l)) return f.createAssignment(ts.isPropertyAccessExpression(l) ? f.updatePropertyAccessExpression(l, l.expression, l.name) : f.updateElementAccessExpression(l, l.expression, V(l.argumentExpression)), V(n.right));
            return f.createAssignment(n.left, V(n.right));
          }
          if (op === K.BarBarEqualsToken || op === K.AmpersandAmpersandEqualsToken || op === K.QuestionQuestionEqualsToken) throw new Error('logical assignment should be lowered');
          if (ASG.has(op)) {
            const l = unparen(n.left);
            const o = ASG.get(op);
            if (ts.isIdentifier(l)) return f.createAssignment(l, call(o, l, V(n.right)));
            if (isAccess(l) && !nativeAccess(l)) {
              if (hasAwait(n.right)) return call('opset', V(l.expression), keyOf(l), str(o), V(n.right));
              return call('opsetf', V(l.expression), keyOf(l), str(o), arrow(V(n.right)));
            }
            if (isAccess(l)) return f.createAssignment(l, call(o, l, V(n.right)));
            throw new Error('compound assignment target');
          }
          if (op === K.InKeyword) { if (ts.isPrivateIdentifier(n.left)) return ts.visitEachChild(n, visit, context); return call('in', V(n.left), V(n.right)); }
          if (op === K.InstanceOfKeyword || op === K.CommaToken) return ts.visitEachChild(n, visit, context);
          if (BIN.has(op)) {
            if (isLit(n.left) && isLit(n.right)) return n;
            return call(BIN.get(op), V(n.left), V(n.right));
          }
          throw new Error('binary operator ' + K[op]);
        }
        case K.PrefixUnaryExpression: case K.PostfixUnaryExpression: {
          const op = n.operator;
          if (op === K.PlusPlusToken || op === K.MinusMinusToken) {
            const d = f.createNumericLiteral(1);
            const fnn = op === K.PlusPlusToken ? 'inc' : 'dec';
            const l = unparen(n.operand);
            const isExprStmt = (n.parent && ts.isExpressionStatement(n.parent)) || (n.parent && ts.isForStatement(n.parent) && n.parent.incrementor === n);
            if (ts.isIdentifier(l)) {
              const asg = f.createAssignment(l, call(fnn, l));
              if (n.kind === K.PrefixUnaryExpression || isExprStmt) return f.createParenthesizedExpression(asg);
              return call('post', call('num', l), asg);
            }
            if (isAccess(l) && !nativeAccess(l)) return call(n.kind === K.PrefixUnaryExpression ? 'preupd' : 'postupd', V(l.expression), keyOf(l), str(fnn));
            return n;
          }
          if (op === K.ExclamationToken) { return call('not', V(n.operand)); }
          if (ts.isNumericLiteral(n.operand)) return n;
          if (op === K.MinusToken) return call('neg', V(n.operand));
          if (op === K.PlusToken) return call('num', V(n.operand));
          if (op === K.TildeToken) return call('bnot', V(n.operand));
          throw new Error('unary');
        }
        case K.TypeOfExpression: {
          const u = unparen(n.expression);
          if (ts.isIdentifier(u)) return f.createParenthesizedExpression(f.createConditionalExpression(f.createStrictEquality(f.createTypeOfExpression(u), str('undefined')), undefined, str('undefined'), undefined, call('typeof', u)));
          return call('typeof', V(n.expression));
        }
        case K.DeleteExpression: {
          const l = unparen(n.expression);
          if (isAccess(l) && !nativeAccess(l)) return call('del', V(l.expression), keyOf(l));
          return n;
        }
        case K.PropertyAccessExpression: case K.ElementAccessExpression: {
          if (n.questionDotToken) throw new Error('optional chaining should be lowered');
          if (nativeAccess(n)) return ts.isElementAccessExpression(n) ? f.updateElementAccessExpression(n, n.expression, V(n.argumentExpression)) : n;
          return call('get', V(n.expression), keyOf(n));
        }
        case K.CallExpression: {
          const c = unparen(n.expression);
          if (c.kind === K.SuperKeyword) {
            let cl = n.parent; while (cl && !ts.isClassLike(cl)) cl = cl.parent;
            const h = cl && cl.heritageClauses && cl.heritageClauses[0] && cl.heritageClauses[0].types[0].expression;
            const err = h && ts.isIdentifier(h) && /^(Type|Range|Syntax)?Error$/.test(h.text); // a native constructor: messages are carried by their current text
            return f.updateCallExpression(n, c, undefined, err ? VA(n.arguments).map((a) => call('em', a)) : VA(n.arguments));
          }
          if (isAccess(c)) {
            if (rawObj(c.expression) && c.expression.text !== '__env') return f.updateCallExpression(n, c, undefined, VA(n.arguments));
            if (rawObj(c.expression)) return call('fcall', c, f.createArrayLiteralExpression(VA(n.arguments)));
            if (nativeAccess(c)) return f.updateCallExpression(n, ts.isPropertyAccessExpression(c) ? c : V(c), undefined, VA(n.arguments));
            return call('call', V(c.expression), keyOf(c), f.createArrayLiteralExpression(VA(n.arguments)));
          }
          if (c.kind === K.ImportKeyword) throw new Error('dynamic import');
          return call('fcall', V(c), f.createArrayLiteralExpression(VA(n.arguments)));
        }
        case K.NewExpression:
          return call('new', V(n.expression), f.createArrayLiteralExpression(VA(n.arguments || [])));
        case K.TemplateExpression: {
          const strs = [str(n.head.text)]; const exps = [];
          for (const s of n.templateSpans) { exps.push(V(s.expression)); strs.push(str(s.literal.text)); }
          return call('tpl', f.createArrayLiteralExpression(strs), f.createArrayLiteralExpression(exps));
        }
        case K.ObjectLiteralExpression: return objLiteral(n);
        case K.SpreadElement: return f.createSpreadElement(call('iter', V(n.expression)));
        case K.ShorthandPropertyAssignment: return n;
        case K.VariableDeclaration: {
          if (n.initializer && ts.isObjectBindingPattern(n.name)) {
            const keys = []; let rest = false;
            for (const e of n.name.elements) { if (e.dotDotDotToken) rest = true; }
            return f.updateVariableDeclaration(n, ts.visitEachChild(n.name, visit, context), undefined, undefined, call('destr', V(n.initializer)));
          }
          if (n.initializer && ts.isArrayBindingPattern(n.name)) {
            return f.updateVariableDeclaration(n, ts.visitEachChild(n.name, visit, context), undefined, undefined, call('iter', V(n.initializer)));
          }
          return ts.visitEachChild(n, visit, context);
        }
        default:
          return ts.visitEachChild(n, visit, context);
      }
    }
    return (root) => {
      hoist = [];
      const r = ts.visitEachChild(root, visit, context);
      const names = hoist;
      if (names.length) return f.updateSourceFile(r, [varDecl(names), ...r.statements]);
      return r;
    };
  };
  const res = ts.transform(sf, [transformer]);
  const out = ts.createPrinter({ removeComments: true }).printFile(res.transformed[0]);
  return { code: out, fns };
}
module.exports = { instrument };
