// Reads TypeScript modules with the TypeScript compiler's own parser, follows
// their relative imports, drops the types, and writes the rest as JSON.
//   node astdump.js OUT.json REPO ENTRY.ts...
"use strict";
const fs = require("fs");
const path = require("path");
const ts = require(process.env.TS_LIB || "/opt/veriftools/node/node_modules/typescript");
const S = ts.SyntaxKind;
const [out, repo, ...entries] = process.argv.slice(2);
const mods = {};
const order = [];

function resolve(from, spec) {
  if (spec === "polyglot") spec = path.join(repo, "index");
  else if (!spec.startsWith(".") && !path.isAbsolute(spec)) return "builtin:" + spec;
  const base = path.resolve(path.dirname(from), spec);
  for (const f of [base, base + ".ts", path.join(base, "index.ts"), base.replace(/\.js$/, ".ts")]) {
    if (fs.existsSync(f) && fs.statSync(f).isFile()) return f;
  }
  throw new Error(from + ": cannot resolve " + spec);
}

function load(file) {
  if (mods[file] || file.startsWith("builtin:")) return;
  mods[file] = {};
  const sf = ts.createSourceFile(file, fs.readFileSync(file, "utf8"), ts.ScriptTarget.ESNext, true, ts.ScriptKind.TS);
  if (sf.parseDiagnostics.length) throw new Error(file + ": " + ts.flattenDiagnosticMessageText(sf.parseDiagnostics[0].messageText, " "));
  const deps = [];
  const line = (n) => sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1;
  const mk = (n, k, o) => Object.assign({ k, l: line(n) }, o);
  const un = (n) => mk(n, "unsup", { n: S[n.kind] });
  const mods_ = (n) => (ts.canHaveModifiers(n) && ts.getModifiers(n)) || [];
  const has = (n, k) => mods_(n).some((m) => m.kind === k);
  const opt = (n, f) => (n ? f(n) : undefined);

  function name(n) {
    if (ts.isPrivateIdentifier(n) || ts.isIdentifier(n)) return { k: "str", v: n.text };
    if (ts.isStringLiteral(n) || ts.isNumericLiteral(n)) return { k: "str", v: n.text };
    if (ts.isComputedPropertyName(n)) return expr(n.expression);
    return un(n);
  }
  function pat(n) {
    if (ts.isIdentifier(n)) return mk(n, "id", { n: n.text });
    if (ts.isArrayBindingPattern(n))
      return mk(n, "arrpat", { els: n.elements.map((e) => (ts.isOmittedExpression(e) ? null : { t: pat(e.name), d: opt(e.initializer, expr), rest: !!e.dotDotDotToken })) });
    if (ts.isObjectBindingPattern(n))
      return mk(n, "objpat", { els: n.elements.map((e) => ({ p: name(e.propertyName || e.name), t: pat(e.name), d: opt(e.initializer, expr), rest: !!e.dotDotDotToken })) });
    return un(n);
  }
  function target(n) {
    while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n)) n = n.expression;
    if (ts.isArrayLiteralExpression(n))
      return mk(n, "arrpat", {
        els: n.elements.map((e) => {
          if (ts.isOmittedExpression(e)) return null;
          if (ts.isSpreadElement(e)) return { t: target(e.expression), rest: true };
          if (ts.isBinaryExpression(e) && e.operatorToken.kind === S.EqualsToken) return { t: target(e.left), d: expr(e.right) };
          return { t: target(e) };
        }),
      });
    if (ts.isObjectLiteralExpression(n)) {
      const split = (e) => (ts.isBinaryExpression(e) && e.operatorToken.kind === S.EqualsToken ? { t: target(e.left), d: expr(e.right) } : { t: target(e) });
      const els = [];
      for (const p of n.properties) {
        if (ts.isShorthandPropertyAssignment(p)) els.push({ p: name(p.name), t: mk(p, "id", { n: p.name.text }), d: opt(p.objectAssignmentInitializer, expr) });
        else if (ts.isPropertyAssignment(p)) els.push({ p: name(p.name), ...split(p.initializer) });
        else if (ts.isSpreadAssignment(p)) els.push({ t: target(p.expression), rest: true });
        else return un(p);
      }
      return mk(n, "objpat", { els });
    }
    return expr(n);
  }
  function params(n) {
    return n.parameters
      .filter((p) => !(ts.isIdentifier(p.name) && p.name.text === "this"))
      .map((p) => ({ t: pat(p.name), d: opt(p.initializer, expr), rest: !!p.dotDotDotToken, prop: mods_(p).length > 0 }));
  }
  function fn(n, nm) {
    if (has(n, S.AsyncKeyword)) return un(n);
    const arrow = ts.isArrowFunction(n);
    const b = n.body;
    return mk(n, "fn", {
      gen: !!n.asteriskToken, name: nm || (n.name && n.name.text) || "", arrow, params: params(n),
      body: b ? (ts.isBlock(b) ? b.statements.map(stmt) : [mk(b, "return", { e: expr(b) })]) : undefined,
    });
  }
  function cls(n) {
    const c = mk(n, "class", { name: n.name ? n.name.text : "", members: [] });
    for (const h of n.heritageClauses || []) if (h.token === S.ExtendsKeyword) c.ext = expr(h.types[0].expression);
    for (const m of n.members) {
      const st = has(m, S.StaticKeyword);
      if (ts.isConstructorDeclaration(m)) { if (m.body) c.ctor = fn(m, "constructor"); }
      else if (ts.isMethodDeclaration(m)) { if (m.body) c.members.push({ k: "method", p: name(m.name), st, f: fn(m, m.name.text || "") }); }
      else if (ts.isGetAccessor(m)) c.members.push({ k: "get", p: name(m.name), st, f: fn(m, m.name.text || "") });
      else if (ts.isSetAccessor(m)) c.members.push({ k: "set", p: name(m.name), st, f: fn(m, m.name.text || "") });
      else if (ts.isPropertyDeclaration(m)) { if (!has(m, S.DeclareKeyword)) c.members.push({ k: "field", p: name(m.name), st, e: opt(m.initializer, expr) }); }
      else if (ts.isClassStaticBlockDeclaration(m)) c.members.push({ k: "static", body: m.body.statements.map(stmt) });
      else if (ts.isSemicolonClassElement(m) || ts.isIndexSignatureDeclaration(m)) continue;
      else return un(m);
    }
    return c;
  }
  function args(as) {
    return as.map((a) => (ts.isSpreadElement(a) ? { k: "spread", e: expr(a.expression) } : expr(a)));
  }
  function expr(n) {
    switch (n.kind) {
      case S.ParenthesizedExpression: case S.AsExpression: case S.TypeAssertionExpression:
      case S.NonNullExpression: case S.SatisfiesExpression: case S.ExpressionWithTypeArguments:
        return expr(n.expression);
      case S.NumericLiteral: return mk(n, "num", { v: n.text });
      case S.BigIntLiteral: return mk(n, "big", { v: ts.parsePseudoBigInt ? ts.parsePseudoBigInt(n.text) : BigInt(n.text.slice(0, -1)).toString() });
      case S.StringLiteral: case S.NoSubstitutionTemplateLiteral: return mk(n, "str", { v: n.text });
      case S.TrueKeyword: return mk(n, "bool", { v: true });
      case S.FalseKeyword: return mk(n, "bool", { v: false });
      case S.NullKeyword: return mk(n, "null", {});
      case S.ThisKeyword: return mk(n, "this", {});
      case S.SuperKeyword: return mk(n, "super", {});
      case S.Identifier: return n.text === "undefined" ? mk(n, "undef", {}) : mk(n, "id", { n: n.text });
      case S.PropertyAccessExpression:
        return mk(n, "member", { o: expr(n.expression), p: n.name.text, opt: !!n.questionDotToken });
      case S.ElementAccessExpression:
        return mk(n, "index", { o: expr(n.expression), i: expr(n.argumentExpression), opt: !!n.questionDotToken });
      case S.CallExpression:
        return mk(n, "call", { f: expr(n.expression), a: args(n.arguments), opt: !!n.questionDotToken });
      case S.NewExpression: return mk(n, "new", { f: expr(n.expression), a: args(n.arguments || []) });
      case S.PrefixUnaryExpression:
        if (n.operator === S.PlusPlusToken || n.operator === S.MinusMinusToken)
          return mk(n, "upd", { op: n.operator === S.PlusPlusToken ? "+" : "-", prefix: true, t: target(n.operand) });
        return mk(n, "un", { op: ts.tokenToString(n.operator), e: expr(n.operand) });
      case S.PostfixUnaryExpression:
        return mk(n, "upd", { op: n.operator === S.PlusPlusToken ? "+" : "-", prefix: false, t: target(n.operand) });
      case S.TypeOfExpression: return mk(n, "un", { op: "typeof", e: expr(n.expression) });
      case S.VoidExpression: return mk(n, "un", { op: "void", e: expr(n.expression) });
      case S.DeleteExpression: return mk(n, "delete", { t: target(n.expression) });
      case S.YieldExpression: return mk(n, "yield", { e: opt(n.expression, expr), star: !!n.asteriskToken });
      case S.BinaryExpression: {
        const op = ts.tokenToString(n.operatorToken.kind);
        if (["&&", "||", "??"].includes(op)) return mk(n, "log", { op, a: expr(n.left), b: expr(n.right) });
        if (op === "=") return mk(n, "assign", { op: "", t: target(n.left), v: expr(n.right) });
        if (n.operatorToken.kind >= S.FirstAssignment && n.operatorToken.kind <= S.LastAssignment)
          return mk(n, "assign", { op: op.slice(0, -1), t: target(n.left), v: expr(n.right) });
        return mk(n, "bin", { op, a: expr(n.left), b: expr(n.right) });
      }
      case S.ConditionalExpression: return mk(n, "cond", { c: expr(n.condition), a: expr(n.whenTrue), b: expr(n.whenFalse) });
      case S.ArrowFunction: case S.FunctionExpression: return fn(n);
      case S.ClassExpression: return cls(n);
      case S.ArrayLiteralExpression: return mk(n, "arr", { els: args(n.elements) });
      case S.ObjectLiteralExpression: {
        const ps = [];
        for (const p of n.properties) {
          if (ts.isPropertyAssignment(p)) ps.push({ p: name(p.name), v: expr(p.initializer) });
          else if (ts.isShorthandPropertyAssignment(p)) ps.push({ p: name(p.name), v: mk(p, "id", { n: p.name.text }) });
          else if (ts.isMethodDeclaration(p)) ps.push({ p: name(p.name), v: fn(p, p.name.text || "") });
          else if (ts.isSpreadAssignment(p)) ps.push({ spread: expr(p.expression) });
          else if (ts.isGetAccessor(p)) ps.push({ p: name(p.name), get: true, v: fn(p, p.name.text || "") });
          else if (ts.isSetAccessor(p)) ps.push({ p: name(p.name), set: true, v: fn(p, p.name.text || "") });
          else return un(p);
        }
        return mk(n, "obj", { ps });
      }
      case S.TemplateExpression:
        return mk(n, "tpl", { q: [n.head.text, ...n.templateSpans.map((s) => s.literal.text)], e: n.templateSpans.map((s) => expr(s.expression)) });
    }
    return un(n);
  }
  function decls(n) {
    return mk(n, "var", { kind: n.flags & ts.NodeFlags.Const ? "const" : n.flags & ts.NodeFlags.Let ? "let" : "var",
      ds: n.declarations.map((d) => ({ t: pat(d.name), e: opt(d.initializer, expr) })) });
  }
  function block(n) { return ts.isBlock(n) ? n.statements.map(stmt) : [stmt(n)]; }
  function stmt(n) {
    switch (n.kind) {
      case S.EmptyStatement: case S.InterfaceDeclaration: case S.TypeAliasDeclaration: return mk(n, "empty", {});
      case S.Block: return mk(n, "block", { b: n.statements.map(stmt) });
      case S.ExpressionStatement: return mk(n, "expr", { e: expr(n.expression) });
      case S.VariableStatement: {
        if (has(n, S.DeclareKeyword)) return mk(n, "empty", {});
        const d = decls(n.declarationList);
        if (has(n, S.ExportKeyword)) d.exp = true;
        return d;
      }
      case S.IfStatement: return mk(n, "if", { c: expr(n.expression), a: block(n.thenStatement), b: n.elseStatement ? block(n.elseStatement) : [] });
      case S.ForStatement: return mk(n, "for", {
        i: n.initializer ? (ts.isVariableDeclarationList(n.initializer) ? decls(n.initializer) : mk(n, "expr", { e: expr(n.initializer) })) : undefined,
        c: opt(n.condition, expr), u: opt(n.incrementor, expr), b: block(n.statement) });
      case S.WhileStatement: return mk(n, "for", { c: expr(n.expression), b: block(n.statement) });
      case S.DoStatement: return mk(n, "do", { c: expr(n.expression), b: block(n.statement) });
      case S.ForOfStatement: {
        if (n.awaitModifier) return un(n);
        const d = n.initializer;
        return mk(n, "forof", { t: ts.isVariableDeclarationList(d) ? pat(d.declarations[0].name) : target(d), decl: ts.isVariableDeclarationList(d), e: expr(n.expression), b: block(n.statement) });
      }
      case S.ReturnStatement: return mk(n, "return", { e: opt(n.expression, expr) });
      case S.BreakStatement: return mk(n, "break", { label: n.label && n.label.text });
      case S.ContinueStatement: return mk(n, "continue", { label: n.label && n.label.text });
      case S.LabeledStatement: return mk(n, "labeled", { label: n.label.text, s: stmt(n.statement) });
      case S.ThrowStatement: return mk(n, "throw", { e: expr(n.expression) });
      case S.TryStatement: return mk(n, "try", { b: n.tryBlock.statements.map(stmt),
        p: n.catchClause && n.catchClause.variableDeclaration ? pat(n.catchClause.variableDeclaration.name) : undefined,
        c: n.catchClause ? n.catchClause.block.statements.map(stmt) : undefined,
        f: n.finallyBlock ? n.finallyBlock.statements.map(stmt) : undefined });
      case S.SwitchStatement: return mk(n, "switch", { e: expr(n.expression),
        cs: n.caseBlock.clauses.map((c) => ({ t: c.expression ? expr(c.expression) : undefined, b: c.statements.map(stmt) })) });
      case S.FunctionDeclaration: {
        if (!n.body) return mk(n, "empty", {});
        const f = fn(n);
        return mk(n, "func", { n: n.name ? n.name.text : "default", f, exp: has(n, S.ExportKeyword), def: has(n, S.DefaultKeyword) });
      }
      case S.ClassDeclaration:
        return has(n, S.DeclareKeyword) ? mk(n, "empty", {}) : mk(n, "classdecl", { n: n.name ? n.name.text : "default", c: cls(n), exp: has(n, S.ExportKeyword), def: has(n, S.DefaultKeyword) });
      case S.EnumDeclaration:
        return mk(n, "enum", { n: n.name.text, exp: has(n, S.ExportKeyword), ms: n.members.map((m) => ({ p: name(m.name), e: opt(m.initializer, expr) })) });
      case S.ImportDeclaration: {
        if (!n.importClause || n.importClause.isTypeOnly) return mk(n, "empty", {});
        const from = resolve(file, n.moduleSpecifier.text);
        deps.push(from);
        const c = n.importClause, ns = [];
        if (c.name) ns.push({ n: c.name.text, from: "default" });
        if (c.namedBindings) {
          if (ts.isNamespaceImport(c.namedBindings)) ns.push({ n: c.namedBindings.name.text, from: "*" });
          else for (const e of c.namedBindings.elements) if (!e.isTypeOnly) ns.push({ n: e.name.text, from: (e.propertyName || e.name).text });
        }
        return mk(n, "import", { from, ns });
      }
      case S.ExportDeclaration: {
        if (n.isTypeOnly) return mk(n, "empty", {});
        const from = n.moduleSpecifier ? resolve(file, n.moduleSpecifier.text) : undefined;
        if (from) deps.push(from);
        const ns = n.exportClause ? (ts.isNamedExports(n.exportClause) ? n.exportClause.elements.filter((e) => !e.isTypeOnly).map((e) => ({ n: e.name.text, from: (e.propertyName || e.name).text })) : [{ n: n.exportClause.name.text, from: "*" }]) : [{ n: "*", from: "*" }];
        return mk(n, "export", { from, ns });
      }
      case S.ExportAssignment: return mk(n, "exportdef", { e: expr(n.expression) });
      case S.DebuggerStatement: return mk(n, "empty", {});
    }
    return un(n);
  }
  const body = sf.statements.map(stmt);
  for (const d of deps) load(d);
  mods[file] = { file, body };
  order.push(file);
}
for (const e of entries) load(path.resolve(e));
fs.writeFileSync(out, JSON.stringify({ order, mods }));
