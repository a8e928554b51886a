// Abstract evaluation of the TypeScript SDK's declarative parts (message layouts, address derivations) from the syntax tree.
// Nothing of the SDK is executed: values are terms; what is outside the fragment becomes an opaque term and is reported by the rule
// that needs it.  usage: node eval.js REPO  -> JSON on stdout
const path = require("path"), fs = require("fs");
const ts = require(process.env.NTT_TS || "/opt/veriftools/node/node_modules/typescript");
const REPO = process.argv[2];
let steps = 0;

// ---- values
const num = v => ({ k: "num", v: BigInt(v) });
const str = v => ({ k: "str", v });
const bool = v => ({ k: "bool", v });
const U = { k: "undef" };
const arr = a => ({ k: "arr", a });
const obj = m => ({ k: "obj", m });
const bytes = b => ({ k: "bytes", b });            // known bytes
const term = (op, ...a) => ({ k: "t", op, a });
const opaque = s => term("opaque", str(String(s)));
class Throw extends Error {}

function show(v) {
  switch (v.k) {
    case "num": return String(v.v);
    case "str": return JSON.stringify(v.v);
    case "bool": return String(v.v);
    case "undef": return "undefined";
    case "bytes": return "x" + Buffer.from(v.b).toString("hex");
    case "arr": return "[" + v.a.map(show).join(",") + "]";
    case "obj": return "{" + [...v.m].map(([k, x]) => k + ":" + show(x)).join(",") + "}";
    case "fn": return "fn";
    case "ext": return v.p;
    case "t": return v.op + "(" + v.a.map(show).join(",") + ")";
  }
}
const same = (a, b) => show(a) === show(b);

// ---- modules
const mods = new Map();
function resolve(from, spec) {
  if (!spec.startsWith(".")) return null;
  const base = path.resolve(path.dirname(from), spec);
  for (const c of [base.replace(/\.js$/, ".ts"), base, base + ".ts", path.join(base, "index.ts")])
    if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
  return null;
}
function load(file) {
  if (mods.has(file)) return mods.get(file);
  const sf = ts.createSourceFile(file, fs.readFileSync(file, "utf8"), ts.ScriptTarget.Latest, true);
  const m = { file, env: { vars: new Map(), up: null, file }, stars: [] };
  mods.set(file, m);
  declare(sf.statements, m.env, m);
  return m;
}
function exportsOf(m, name, seen = new Set()) {
  if (seen.has(m.file)) return null;
  seen.add(m.file);
  const b = m.env.vars.get(name);
  if (b) return force(b);
  for (const f of m.stars) { const r = exportsOf(load(f), name, seen); if (r) return r; }
  return null;
}
function force(b) {
  if (!("val" in b)) { b.val = opaque("cycle"); b.val = b.get(); }
  return b.val;
}
const lazy = get => ({ get });
const known = val => ({ val });
function declare(stmts, env, m) {
  for (const s of stmts) {
    if (ts.isImportDeclaration(s) && s.importClause && m) {
      const spec = s.moduleSpecifier.text, f = resolve(m.file, spec), nb = s.importClause.namedBindings;
      if (nb && ts.isNamedImports(nb)) for (const e of nb.elements) {
        const n = (e.propertyName || e.name).text;
        env.vars.set(e.name.text, lazy(() => (f && exportsOf(load(f), n)) || sdk(spec, n) || { k: "ext", p: n }));
      } else if (nb) env.vars.set(nb.name.text, f ? lazy(() => nsOf(load(f))) : known({ k: "ext", p: nb.name.text }));
      if (s.importClause.name) env.vars.set(s.importClause.name.text, known({ k: "ext", p: s.importClause.name.text }));
    } else if (ts.isExportDeclaration(s) && m && s.moduleSpecifier && !s.isTypeOnly) {
      const f = resolve(m.file, s.moduleSpecifier.text);
      if (f && !s.exportClause) m.stars.push(f);
      if (f && s.exportClause && ts.isNamedExports(s.exportClause)) for (const e of s.exportClause.elements)
        env.vars.set(e.name.text, lazy(() => exportsOf(load(f), (e.propertyName || e.name).text) || opaque(e.name.text)));
    } else if (ts.isVariableStatement(s)) {
      for (const d of s.declarationList.declarations)
        if (ts.isIdentifier(d.name)) env.vars.set(d.name.text, lazy(() => (d.initializer ? ev(d.initializer, env) : U)));
    } else if (ts.isFunctionDeclaration(s) && s.name && s.body) env.vars.set(s.name.text, known({ k: "fn", n: s, env }));
    else if (ts.isEnumDeclaration(s)) env.vars.set(s.name.text, known(opaque("enum")));
    else if (ts.isClassDeclaration(s) && s.name) env.vars.set(s.name.text, known({ k: "cls", n: s, env }));
    else if (ts.isModuleDeclaration(s) && s.body && ts.isModuleBlock(s.body) && ts.isIdentifier(s.name)) {
      const e2 = { vars: new Map(), up: env, file: env.file };
      declare(s.body.statements, e2, null);
      env.vars.set(s.name.text, known({ k: "ns", env: e2 }));
    }
  }
}
const nsOf = m => ({ k: "ns", env: m.env, m });
// the workspace's own packages
const PKG = { "@wormhole-foundation/sdk-definitions-ntt": "sdk/definitions/src/index.ts" };
function sdk(spec, n) {
  const f = PKG[spec] && path.join(REPO, PKG[spec]);
  return f && fs.existsSync(f) ? exportsOf(load(f), n) : null;
}
function lookup(env, n) {
  for (let e = env; e; e = e.up) if (e.vars.has(n)) return force(e.vars.get(n));
  if (n === "undefined") return U;
  return { k: "ext", p: n };
}
function assign(env, n, v) {
  for (let e = env; e; e = e.up) if (e.vars.has(n)) { e.vars.set(n, known(v)); return; }
}

// ---- byte terms
function cat(...xs) {
  const out = [];
  for (const x of xs.flatMap(x => (x.k === "t" && x.op === "cat" ? x.a : [x]))) {
    const l = out[out.length - 1];
    if (x.k === "bytes" && !x.b.length) continue;
    if (x.k === "bytes" && l && l.k === "bytes") out[out.length - 1] = bytes([...l.b, ...x.b]);
    else out.push(x);
  }
  // whole big-endian numbers out of their bytes
  for (let i = 0; i < out.length; i++) {
    const x = out[i];
    if (x.k === "t" && x.op === "byte" && x.a[1].v === x.a[2].v - 1n) {
      const n = Number(x.a[2].v), w = out.slice(i, i + n);
      if (w.length === n && w.every((y, j) => y.k === "t" && y.op === "byte" && same(y.a[0], x.a[0]) && Number(y.a[1].v) === n - 1 - j))
        out.splice(i, n, term("be", x.a[0], num(n)));
    }
  }
  return out.length === 1 ? out[0] : out.length ? term("cat", ...out) : bytes([]);
}
function len(v) {
  if (v.k === "bytes") return num(v.b.length);
  if (v.k === "arr" && !v.a.some(x => x.k === "spread")) return num(v.a.length);
  if (v.k === "t" && v.op === "cat") return v.a.map(len).reduce(add);
  if (v.k === "t" && v.op === "be") return v.a[1];
  if (v.k === "t" && (v.op === "byte" || v.op === "digit")) return num(1);
  return term("len", v);
}
function add(a, b) {
  if (a.k === "num" && b.k === "num") return num(a.v + b.v);
  if (a.k === "num") [a, b] = [b, a];
  if (b.k === "num" && b.v === 0n) return a;
  if (b.k === "num" && a.k === "t" && a.op === "add" && a.a[1].k === "num") return add(a.a[0], num(a.a[1].v + b.v));
  return term("add", a, b);
}
// least value of a non-negative integer term
function least(v) {
  if (v.k === "num") return v.v;
  if (v.k === "t" && v.op === "add") { const a = least(v.a[0]), b = least(v.a[1]); return a === null || b === null ? null : a + b; }
  if (v.k === "t" && v.op === "len") return v.a[0].k === "t" && v.a[0].op === "some" ? 1n : 0n;
  return null;
}
// a number stored into one byte of an array keeps its lowest octet
function octet(x) {
  if (x.k === "num") return bytes([Number(x.v & 255n)]);
  if (x.k !== "t") return opaque(show(x));
  if (x.op === "byte" || x.op === "digit") return x;
  if (x.op === "b2i") return term("be", x, num(1));
  if (x.op === "shr" && x.a[1].k === "num" && x.a[1].v % 8n === 0n) return term("digit", x.a[0], num(x.a[1].v / 8n));
  if (x.op === "chainid" || x.op === "len") return term("digit", x, num(0));
  return opaque(show(x));
}
// runs of falling digits of one number, as bytes of its big-endian form
function digits(out) {
  let n = 0n;
  return out.map((x, i) => {
    if (x.k !== "t" || x.op !== "digit") return x;
    const p = out[i - 1];
    if (!(p && p.k === "t" && p.op === "digit" && same(p.a[0], x.a[0]) && p.a[1].v === x.a[1].v + 1n)) n = x.a[1].v + 1n;
    return term("byte", x.a[0], x.a[1], num(n));
  });
}
function toBytes(v) {
  if (v.k === "buf") return toBytes(frozen(v));
  if (v.k === "num") return bytes(Array(Number(v.v)).fill(0));
  if (v.k === "arr") return cat(...digits(v.a.map(x => (x.k === "spread" ? toBytes(x.v) : octet(x)))));
  return v;
}
function slice(v, lo, hi) {
  if (v.k === "bytes" && lo.k === "num" && (!hi || hi.k === "num")) return bytes(v.b.slice(Number(lo.v), hi ? Number(hi.v) : undefined));
  if (v.k === "t" && v.op === "cat") {
    let pos = num(0), out = null;
    for (const x of v.a) {
      if (same(pos, lo) && !out) out = [];
      if (out && hi && same(pos, hi)) return cat(...out);
      if (out) out.push(x);
      pos = add(pos, len(x));
    }
    if (out && (!hi || same(pos, hi))) return cat(...out);
  }
  return term("slice", v, lo, hi || U);
}

// ---- expressions
function cmp(op, a, b) {
  if (op === "===" || op === "==" || op === "!==" || op === "!=") {
    const neg = op[0] === "!";
    if (a.k === "t" || b.k === "t" || a.k === "ext" || b.k === "ext") {
      if (same(a, b)) return bool(!neg);
      const [x, y] = a.k === "num" ? [b, a] : [a, b];
      const l = least(x);
      if (y.k === "num" && l !== null && l > y.v) return bool(neg);
      if ((a.k === "undef" || b.k === "undef") && (a.op || b.op)) return bool(neg);
      return term(neg ? "ne" : "eq", a, b);
    }
    return bool(same(a, b) !== neg);
  }
  if (a.k === "num" && b.k === "num")
    return bool(op === "<" ? a.v < b.v : op === "<=" ? a.v <= b.v : op === ">" ? a.v > b.v : a.v >= b.v);
  if (op === "<" || op === "<=") return cmp(op === "<" ? ">" : ">=", b, a);
  const l = least(a), h = b.k === "num" ? b.v : null;
  if (l !== null && h !== null && (op === ">" ? l > h : l >= h)) return bool(true);
  if (a.k === "num" && least(b) !== null && (op === ">" ? a.v <= least(b) : a.v < least(b))) return bool(false);
  return term(op, a, b);
}
function arith(op, a, b) {
  if (op === "+") {
    if (a.k === "str" && b.k === "str") return str(a.v + b.v);
    return add(a, b);
  }
  if (a.k === "num" && b.k === "num") {
    const x = a.v, y = b.v;
    switch (op) {
      case "-": return num(x - y);
      case "*": return num(x * y);
      case "**": return num(x ** y);
      case "/": return y && x % y === 0n ? num(x / y) : opaque("/");
      case "%": return num(x % y);
      case ">>": case ">>>": return num(x >> y);
      case "<<": return num(x << y);
      case "&": return num(x & y);
      case "|": return num(x | y);
    }
  }
  if (op === ">>" || op === ">>>") return term("shr", a, b);
  if (op === "&" && b.k === "num" && b.v === 255n) {
    // byte number k (from the low end) of a number
    if (a.k === "t" && a.op === "shr" && a.a[1].k === "num" && a.a[1].v % 8n === 0n) return term("digit", a.a[0], num(a.a[1].v / 8n));
    return term("digit", a, num(0));
  }
  if (op === "<<" && b.k === "num") return term("shl", a, b);
  if (op === "|" || op === "+") {
    if (a.k === "num" && a.v === 0n) return b;
    if (b.k === "num" && b.v === 0n) return a;
    return whole(term("or", ...(a.op === "or" ? a.a : [a]), ...(b.op === "or" ? b.a : [b])));
  }
  if (op === "*" && b.k === "num" && [256n, 65536n].includes(b.v)) return term("shl", a, num(b.v === 256n ? 8 : 16));
  return term(op, a, b);
}
// or of all the shifted bytes of a big-endian number
function whole(v) {
  const ds = v.a.map(x => (x.op === "shl" ? [x.a[0], x.a[1].v] : [x, 0n]));
  if (!ds.every(([d]) => d.op === "byte")) return v;
  const n = Number(ds[0][0].a[2].v);
  if (ds.length === n && ds.every(([d, s]) => same(d.a[0], ds[0][0].a[0]) && d.a[1].v * 8n === s) && new Set(ds.map(([d]) => d.a[1].v)).size === n) return ds[0][0].a[0];
  return v;
}
function index(v, i) {
  if (i.k === "num") {
    const n = Number(i.v);
    if (v.k === "arr" && !v.a.some(x => x.k === "spread")) return v.a[n] || U;
    if (v.k === "bytes") return n < v.b.length ? num(v.b[n]) : U;
    if (v.k === "t" && v.op === "cat") {
      let pos = 0;
      for (const x of v.a) {
        const l = len(x);
        if (l.k !== "num") break;
        if (n < pos + Number(l.v)) return index(x, num(n - pos));
        pos += Number(l.v);
      }
    }
    if (v.k === "t" && v.op === "be") return term("byte", v.a[0], num(Number(v.a[1].v) - 1 - n), v.a[1]);
    if (v.k === "buf") return v.a[n];
  }
  return term("index", v, i);
}
function prop(v, n) {
  if (v.k === "obj") return v.m.get(n) || U;
  if (v.k === "ns") {
    const b = v.env.vars.get(n);
    return b ? force(b) : (v.m && exportsOf(v.m, n)) || opaque(n);
  }
  if (v.k === "ext") return { k: "ext", p: v.p + "." + n };
  if (n === "length" || n === "byteLength") {
    if (v.k === "str") return num(v.v.length);
    if (v.k === "buf") return v.size || num(v.a.length);
    return len(v);
  }
  if (n === "buffer" && v.k === "buf") return v;
  return term("fld", v, str(n));
}
function truth(v) {
  if (v.k === "bool") return v.v;
  if (v.k === "num") return v.v !== 0n;
  if (v.k === "str") return v.v !== "";
  if (v.k === "undef") return false;
  if (v.k === "t") { const l = least(v); return l !== null && l > 0n ? true : null; }
  return v.k === "ext" ? null : true;
}
function ev(n, env) {
  if (++steps > 2e6) throw new Error("too many steps");
  const E = x => ev(x, env);
  if (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isTypeAssertionExpression(n) ||
      (ts.isSatisfiesExpression && ts.isSatisfiesExpression(n))) return E(n.expression);
  if (ts.isNumericLiteral(n)) return /[.e]/i.test(n.text) && !/^0x/i.test(n.text) ? opaque(n.text) : num(n.text);
  if (ts.isBigIntLiteral(n)) return num(n.text.replace(/n$/, ""));
  if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return str(n.text);
  if (n.kind === ts.SyntaxKind.TrueKeyword) return bool(true);
  if (n.kind === ts.SyntaxKind.FalseKeyword) return bool(false);
  if (n.kind === ts.SyntaxKind.ThisKeyword) return lookup(env, "this");
  if (ts.isIdentifier(n)) return lookup(env, n.text);
  if (ts.isArrayLiteralExpression(n)) {
    const out = [];
    for (const e of n.elements) {
      if (!ts.isSpreadElement(e)) { out.push(E(e)); continue; }
      const v = frozen(E(e.expression));
      if (v.k === "arr") out.push(...v.a);
      else if (v.k === "bytes") out.push(...v.b.map(num));
      else out.push({ k: "spread", v });
    }
    return arr(out);
  }
  if (ts.isObjectLiteralExpression(n)) {
    const m = new Map();
    for (const p of n.properties) {
      if (ts.isSpreadAssignment(p)) {
        const v = E(p.expression);
        if (v.k === "obj") for (const [k, x] of v.m) m.set(k, x);
        else if (v.k !== "undef") m.set("...", v);
      } else if (ts.isPropertyAssignment(p)) m.set(p.name.text ?? show(E(p.name.expression)), E(p.initializer));
      else if (ts.isShorthandPropertyAssignment(p)) m.set(p.name.text, lookup(env, p.name.text));
      else if (ts.isMethodDeclaration(p)) m.set(p.name.text, { k: "fn", n: p, env });
    }
    return obj(m);
  }
  if (ts.isArrowFunction(n) || ts.isFunctionExpression(n)) return { k: "fn", n, env };
  if (ts.isPropertyAccessExpression(n)) return prop(E(n.expression), n.name.text);
  if (ts.isElementAccessExpression(n)) {
    const o = E(n.expression), i = E(n.argumentExpression);
    return i.k === "str" ? prop(o, i.v) : index(o, i);
  }
  if (ts.isConditionalExpression(n)) {
    const c = E(n.condition), t = truth(c);
    if (t !== null) return E(t ? n.whenTrue : n.whenFalse);
    const a = E(n.whenTrue), b = E(n.whenFalse);
    if (same(a, b)) return a;
    if (a.k === "num" && b.k === "num" && a.v === 1n && b.v === 0n) return term("b2i", c);
    return term("ite", c, a, b);
  }
  if (ts.isTypeOfExpression(n)) {
    const v = E(n.expression);
    return v.k === "str" ? str("string") : v.k === "num" ? str("number") : v.k === "bool" ? str("boolean") : v.k === "undef" ? str("undefined") : v.k === "fn" ? str("function") : str("object");
  }
  if (ts.isPrefixUnaryExpression(n)) {
    if (n.operator === ts.SyntaxKind.PlusPlusToken || n.operator === ts.SyntaxKind.MinusMinusToken) {
      const v = arith(n.operator === ts.SyntaxKind.PlusPlusToken ? "+" : "-", E(n.operand), num(1));
      assign(env, n.operand.text, v);
      return v;
    }
    const v = E(n.operand);
    if (n.operator === ts.SyntaxKind.ExclamationToken) { const t = truth(v); return t === null ? term("not", v) : bool(!t); }
    if (n.operator === ts.SyntaxKind.MinusToken && v.k === "num") return num(-v.v);
    return n.operator === ts.SyntaxKind.PlusToken ? v : opaque("unary");
  }
  if (ts.isPostfixUnaryExpression(n)) {
    const old = E(n.operand);
    assign(env, n.operand.text, arith(n.operator === ts.SyntaxKind.PlusPlusToken ? "+" : "-", old, num(1)));
    return old;
  }
  if (ts.isBinaryExpression(n)) return binary(n, env);
  if (ts.isCallExpression(n)) return call(n, env);
  if (ts.isNewExpression(n)) return construct(n, env);
  if (ts.isTemplateExpression(n)) return opaque("template");
  if (ts.isAwaitExpression(n)) return E(n.expression);
  return opaque(ts.SyntaxKind[n.kind]);
}
function binary(n, env) {
  const op = n.operatorToken.getText();
  if (op === "&&" || op === "||" || op === "??") {
    const a = ev(n.left, env);
    if (op === "??") return a.k === "undef" ? ev(n.right, env) : a;
    const t = truth(a);
    if (t === null) return term(op, a, ev(n.right, env));
    return (op === "&&") === t ? ev(n.right, env) : a;
  }
  if (/^([-+*/|&]|>>|<<|\*\*)?=$/.test(op)) {
    let v = ev(n.right, env);
    if (op !== "=") v = arith(op.slice(0, -1), ev(n.left, env), v);
    if (ts.isIdentifier(n.left)) assign(env, n.left.text, v);
    else if (ts.isElementAccessExpression(n.left)) {
      const o = ev(n.left.expression, env), i = ev(n.left.argumentExpression, env);
      if (o.k === "buf" && o.size) o.parts.push({ off: i, v: octet(v) });
      else if (o.k === "buf" && i.k === "num" && Number(i.v) < o.a.length) o.a[Number(i.v)] = v;
      else if (o.k === "buf") o.a = [opaque("store")];
    } else if (ts.isPropertyAccessExpression(n.left)) {
      const o = ev(n.left.expression, env);
      if (o.k === "obj") o.m.set(n.left.name.text, v);
    }
    return v;
  }
  const a = ev(n.left, env), b = ev(n.right, env);
  return /^([<>]=?|[!=]==?)$/.test(op) ? cmp(op, frozen(a), frozen(b)) : arith(op, a, b);
}
// a mutable buffer as the bytes it now holds
function frozen(v) {
  if (v.k !== "buf") return v;
  if (v.size) {
    // filled from parts at symbolic offsets: they must tile the whole buffer
    let pos = num(0);
    const out = [];
    for (let n = v.parts.length; n >= 0 && !same(pos, v.size); n--) {
      const x = v.parts.findLast(y => same(y.off, pos));
      if (!x) return opaque("partly filled buffer");
      out.push(x.v);
      pos = add(pos, len(x.v));
    }
    return same(pos, v.size) ? cat(...digits(out)) : opaque("overfilled buffer");
  }
  return cat(...digits(v.a.map(octet)));
}
function construct(n, env) {
  const c = ev(n.expression, env), a = (n.arguments || []).map(x => ev(x, env)).map(frozen);
  const p = c.k === "ext" ? c.p : "";
  if (p === "Uint8Array" || p === "Array") {
    if (!a.length) return { k: "buf", a: [] };
    if (a[0].k === "t" && (a[0].op === "add" || a[0].op === "len")) return { k: "buf", a: [], size: a[0], parts: [] };
    if (a[0].k === "num") return { k: "buf", a: Array(Number(a[0].v)).fill(num(0)) };
    return toBytes(a[0]);
  }
  if (p === "DataView") return { k: "view", of: (n.arguments || []).length === 1 ? ev(n.arguments[0], env) : opaque("view") };
  if (p === "PublicKey" || p === "BN" || p === "UniversalAddress") return a[0];
  return term("new", c, ...a);
}
function run(fn, args, self) {
  const env = { vars: new Map(), up: fn.env, file: fn.env.file };
  if (self) env.vars.set("this", known(self));
  fn.n.parameters.forEach((p, i) => {
    const v = p.dotDotDotToken ? arr(args.slice(i)) : args[i] !== undefined && args[i].k !== "undef" ? args[i] : p.initializer ? ev(p.initializer, env) : U;
    bind(p.name, v, env);
  });
  if (!fn.n.body) return opaque("no body");
  if (!ts.isBlock(fn.n.body)) return ev(fn.n.body, env);
  const r = block(fn.n.body.statements, env);
  return r === null ? U : r;
}
function bind(name, v, env) {
  if (ts.isIdentifier(name)) env.vars.set(name.text, known(v));
  else if (ts.isObjectBindingPattern(name)) for (const e of name.elements) bind(e.name, prop(v, (e.propertyName || e.name).text), env);
  else if (ts.isArrayBindingPattern(name)) name.elements.forEach((e, i) => e.name && bind(e.name, index(v, num(i)), env));
}
// value returned, or null when control reaches the end
function block(stmts, env) {
  for (const s of stmts) if (ts.isFunctionDeclaration(s)) env.vars.set(s.name.text, known({ k: "fn", n: s, env }));
  for (const s of stmts) { const r = stmt(s, env); if (r !== null) return r; }
  return null;
}
const inner = env => ({ vars: new Map(), up: env, file: env.file });
function stmt(s, env) {
  if (++steps > 2e6) throw new Error("too many steps");
  if (ts.isReturnStatement(s)) return s.expression ? ev(s.expression, env) : U;
  if (ts.isVariableStatement(s)) { for (const d of s.declarationList.declarations) bind(d.name, d.initializer ? ev(d.initializer, env) : U, env); return null; }
  if (ts.isExpressionStatement(s)) { ev(s.expression, env); return null; }
  if (ts.isBlock(s)) return block(s.statements, inner(env));
  if (ts.isThrowStatement(s)) throw new Throw();
  if (ts.isIfStatement(s)) {
    const t = truth(ev(s.expression, env));
    if (t !== null) return t ? stmt(s.thenStatement, inner(env)) : s.elseStatement ? stmt(s.elseStatement, inner(env)) : null;
    // undecided: a branch that throws is not taken by values that are encoded
    try { stmt(s.thenStatement, inner(env)); } catch (e) {
      if (!(e instanceof Throw)) throw e;
      return s.elseStatement ? stmt(s.elseStatement, inner(env)) : null;
    }
    return opaque("undecided branch: " + s.expression.getText());
  }
  if (ts.isForStatement(s) || ts.isWhileStatement(s)) {
    const e = inner(env);
    if (s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) for (const d of s.initializer.declarations) bind(d.name, ev(d.initializer, e), e); else ev(s.initializer, e); }
    for (let i = 0; i < 300; i++) {
      const c = s.condition || (ts.isWhileStatement(s) && s.expression), t = c ? truth(ev(c, e)) : true;
      if (t === null) return opaque("undecided loop");
      if (!t) return null;
      const r = stmt(s.statement, inner(e));
      if (r !== null) return r;
      if (s.incrementor) ev(s.incrementor, e);
    }
    return opaque("long loop");
  }
  if (ts.isForOfStatement(s)) {
    const v = frozen(ev(s.expression, env));
    const it = v.k === "arr" ? v.a : v.k === "bytes" ? v.b.map(num) : null;
    if (!it || !ts.isVariableDeclarationList(s.initializer)) return opaque("loop");
    for (const x of it) { const e = inner(env); bind(s.initializer.declarations[0].name, x, e); const r = stmt(s.statement, e); if (r !== null) return r; }
    return null;
  }
  if (ts.isFunctionDeclaration(s) || ts.isInterfaceDeclaration(s) || ts.isTypeAliasDeclaration(s) || ts.isEmptyStatement(s)) return null;
  return opaque(ts.SyntaxKind[s.kind]);
}
function call(n, env) {
  const args = [];
  for (const a of n.arguments) {
    if (!ts.isSpreadElement(a)) { args.push(ev(a, env)); continue; }
    const v = frozen(ev(a.expression, env));
    if (v.k === "arr") args.push(...v.a); else args.push({ k: "spread", v });
  }
  const ce = n.expression;
  const fr = args.map(frozen);
  if (ts.isPropertyAccessExpression(ce)) {
    const o = ev(ce.expression, env), m = ce.name.text;
    if (o.k === "obj" || o.k === "ns" || o.k === "ext") {
      const f = prop(o, m);
      if (f.k === "fn") return run(f, args);
      if (f.k === "ext") return external(f.p, fr);
      return opaque(m);
    }
    return method(o, m, fr, args);
  }
  const f = ev(ce, env);
  if (f.k === "fn") return run(f, args);
  if (f.k === "ext") return external(f.p, fr);
  return opaque("call");
}
function method(o, m, a, raw) {
  if (o.k === "view") {
    const w = { setUint8: 1, setUint16: 2, setUint32: 4, setBigUint64: 8 }[m];
    if (!w || o.of.k !== "buf" || o.of.size || a[0].k !== "num") return opaque("view." + m);
    const big = !a[2] || a[2].k === "undef" || a[2].k === "bool" && !a[2].v;
    for (let i = 0; i < w; i++) o.of.a[Number(a[0].v) + i] = a[1].k === "num" ? num((a[1].v >> BigInt(8 * (w - 1 - i))) & 255n) : big ? term("digit", a[1], num(w - 1 - i)) : opaque("little endian");
    return U;
  }
  if (o.k === "buf") {
    if (m === "set" && o.size) { o.parts.push({ off: a[1] || num(0), v: toBytes(a[0]) }); return U; }
    if (m === "set" && a[1] === undefined || m === "set" && a[1].k === "num") {
      const off = a[1] ? Number(a[1].v) : 0, v = toBytes(a[0]);
      const l = len(v);
      if (l.k === "num") { for (let i = 0; i < Number(l.v); i++) o.a[off + i] = index(v, num(i)); return U; }
      o.a = [opaque("set")];
      return U;
    }
    if (m === "fill") { o.a = o.a.map(() => a[0]); return o; }
    o = frozen(o);
  }
  if (o.k === "arr") {
    if (m === "map") return arr(o.a.map((x, i) => run(raw[0], [x, num(i)])));
    if (m === "concat") return arr([...o.a, ...a.flatMap(x => (x.k === "arr" ? x.a : [x]))]);
    if (m === "push") { o.a.push(...a); return num(o.a.length); }
    if (m === "flat") return arr(o.a.flatMap(x => (x.k === "arr" ? x.a : [x])));
    if (m === "reverse") { o.a.reverse(); return o; }
    if (m === "slice" && a.every(x => x.k === "num")) return arr(o.a.slice(...a.map(x => Number(x.v))));
  }
  if (o.k === "str") {
    if (m === "toString") return o;
    if (m === "concat" && a.every(x => x.k === "str")) return str(o.v + a.map(x => x.v).join(""));
  }
  if (m === "slice" || m === "subarray") return slice(o, a[0] || num(0), a[1]);
  // the same bytes in other clothes
  if (["toBytes", "toBuffer", "toUint8Array", "toArray", "toUniversalAddress"].includes(m)) {
    if (m === "toArray" && a.length) {
      const big = !a[0] || a[0].k === "undef" || a[0].k === "str" && a[0].v === "be";
      if (a[1] && a[1].k === "num") return term(big ? "be" : "le", o, a[1]);
      return big ? term("minbe", o) : opaque("toArray le");
    }
    return m === "toArray" ? term("minbe", o) : o;
  }
  return term("call", o, str(m), ...a);
}
function external(p, a) {
  switch (p) {
    case "encoding.bytes.encode": return a[0].k === "str" ? bytes([...Buffer.from(a[0].v)]) : opaque(p);
    case "Buffer.from": case "Uint8Array.from": case "Array.from": case "encoding.b58.decode":
      if (p === "Buffer.from" && a[0].k === "str") return bytes([...Buffer.from(a[0].v)]);
      if (p === "encoding.b58.decode") return opaque(p);
      if (p === "Array.from" && a[0].k !== "arr") return a[0];
      return toBytes(a[0]);
    case "Uint8Array.of": case "Array.of": return toBytes(arr(a));
    case "encoding.bytes.concat": return cat(...a.map(toBytes));
    case "Buffer.concat": return a[0].k === "arr" ? cat(...a[0].a.map(toBytes)) : opaque(p);
    case "encoding.bytes.zpad": {
      const x = a[0];
      if (x.k === "t" && x.op === "minbe" && a[1].k === "num" && (!a[2] || a[2].k === "bool" && a[2].v)) return term("be", x.a[0], a[1]);
      if (x.k === "bytes" && a[1].k === "num" && !a[2]) return bytes([...Array(Math.max(0, Number(a[1].v) - x.b.length)).fill(0), ...x.b]);
      return opaque(p);
    }
    case "encoding.bignum.toBytes": return a[1] ? (a[0].k === "num" && a[1].k === "num" ? bytes(Array.from({ length: Number(a[1].v) }, (_, i) => Number((a[0].v >> BigInt(8 * (Number(a[1].v) - 1 - i))) & 255n))) : term("be", a[0], a[1])) : opaque(p);
    case "toChainId": case "chainToChainId": return a[0].k === "t" && a[0].op === "chainid" ? a[0] : term("chainid", a[0]);
    case "keccak256": return term("keccak", toBytes(a[0]));
    case "serializeLayout": return term("layout", str(canon(flat(a[0]))), a[1]);
    case "BigInt": case "Number": case "Object.freeze": case "String": return a[0];
    case "Array.isArray": return bool(a[0].k === "arr");
    case "PublicKey.findProgramAddressSync": return arr([term("pda", a[0].k === "arr" ? arr(a[0].a.map(toBytes)) : a[0], a[1]), opaque("bump")]);
    case "layoutItems.chainItem": {
      const o = a[0] && a[0].k === "obj" ? a[0].m : new Map();
      return obj(new Map([["binary", str("uint")], ["size", num(2)], ["custom", term("chain")]]
        .concat(o.has("allowNull") || o.has("custom") ? [["chainopts", opaque("options")]] : [])));
    }
    case "customizableBytes": {
      const m = new Map(a[0].m);
      m.set("binary", str("bytes"));
      const s = a[1] || U;
      if (s.k === "undef") return obj(m);
      if (s.k === "bytes") { m.set("custom", s); return obj(m); }
      if (s.k === "arr" && s.a.length === 2 && s.a[0].k === "arr" && s.a[1].k === "obj" && !s.a[1].m.has("binary")) { m.set("layout", s.a[0]); m.set("custom", s.a[1]); return obj(m); }
      if (s.k === "arr" || s.k === "obj" && s.m.has("binary")) { m.set("layout", s); return obj(m); }
      m.set("custom", s);
      return obj(m);
    }
  }
  return term("call", { k: "ext", p }, ...a);
}
// ---- layouts: list of [name, shape]
function flat(l) {
  if (l.k === "ext" && l.p === "layoutItems.universalAddressItem") return [["", "bytes32"]];
  if (l.k === "obj") return [item(l)];
  if (l.k === "arr") return l.a.map(item);
  return [["?", show(l)]];
}
function get(m, k) { return m.get(k) || U; }
function item(o) {
  if (o.k !== "obj") return ["?", show(o)];
  let m = o.m;
  const sp = m.get("...");
  if (sp) {
    if (sp.k === "ext" && sp.p === "layoutItems.universalAddressItem") m = new Map([["binary", str("bytes")], ["size", num(32)], ...m]);
    else return [show(get(m, "name")), show(sp)];
    m.delete("...");
  }
  const name = get(m, "name").k === "str" ? m.get("name").v : "", bin = get(m, "binary"), size = get(m, "size"), custom = frozen(get(m, "custom"));
  const ls = get(m, "lengthSize");
  const endian = e => (get(m, e).k === "undef" || same(get(m, e), str("big")) ? "" : "little");
  const pre = ls.k === "num" ? "len" + ls.v + endian("lengthEndianness") + ":" : ls.k === "undef" ? "" : "len?:";
  if (m.has("chainopts")) return [name, "chain?"];
  if (bin.k !== "str") return [name, "?" + show(o)];
  if (bin.v === "uint" || bin.v === "int") {
    if (custom.k === "num") return [name, "const" + custom.v.toString(16).padStart(2 * Number(size.v), "0")];
    return [name, bin.v + show(size) + endian("endianness") + (custom.k === "undef" || custom.op === "chain" ? "" : conv(custom))];
  }
  if (bin.v === "bytes") {
    if (m.has("layout")) return [name, pre + (size.k === "num" ? "size" + size.v : "") + "{" + canon(flat(m.get("layout"))) + "}"];
    if (custom.k === "bytes") return [name, pre + "const" + Buffer.from(custom.b).toString("hex")];
    if (custom.k === "obj") return [name, pre + "bytes" + (size.k === "num" ? size.v : "") + conv(custom)];
    return [name, pre + "bytes" + (size.k === "num" ? size.v : "")];
  }
  return [name, "?" + bin.v];
}
// what a byte conversion does to the empty and to a non-empty string, both ways
function conv(c) {
  if (c.k !== "obj" || get(c.m, "from").k !== "fn" || get(c.m, "to").k !== "fn") return "?" + show(c);
  const x = term("some", str("v"));
  const f = v => { try { return show(frozen(run(v[0], [v[1]]))); } catch (e) { if (e instanceof Throw) return "throws"; throw e; } };
  const enc = frozen(run(get(c.m, "from"), [x]));
  return "<empty->" + f([get(c.m, "from"), bytes([])]) + " some->" + show(enc) + " back " + f([get(c.m, "to"), bytes([])]) + " " + f([get(c.m, "to"), enc]) + ">";
}
const canon = l => l.map(([n, s]) => (n ? n + "=" : "") + s).join(" ");

// ---- targets
const out = { layouts: {}, pdas: {} };
function guard(o, k, f) { try { o[k] = f(); } catch (e) { o[k] = "undecided: " + e.message; } }
const L = load(path.join(REPO, "sdk/definitions/src/layouts/index.ts"));
const named = exportsOf(L, "nttNamedPayloads");
const entry = n => { const e = named.a.find(x => x.a[0].k === "str" && x.a[0].v === n); if (!e) throw new Error("no payload " + n); return e.a[1]; };
for (const n of ["WormholeTransfer", "TransceiverInfo", "TransceiverRegistration"]) guard(out.layouts, n, () => canon(flat(entry(n))));
const callx = (n, ...a) => { const f = exportsOf(L, n); if (!f || f.k !== "fn") throw new Error("no " + n); return run(f, a); };
guard(out.layouts, "trimmedAmount", () => canon([item(exportsOf(L, "trimmedAmountItem"))]));
guard(out.layouts, "nativeTokenTransfer", () => canon(flat(exportsOf(L, "nativeTokenTransferLayout"))));
guard(out.layouts, "nttManagerMessage", () => canon(flat(callx("nttManagerMessageLayout"))));
guard(out.layouts, "transceiverMessage", () => canon(flat(callx("transceiverMessageLayout", arr([1, 2, 3, 4].map(num))))));
guard(out.layouts, "transceiverInstruction", () => canon(flat(callx("transceiverInstructionLayout"))));

const nttm = load(path.join(REPO, "solana/ts/lib/ntt.ts"));
const S = n => term("arg", str(n));
const chain = S("chain");
function derive(o, prefix, root, fns) {
  for (const [n, args] of Object.entries(fns)) guard(o, prefix + n, () => {
    const f = prop(root(), n);
    if (f.k !== "fn") throw new Error("no function " + n);
    return show(run(f, args));
  });
}
const prog = S("program");
const NTT = () => exportsOf(nttm, "NTT");
const targs = obj(new Map([["amount", S("amount")], ["recipientChain", obj(new Map([["id", term("chainid", chain)]]))], ["recipientAddress", S("recipient")], ["shouldQueue", S("queue")]]));
derive(out.pdas, "manager.", () => run(prop(NTT(), "pdas"), [prog]), {
  configAccount: [], outboxRateLimitAccount: [], inboxRateLimitAccount: [chain], inboxItemAccount: [chain, S("message")], tokenAuthority: [],
  peerAccount: [chain], registeredTransceiver: [S("transceiver")], lutAccount: [], lutAuthority: [], sessionAuthority: [S("sender"), targs],
});
derive(out.pdas, "transceiver.", () => run(prop(NTT(), "transceiverPdas"), [prog]), {
  emitterAccount: [], outboxItemSigner: [], transceiverPeerAccount: [chain], transceiverMessageAccount: [chain, S("id")], wormholeMessageAccount: [S("outboxItem")],
});
const um = load(path.join(REPO, "solana/ts/lib/utils.ts"));
derive(out.pdas, "quoter.", () => run(exportsOf(um, "quoterAddresses"), [prog]), {
  instanceAccount: [], registeredNttAccount: [S("ntt")], relayRequestAccount: [S("outboxItem")], registeredChainAccount: [chain],
});
guard(out.pdas, "programData", () => show(run(exportsOf(um, "programDataAddress"), [prog])));
const qm = load(path.join(REPO, "solana/ts/lib/quoter.ts"));
for (const [n, a] of [["registeredChainPda", [chain]], ["registeredNttPda", [S("ntt")]], ["relayRequestPda", [S("outboxItem")]]])
  guard(out.pdas, "quoterClient." + n, () => {
    let c = null;
    for (const [, b] of qm.env.vars) { const v = force(b); if (v.k === "cls" && v.n.members.some(x => x.name && x.name.text === n)) c = v; }
    if (!c) throw new Error("no method " + n);
    const mem = c.n.members.find(x => x.name && x.name.text === n);
    return show(run({ k: "fn", n: mem, env: c.env }, a, obj(new Map([["program", obj(new Map([["programId", prog]]))]]))));
  });
guard(out.pdas, "messageDigest", () => {
  const d = load(path.join(REPO, "sdk/definitions/src/ntt.ts"));
  return show(run(prop(exportsOf(d, "Ntt"), "messageDigest"), [chain, S("message")]));
});
out.files = [...mods.keys()].map(f => path.relative(REPO, f));
out.steps = steps;
console.log(JSON.stringify(out, null, 1));
