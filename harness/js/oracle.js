'use strict';
// Oracle co-process: length-prefixed JSON requests on stdin, replies on stdout.
const fs = require('fs');
const path = require('path');
const acorn = require(path.join(__dirname, 'acorn.js'));

const SKIP = new Set(['start', 'end', 'range', 'loc', 'parent']);
const LISTS = new Set(['Program', 'BlockStatement', 'StaticBlock', 'SwitchCase']);

// A canonical tree: positions dropped, literals by value, empty statements in lists dropped
// (they mean nothing there).
function canon(n) {
  if (Array.isArray(n)) return n.map(canon);
  if (n === null || typeof n !== 'object') {
    if (typeof n === 'bigint') return 'bigint:' + n;
    return n === undefined ? null : n;
  }
  if (n.type === 'Literal') {
    if (n.regex) return ['Re', n.regex.pattern, [...n.regex.flags].sort().join('')];
    if (n.bigint !== undefined && n.bigint !== null) return ['Big', String(n.bigint)];
    if (typeof n.value === 'number') return ['Num', String(n.value)];
    return ['Lit', n.value];
  }
  const o = { type: n.type };
  for (const k of Object.keys(n)) {
    if (SKIP.has(k) || k === 'type') continue;
    let v = n[k];
    if (typeof v === 'function') continue;
    if (LISTS.has(n.type) && (k === 'body' || k === 'consequent') && Array.isArray(v)) {
      v = v.filter((x) => x.type !== 'EmptyStatement');
    }
    o[k] = canon(v);
  }
  return o;
}

function parse1(src, sourceType) {
  const comments = [];
  const ast = acorn.parse(src, {
    ecmaVersion: 'latest', sourceType, allowReturnOutsideFunction: true,
    allowAwaitOutsideFunction: sourceType === 'module', allowHashBang: false,
    onComment: (block, text, start, end) => comments.push([block, text, start, end]),
  });
  return { ast, comments };
}
// Module first; what only parses as a script is one. `mode` pins the choice.
function parse(src, mode) {
  if (mode) return Object.assign(parse1(src, mode), { mode });
  try {
    return Object.assign(parse1(src, 'module'), { mode: 'module' });
  } catch (e) {
    return Object.assign(parse1(src, 'script'), { mode: 'script' });
  }
}

function diff(a, b, p) {
  if (JSON.stringify(a) === JSON.stringify(b)) return null;
  if (a && b && typeof a === 'object' && typeof b === 'object' && Array.isArray(a) === Array.isArray(b)) {
    for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
      const d = diff(a[k], b[k], p + '.' + k);
      if (d) return d;
    }
  }
  return p + ': ' + short(a) + ' became ' + short(b);
}
function short(x) {
  const s = JSON.stringify(x);
  return s === undefined ? 'nothing' : s.length > 120 ? s.slice(0, 120) + '...' : s;
}

const lic = (c) => c.filter(([b, t]) => b && t[0] === '!').map(([, t]) => t);
const other = (c) => c.filter(([b, t]) => !(b && t[0] === '!')).map(([, t]) => t);

function kinds(n, set) {
  if (Array.isArray(n)) { for (const x of n) kinds(x, set); return; }
  if (n && typeof n === 'object') {
    if (typeof n.type === 'string') set.add(n.type);
    for (const k of Object.keys(n)) if (!SKIP.has(k)) kinds(n[k], set);
  }
}

const ops = {
  // Does `b` parse to the tree of `a`?
  eq(r) {
    let A;
    try { A = parse(r.a); } catch (e) { return { bad: String(e.message) }; }
    let B;
    try { B = parse(r.b, A.mode); } catch (e) {
      return { msg: 'the output does not parse: ' + e.message };
    }
    const ca = canon(A.ast), cb = canon(B.ast);
    const set = new Set();
    kinds(A.ast, set);
    let d = diff(ca, cb, '$');
    // `<!--` starts a comment in scripts and not in modules.
    if (d === null && A.mode === 'module' && r.b.includes('<!--') && !r.a.includes('<!--')) {
      let S = null;
      try { S = parse(r.a, 'script'); } catch (e) { /* only a module */ }
      if (S) {
        try { d = diff(canon(S.ast), canon(parse(r.b, 'script').ast), '$'); } catch (e) {
          d = 'as a script, the output is no program any more: ' + e.message;
        }
      }
    }
    return { msg: d, lic_a: lic(A.comments), lic_b: lic(B.comments), other_a: other(A.comments).length, other_b: other(B.comments), kinds: set.size };
  },
  // Where the strings, templates, regular expressions and comments of `a` stand.
  lex(r) {
    let A;
    try { A = parse(r.a); } catch (e) { return { bad: String(e.message) }; }
    const items = [];
    (function go(n) {
      if (Array.isArray(n)) { n.forEach(go); return; }
      if (!n || typeof n !== 'object') return;
      if (n.type === 'TemplateLiteral' || isStr(n)) { items.push({ s: n.start, e: n.end, k: 's' }); return; }
      if (n.type === 'Literal') {
        if (n.regex) items.push({ s: n.start, e: n.end, k: 'r' });
        return;
      }
      for (const k of Object.keys(n)) if (!SKIP.has(k)) go(n[k]);
    })(A.ast);
    const strs = items.slice();
    for (const [, , s, e] of A.comments) if (!strs.some((x) => x.s <= s && e <= x.e)) items.push({ s, e, k: 'c' });
    items.sort((x, y) => x.s - y.s);
    return { items: items.filter((x, i) => i === 0 || x.s !== items[i - 1].s) };
  },
  // `b` is `a` after strings were aggregated into variables (array === '') or an array.
  agg(r) {
    let A;
    try { A = parse(r.a); } catch (e) { return { bad: String(e.message) }; }
    let B;
    try { B = parse(r.b, A.mode); } catch (e) {
      return { msg: 'the output does not parse: ' + e.message };
    }
    return r.array ? aggArray(A, B, r) : aggVars(A, B, r);
  },
};

function names(n, out) {
  if (Array.isArray(n)) { for (const x of n) names(x, out); return out; }
  if (n && typeof n === 'object') {
    if (n.type === 'Identifier') out.add(n.name);
    for (const k of Object.keys(n)) if (!SKIP.has(k)) names(n[k], out);
  }
  return out;
}

const isStr = (n) => n && n.type === 'Literal' && typeof n.value === 'string';

// Every place of a string literal in `a` against what stands there in `b`.
function walk(a, b, p, at) {
  if (isStr(a)) {
    const e = at(a, b, p);
    if (e) return e;
    return null;
  }
  if (Array.isArray(a)) {
    if (!Array.isArray(b) || a.length !== b.length) return p + ': lists differ';
    for (let i = 0; i < a.length; i++) {
      const e = walk(a[i], b[i], p + '.' + i, at);
      if (e) return e;
    }
    return null;
  }
  if (a && typeof a === 'object' && !(a instanceof RegExp)) {
    if (!b || typeof b !== 'object' || Array.isArray(b)) return p + ': ' + short(canon(a)) + ' became ' + short(canon(b));
    if (a.type !== b.type) return p + ': ' + a.type + ' became ' + b.type + ' ' + short(canon(b));
    if (a.type === 'Literal') {
      const ca = canon(a), cb = canon(b);
      return JSON.stringify(ca) === JSON.stringify(cb) ? null : p + ': ' + short(ca) + ' became ' + short(cb);
    }
    for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
      if (SKIP.has(k) || k === 'type') continue;
      let x = a[k], y = b[k];
      if (LISTS.has(a.type) && (k === 'body' || k === 'consequent') && Array.isArray(x) && Array.isArray(y)) {
        x = x.filter((n) => n.type !== 'EmptyStatement');
        y = y.filter((n) => n.type !== 'EmptyStatement');
      }
      // The name of a property stands for itself: a variable there is another name.
      if (k === 'key' && isStr(x) && !a.computed && !(isStr(y) && y.value === x.value)) {
        return p + '.key: the name ' + short(x.value) + ' of a property became ' + short(canon(y));
      }
      const e = walk(x, y, p + '.' + k, at);
      if (e) return e;
    }
    return null;
  }
  if (typeof a === 'bigint') return a === b ? null : p + ': bigint changed';
  if (a instanceof RegExp) return null;
  return a === b || (a === undefined && b === undefined) ? null : p + ': ' + short(a) + ' became ' + short(b);
}

function counts(A) {
  const m = new Map();
  (function go(n) {
    if (Array.isArray(n)) { n.forEach(go); return; }
    if (n && typeof n === 'object') {
      if (isStr(n)) m.set(n.raw, (m.get(n.raw) || 0) + 1);
      for (const k of Object.keys(n)) if (!SKIP.has(k)) go(n[k]);
    }
  })(A.ast);
  return m;
}

// Existing declarations `var r_xx = "..."` (or let, const) of the original program that stand at
// top level, and where each ends.
function rvars(A) {
  const m = new Map();
  for (const n of A.ast.body) {
    const v = n.type === 'ExportNamedDeclaration' && n.declaration ? n.declaration : n;
    if (v.type !== 'VariableDeclaration') continue;
    for (const d of v.declarations) {
      if (d.id.type === 'Identifier' && d.id.name.startsWith('r_') && isStr(d.init)) {
        if (!m.has(d.id.name)) m.set(d.id.name, []);
        m.get(d.id.name).push([d.init.value, d.end]);
      }
    }
  }
  return m;
}
const prologue = (body) => {
  let k = 0;
  while (k < body.length && body[k].type === 'ExpressionStatement' && body[k].directive !== undefined) k++;
  return k;
};
const without = (body, k) => body.slice(0, k).concat(body.slice(k + 1));

// What each name is bound to or assigned: strings, or null for anything else.
function bindings(A) {
  const m = new Map();
  const pat = (n, v = null) => {
    if (!n) return;
    switch (n.type) {
      case 'Identifier': if (!m.has(n.name)) m.set(n.name, new Set()); m.get(n.name).add(v); break;
      case 'ObjectPattern': n.properties.forEach((p) => pat(p.type === 'RestElement' ? p : p.value)); break;
      case 'ArrayPattern': n.elements.forEach((e) => pat(e)); break;
      case 'AssignmentPattern': pat(n.left); break;
      case 'RestElement': pat(n.argument); break;
    }
  };
  (function go(n) {
    if (Array.isArray(n)) { n.forEach(go); return; }
    if (!n || typeof n !== 'object') return;
    switch (n.type) {
      case 'VariableDeclarator': pat(n.id, isStr(n.init) ? n.init.value : null); break;
      case 'FunctionDeclaration': case 'FunctionExpression': case 'ArrowFunctionExpression': pat(n.id); n.params.forEach((e) => pat(e)); break;
      case 'ClassDeclaration': case 'ClassExpression': pat(n.id); break;
      case 'CatchClause': pat(n.param); break;
      case 'ImportSpecifier': case 'ImportDefaultSpecifier': case 'ImportNamespaceSpecifier': pat(n.local); break;
      case 'AssignmentExpression': pat(n.left, n.operator === '=' && isStr(n.right) ? n.right.value : null); break;
      case 'UpdateExpression': pat(n.argument); break;
      case 'ForInStatement': case 'ForOfStatement': pat(n.left); break;
    }
    for (const k of Object.keys(n)) if (!SKIP.has(k)) go(n[k]);
  })(A.ast);
  return m;
}

function aggVars(A, B, r) {
  const used = names(A.ast, new Set());
  const a = A.ast, b = B.ast;
  const fresh = new Map();
  let bBody = b.body;
  const at = prologue(bBody);
  const first = bBody[at];
  // A leading declaration that the original does not have is the created one.
  const created = first && first.type === 'VariableDeclaration' && first.kind === 'var' &&
    first.declarations.every((d) => d.id.type === 'Identifier' && !used.has(d.id.name));
  if (created) {
    for (const d of first.declarations) {
      if (!isStr(d.init)) return { msg: 'created variable ' + d.id.name + ' does not hold a string' };
      if (fresh.has(d.id.name)) return { msg: 'created variable ' + d.id.name + ' twice' };
      fresh.set(d.id.name, d.init.value);
    }
    bBody = without(bBody, at);
  }
  const old = rvars(A);
  const bound = bindings(A);
  const cnt = counts(A);
  let replaced = 0;
  const uses = new Map();
  const b2 = Object.assign({}, b, { body: bBody });
  const msg = walk(a, b2, '$', (x, y, p) => {
    if (isStr(y)) return x.value === y.value ? null : p + ': ' + short(x.value) + ' became ' + short(y.value);
    if (y && y.type === 'Identifier') {
      replaced++;
      if (fresh.has(y.name)) {
        uses.set(y.name, (uses.get(y.name) || 0) + 1);
        if (fresh.get(y.name) !== x.value) return p + ': ' + short(x.value) + ' was replaced by ' + y.name + ' which holds ' + short(fresh.get(y.name));
        if (cnt.get(x.raw) < 2) return p + ': ' + short(x.value) + ' occurs once and was replaced by ' + y.name;
        return null;
      }
      if (old.has(y.name)) {
        if ([...bound.get(y.name)].some((v) => v !== x.value)) return p + ': ' + short(x.value) + ' was replaced by ' + y.name + ' which is bound or assigned elsewhere too';
        if (old.get(y.name).some(([v, end]) => v === x.value && end <= x.start)) return null;
        return p + ': ' + short(x.value) + ' was replaced by ' + y.name + ' which does not hold it there: ' + short(old.get(y.name)[0][0]);
      }
      return p + ': ' + short(x.value) + ' was replaced by ' + y.name + ' which nothing declares';
    }
    return p + ': ' + short(x.value) + ' became ' + short(canon(y));
  });
  if (msg) return { msg };
  for (const n of fresh.keys()) if (!uses.has(n)) return { msg: 'created variable ' + n + ' is not used' };
  return { msg: null, replaced, created: fresh.size, order: [...fresh.keys()] };
}

function aggArray(A, B, r) {
  const name = r.array;
  const a = A.ast, b = B.ast;
  // The declarator of the array, and the block in which it can be used.
  const find = (n, scope) => {
    if (Array.isArray(n)) {
      for (const x of n) { const d = find(x, scope); if (d) return d; }
      return null;
    }
    if (!n || typeof n.type !== 'string') return null;
    if (n.type === 'VariableDeclarator' && n.id.type === 'Identifier' && n.id.name === name && n.init && n.init.type === 'ArrayExpression') return { d: n, scope };
    if (n.type === 'BlockStatement' || n.type === 'StaticBlock') scope = n;
    for (const k in n) {
      if (k === 'loc' || k === 'range' || n[k] === null || typeof n[k] !== 'object') continue;
      const d = find(n[k], scope);
      if (d) return d;
    }
    return null;
  };
  const fa = find(a, a), fb = find(b, b);
  const da = fa && fa.d, db = fb && fb.d;
  let bBody = b.body;
  let made = 0;
  if (!da && db) {
    const at = prologue(bBody);
    const s = bBody[at];
    if (s.type !== 'VariableDeclaration' || s.declarations.length !== 1 || s.declarations[0] !== db) return { msg: 'the created array is not declared first' };
    bBody = without(bBody, at);
    made = db.init.elements.length;
    if (made === 0) return { msg: 'an empty array was created' };
  }
  let elems = [];
  if (db) {
    let i = 0;
    for (const e of db.init.elements) {
      // Nothing tells what an element that is no string holds.
      elems.push(e && isStr(e) ? e.value : null);
      if (!(e && isStr(e)) && !(da && i < da.init.elements.length)) return { msg: 'the array has a new element that is no string' };
      i++;
    }
  }
  if (da) {
    if (!db) return { msg: 'the existing array is gone' };
    const ea = da.init.elements;
    if (elems.length < ea.length) return { msg: 'the existing array is shorter' };
    made = elems.length - ea.length;
    if (ea.some((e) => e && e.type === 'SpreadElement')) elems = elems.map(() => null);
    // The extension itself is no difference.
    db.init.elements = db.init.elements.slice(0, ea.length);
  }
  let replaced = 0;
  const uses = new Set();
  const keepPos = new Set(r.keep || []);
  const cnt = counts(A);
  const b2 = Object.assign({}, b, { body: bBody });
  const msg = walk(a, b2, '$', (x, y, p) => {
    const kept = keepPos.has(x.start);
    if (isStr(y)) return x.value === y.value ? null : p + ': ' + short(x.value) + ' became ' + short(y.value);
    if (y && y.type === 'MemberExpression' && y.computed && y.object.type === 'Identifier' && y.object.name === name &&
        y.property.type === 'Literal' && typeof y.property.value === 'number') {
      replaced++;
      const i = y.property.value;
      uses.add(i);
      if (kept) return p + ': ' + short(x.value) + ' was refused by the filter and replaced';
      if (da && !(x.start > da.end && x.start < fa.scope.end)) return p + ': ' + short(x.value) + ' was replaced where the array is not declared yet or not in scope';
      if (!(i < elems.length)) return p + ': index ' + i + ' is outside the array';
      return elems[i] === x.value ? null : p + ': ' + short(x.value) + ' was replaced by element ' + i + ' which holds ' + short(elems[i]);
    }
    return p + ': ' + short(x.value) + ' became ' + short(canon(y));
  });
  if (msg) return { msg };
  if (made > 0) {
    for (let i = elems.length - made; i < elems.length; i++) if (!uses.has(i)) return { msg: 'element ' + i + ' was added and is not used' };
  }
  return { msg: null, replaced, created: made };
}

// A failure counts only if V8 sides with acorn: it reads the source in some way, and the output not
// in that way when the failure is that the output does not parse.
const vm = require('vm');
const ways = [
  (s) => new vm.Script(s),
  (s) => new vm.SourceTextModule(s),
  (s) => new vm.Script('(async function(){' + s + '\n})'),
];
function reads(f, s) {
  try { f(s); return true; } catch (e) { return !(e instanceof SyntaxError || e.name === 'SyntaxError'); }
}
function confirmed(q, r) {
  const can = ways.filter((f) => reads(f, q.a));
  if (can.length === 0) return false;
  return !/does not parse/.test(r.msg) || can.every((f) => !reads(f, q.b));
}

function readN(n) {
  const b = Buffer.alloc(n);
  let o = 0;
  while (o < n) {
    let k;
    try { k = fs.readSync(0, b, o, n - o, null); } catch (e) {
      if (e.code === 'EAGAIN') continue;
      if (e.code === 'EOF') return null;
      throw e;
    }
    if (k === 0) return null;
    o += k;
  }
  return b;
}
for (;;) {
  const h = readN(4);
  if (!h) break;
  const q = JSON.parse(readN(h.readUInt32LE(0)).toString('utf8'));
  let r;
  try {
    r = ops[q.op](q);
    if (r.msg && !confirmed(q, r)) r = { bad: 'V8 disagrees' };
  } catch (e) {
    r = e instanceof RangeError ? { bad: 'oracle stack' } : { oracle_error: String(e && e.stack || e) };
  }
  const d = Buffer.from(JSON.stringify(r), 'utf8');
  const o = Buffer.alloc(4 + d.length);
  o.writeUInt32LE(d.length, 0);
  d.copy(o, 4);
  let k = 0;
  while (k < o.length) {
    try { k += fs.writeSync(1, o, k); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
}
