// Simulator of a JavaScript host of the two zk-regex packages (C07, C08, C19).
//
// A run (episode) is a history of calls on several instances of the packages in one process. All
// that can interleave or fail in such a host is decided by one seed: which instance serves which
// call, instances thrown away and replaced, getters and proxies that call back into an instance in
// the middle of its own call, throw, change their value or change the argument under the reader,
// arguments damaged in transit, long series of failing calls, and the host's clock and randomness.
// Every call is compared with the first call of a fresh instance, plain ones with the native library.
//
//   node sim.mjs check C07|C08|C19      node sim.mjs replay FILE      node sim.mjs episode C07 N
import { readFileSync, writeFileSync, writeSync, openSync, mkdirSync, mkdtempSync, rmSync, existsSync, readdirSync } from 'node:fs';
import { createHash } from 'node:crypto';
import { spawnSync, fork } from 'node:child_process';
import { createRequire } from 'node:module';
import { fileURLToPath } from 'node:url';
import path from 'node:path';
import os from 'node:os';

const require = createRequire(import.meta.url);
const here = path.dirname(fileURLToPath(import.meta.url));
const verif = process.env.ZKSIM_VERIF || path.resolve(here, '../..');
const repo = process.env.ZKSIM_REPO || '/repo';
const target = process.env.ZKSIM_TARGET || path.join(verif, 'sim/target');
const driver = path.join(target, 'driver/release/driver');
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const baseSeed = Number(process.env.VERIF_SEED || 1) >>> 0;

// ---------------------------------------------------------------- randomness
class Rng {
  constructor(...seed) {
    const h = createHash('sha256').update(seed.join('/')).digest();
    this.s = [h.readUInt32LE(0), h.readUInt32LE(4), h.readUInt32LE(8), h.readUInt32LE(12) | 1];
  }
  u32() { // xoshiro128**
    const s = this.s, r = Math.imul(s[1], 5);
    const out = Math.imul((r << 7) | (r >>> 25), 9) >>> 0, t = s[1] << 9;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
    s[3] = (s[3] << 11) | (s[3] >>> 21);
    return out;
  }
  n(k) { return this.u32() % k; }
  range(a, b) { return a + this.n(b - a + 1); }
  p(x) { return this.u32() / 4294967296 < x; }
  pick(a) { return a[this.n(a.length)]; }
}

// ---------------------------------------------------------------- instances (real glue, real wasm)
const packs = {};
function pack(name) {
  if (!packs[name]) {
    const dir = path.join(target, 'js', `pkg-${name}`);
    const file = `zk_regex_${name}`;
    packs[name] = {
      glue: readFileSync(path.join(dir, `${file}.js`), 'utf8'),
      dir,
      module: new WebAssembly.Module(readFileSync(path.join(dir, `${file}_bg.wasm`))),
    };
  }
  return packs[name];
}
let built = 0;
// The host's time: passes between calls, sometimes in jumps. Every instance sees it skewed.
const host = { now: 1e12 };
const insides = new WeakMap(); // the wasm exports of an instance
const thrown = new WeakMap(); // how many exceptions of its host an instance has met
// What an instance holds: the size of its memory, where the next allocation of several sizes would
// be, and the number of values of the host it keeps alive.
function held(inst) {
  const w = insides.get(inst), out = {};
  if (!w) return out;
  const mem = Object.values(w).find((x) => x instanceof WebAssembly.Memory);
  if (mem) out.memory = mem.buffer.byteLength;
  if (typeof w.__wbindgen_malloc === 'function' && typeof w.__wbindgen_free === 'function')
    for (const n of [24, 200, 3000, 90000]) { const a = w.__wbindgen_malloc(n, 1) >>> 0; w.__wbindgen_free(a, n, 1); out[`block of ${n}`] = a; }
  if (mem) out.memory = mem.buffer.byteLength;
  const t = w.__wbindgen_externrefs;
  if (t instanceof WebAssembly.Table) { let n = 0; for (let i = 0; i < t.length; i++) if (t.get(i) !== null) n++; out['values of the host'] = n; }
  return out;
}
// A fresh instance: the shipped glue evaluated anew. Clock, randomness and console are the
// simulator's, different for every instance.
function instance(name) {
  const p = pack(name), k = ++built, rng = new Rng('host', name, k);
  const module = { exports: {} };
  const WA = Object.create(WebAssembly, {
    Module: { value: function () { return p.module; } },
    Instance: { value: function (m, imports) { 
      const exports = { ...new WebAssembly.Instance(m, imports).exports }, store = exports.__wbindgen_exn_store;
      if (store) exports.__wbindgen_exn_store = (x) => { thrown.set(module.exports, (thrown.get(module.exports) || 0) + 1); return store(x); };
      insides.set(module.exports, exports);
      return { exports };
    } },
  });
  const math = Object.create(Math, { random: { value: () => rng.u32() / 4294967296 } });
  const skew = rng.n(1000000000) * (rng.p(0.5) ? 1 : -1);
  const now = () => host.now + skew + rng.n(1000);
  class Clock extends Date {
    constructor(...a) { if (a.length) super(...a); else super(now()); }
    static now() { return now(); }
  }
  const quiet = { log() {}, error() {}, warn() {}, info() {}, debug() {} };
  const crypto = { getRandomValues(a) { for (let i = 0; i < a.length; i++) a[i] = rng.u32(); return a; } };
  const global = new Proxy(globalThis, {
    get(t, key) {
      const over = { Math: math, Date: Clock, crypto, console: quiet, performance: { now } };
      return Object.hasOwn(over, key) ? over[key] : Reflect.get(t, key, t);
    },
  });
  const f = new Function('exports', 'module', 'require', '__dirname', 'WebAssembly', 'Math', 'Date', 'crypto', 'console', 'globalThis', p.glue);
  f(module.exports, module, require, p.dir, WA, math, Clock, crypto, quiet, global);
  return module.exports;
}

// ---------------------------------------------------------------- recipes
// A call: {pkg, fn, args: [value...], must?: 'throw'|'return'}. A value is built anew for every call:
//   {p: json}  {u: 1} undefined  {num: 'NaN'}  {big: '1'}  {sym: 's'}  {fun: 1}
//   {arr: [value...], hole?: i}
//   {obj: [[key, value]...], get?: {key: getter}, proto?: [keys], null?: 1}
//   {proxy: value, at: n, act: getter}
// A getter: {acts: [act...], then?: [value...], boom?: value | {error: message}}.
// An act: {call, on, use?, rethrow?} | {trunc: n} | {grow: value}
const unbox = (v) => ('num' in v ? Number(v.num) : 'big' in v ? BigInt(v.big) : 'sym' in v ? Symbol(v.sym) : undefined);

function build(v, ctx, root) {
  if ('p' in v) return v.p;
  if ('u' in v) return undefined;
  if ('fun' in v) return function () { return 1; };
  if ('num' in v || 'big' in v || 'sym' in v) return unbox(v);
  if ('arr' in v) {
    const a = v.arr.map((x) => build(x, ctx, root));
    if (v.hole !== undefined && v.hole < a.length) delete a[v.hole];
    root.arr = root.arr || a;
    return a;
  }
  if ('proxy' in v) {
    let n = 0;
    const target = build(v.proxy, ctx, root);
    const tick = () => { if (++n === v.at) { ctx.fired('proxy'); run(v.act, ctx, root, undefined, 0); } };
    const h = {};
    for (const t of ['get', 'has', 'ownKeys', 'getOwnPropertyDescriptor', 'getPrototypeOf', 'isExtensible'])
      h[t] = (...a) => { tick(); return Reflect[t](...a); };
    return new Proxy(target, h);
  }
  const o = v.null ? Object.create(null) : {};
  const base = v.proto ? Object.getPrototypeOf(o) === null ? o : Object.create(Object.prototype) : o;
  for (const [k, x] of v.obj) {
    const where = v.proto && v.proto.includes(k) ? base : o;
    const g = v.get && v.get[k];
    if (!g) { Object.defineProperty(where, k, { value: build(x, ctx, root), writable: true, enumerable: true, configurable: true }); continue; }
    let n = 0, made, has = false;
    Object.defineProperty(where, k, {
      enumerable: true, configurable: true,
      get() {
        ctx.fired('getter');
        if (!has) { made = build(x, ctx, root); has = true; }
        return run(g, ctx, root, made, n++);
      },
    });
  }
  if (base !== o) Object.setPrototypeOf(o, base);
  return o;
}
function run(g, ctx, root, value, nth) {
  for (const a of g.acts) {
    if (a.call) {
      const r = ctx.call(a);
      ctx.fired('nested call');
      if ('thrown' in r) { if (a.rethrow) { ctx.boom(); throw r.thrown; } }
      else if (a.use) value = typeof r.value === 'string' ? r.value.slice(0, 40) : Array.isArray(r.value) && typeof r.value[0] === 'string' ? r.value[0] : value;
    } else if ('trunc' in a) { if (root.arr) { root.arr.length = Math.min(root.arr.length, a.trunc); ctx.fired('argument cut short while read'); } }
    else if ('grow' in a) { if (root.arr && root.arr.length < 20) { root.arr.push(build(a.grow, ctx, root)); ctx.fired('argument grown while read'); } }
  }
  if (g.boom) {
    ctx.fired('getter exception'); ctx.boom();
    throw g.boom.error !== undefined ? new Error(g.boom.error) : build(g.boom, ctx, root);
  }
  if (g.then && nth > 0) return build(g.then[Math.min(nth, g.then.length) - 1], ctx, root);
  return value;
}

const own = new WeakSet(); // exceptions made by a recipe's getter
function outcome(f) {
  let value;
  try { value = f(); } catch (e) {
    const o = { thrown: e };
    if (e instanceof WebAssembly.RuntimeError) o.key = `trap: ${e.message}`, o.trap = true;
    else if (e instanceof Error) o.key = `throws ${e.constructor.name}: ${e.message}`;
    else if (typeof e === 'string') o.key = `throws ${JSON.stringify(e)}`;
    else o.key = `throws ${typeof e} ${show(e)}`;
    return o;
  }
  return { value, key: `returns ${show(value)}` };
}
function show(v) {
  try {
    if (typeof v === 'symbol' || typeof v === 'bigint' || typeof v === 'function' || v === undefined) return String(typeof v === 'function' ? 'function' : v);
    return JSON.stringify(v, (k, x) => (typeof x === 'bigint' ? `${x}n` : typeof x === 'number' && !Number.isFinite(x) ? String(x) : x));
  } catch { return 'object'; }
}
const brief = (k) => (k.length > 300 ? `${k.slice(0, 220)}… (${k.length} characters, ${createHash('sha256').update(k).digest('hex').slice(0, 12)})` : k);

// What a fresh instance answers. Calls nested in its arguments are answered by fresh instances too.
const memo = new Map();
function reference(call) {
  const key = JSON.stringify([call.pkg, call.fn, call.args]);
  let r = memo.get(key);
  if (r) return r;
  const ctx = { call: (a) => reference(a.call), fired() {}, boom() { this.boomed = true; }, boomed: false };
  const inst = instance(call.pkg);
  const root = {};
  const args = call.args.map((v) => build(v, ctx, root));
  r = outcome(() => inst[call.fn](...args));
  r.boomed = ctx.boomed;
  if (memo.size > 4000) memo.clear();
  memo.set(key, r);
  return r;
}

// ---------------------------------------------------------------- definitions
const LITS = ['a', 'b', 'c', 'ab', 'x1', '0', 'to:', '=', ' ', '@', 'é', '漢', '\\.', '\\r\\n', '\\$', '-'];
const RAWLIT = { '\\.': '.', '\\r\\n': '\r\n', '\\$': '$' };
// At most one atom that takes many characters: more make automata that take seconds to build.
let wide = 0;
function atom(rng, depth) {
  let k = rng.n(10);
  if ((k === 6 || k === 9) && wide-- <= 0) k = 0;
  if (k < 4) { const l = rng.pick(LITS); return { re: l.length > 1 && !l.startsWith('\\') ? `(${l})` : l === '\\r\\n' ? '(\\r\\n)' : l, s: () => RAWLIT[l] ?? l }; }
  if (k < 6) { const set = rng.pick(['abc', '0123456789', 'xyz', 'a0']); return { re: set === '0123456789' ? '[0-9]' : `[${set}]`, s: (r) => r.pick([...set]) }; }
  if (k < 7) { const not = rng.pick(['a', 'b', '\\r\\n', ',']); return { re: `[^${not}]`, s: (r) => r.pick([...'zq;!']) }; }
  if (k < 9 && depth > 0) {
    const alts = Array.from({ length: rng.range(1, 2) }, () => seq(rng, depth - 1));
    return { re: `(${alts.map((a) => a.re).join('|')})`, s: (r) => r.pick(alts).s(r) };
  }
  return { re: rng.p(0.03) ? rng.pick(['\\w', '\\d']) : '.', s: () => '5' }; // \w, \d: Unicode, slow
}
function seq(rng, depth) {
  const items = Array.from({ length: rng.pick([1, 1, 2]) }, () => {
    const a = atom(rng, depth);
    const q = rng.pick(['', '', '', '+', '*', '?', '{2}', '+?']);
    const [lo, hi] = { '': [1, 1], '+': [1, 3], '*': [0, 3], '?': [0, 1], '{2}': [2, 2], '+?': [1, 2] }[q];
    return { re: a.re + q, s: (r) => Array.from({ length: r.range(lo, hi) }, () => a.s(r)).join('') };
  });
  return { re: items.map((i) => i.re).join(''), s: (r) => items.map((i) => i.s(r)).join('') };
}
let shelf;
function shipped() {
  if (!shelf) {
    shelf = [];
    for (const d of ['packages/circom/circuits/common', 'packages/apis/src/decomposed_defs']) {
      const dir = path.join(repo, d);
      if (!existsSync(dir)) continue;
      for (const f of readdirSync(dir).sort()) {
        if (!f.endsWith('.json')) continue;
        try {
          const c = JSON.parse(readFileSync(path.join(dir, f), 'utf8'));
          if (Array.isArray(c.parts) && c.parts.every((p) => p && typeof p.regex_def === 'string')) shelf.push({ parts: c.parts.map((p) => ({ is_public: !!p.is_public, regex_def: p.regex_def })) });
        } catch { /* not a definition */ }
      }
    }
  }
  return shelf;
}
const MAILS = ['from:Ann <ann@example.com>\r\n', 'to:bob@example.org\r\n', 'subject:Send 1 ETH to a@b.co\r\n', 'message-id:<X1@mail.example>\r\n',
  'dkim-signature:v=1; a=rsa-sha256; d=example.com; t=1694989812; bh=BWETwQ9JDReS4GyR2v2TTR8Bpzj9ayumsWQJ3q7vehs=; b=', 'hello@example.com', 'nothing here'];

const long = (rng) => { // many bytes, and characters of every length
  const some = rng.pick([[...'abc'], [...'aé'], ['漢', 'b'], ['🦀', 'é', 'x'], ['é']]);
  return Array.from({ length: rng.pick([20, 60, 130, 200, 300]) + rng.n(40) }, () => rng.pick(some)).join('');
};

function definition(rng) {
  const sh = shipped();
  if (sh.length && rng.p(0.03)) { const c = rng.pick(sh); return { config: c, text: (r) => r.pick(MAILS) }; }
  wide = rng.pick([0, 0, 1, 1, 2]);
  const parts = Array.from({ length: rng.pick([1, 2, 2, 3, 4]) }, () => ({ x: seq(rng, rng.n(3)), pub: rng.p(0.5) }));
  if (rng.p(0.1)) parts.unshift({ x: { re: '(\\r\\n|^)', s: (r) => r.pick(['\r\n', '']) }, pub: false });
  const end = rng.p(0.08);
  const config = { parts: parts.map((p) => ({ is_public: p.pub, regex_def: p.x.re })) };
  if (end) config.parts[config.parts.length - 1].regex_def += '$';
  return { config, text: (r) => parts.map((p) => p.x.s(r)).join('') };
}
const BADRE = ['[^,+', '(', ')', '(ab', '*a', '[z-a]', 'a{2', '(?<n', '\\', '(?z)', '[', 'a**{', '+'];
const badRegex = (rng) => (rng.p(0.3) ? long(rng) + rng.pick(BADRE.filter((b) => !/^[*+a]/.test(b))) : rng.pick(BADRE));
const NAMES = ['Sim', 'A', 'Template_1', 'Регекс', ''];
const EXTRA = [[], ['x'], ['version', 'parts2']];

function text(rng, d) {
  const noise = () => Array.from({ length: rng.n(6) }, () => rng.pick([...'abz09 ;@'])).join('') + (rng.p(0.1) ? rng.pick(['é', '漢字', '🦀', '\u0000', '\ud800']) : '');
  const k = rng.n(12);
  if (k === 0) return '';
  if (k === 1) return noise();
  if (k === 2) return rng.pick(MAILS);
  if (k === 3 && rng.p(0.2)) return noise() + d.text(rng) + 'z'.repeat(rng.range(1000, 70000));
  let s = noise() + d.text(rng) + noise();
  if (k === 4) s = s.slice(rng.n(s.length + 1)); // damaged in transit
  if (k === 5) { const i = rng.n(s.length + 1); s = s.slice(0, i) + rng.pick(['é', 'q', '\u0000', ' ']) + s.slice(i); }
  return s;
}

// ---------------------------------------------------------------- calls
const NAMED = ['extractEmailAddrIdxes', 'extractEmailDomainIdxes', 'extractFromAllIdxes', 'extractFromAddrIdxes', 'extractToAllIdxes', 'extractToAddrIdxes', 'extractSubjectAllIdxes', 'extractBodyHashIdxes', 'extractTimestampIdxes', 'extractMessageIdIdxes'];
const plain = (c) => ({ p: c });
const asValue = (c) => ({ obj: [['parts', { arr: c.parts.map((p) => ({ obj: [['is_public', { p: p.is_public }], ['regex_def', { p: p.regex_def }]] })) }]] });

function getter(rng, g, depth) {
  const out = { acts: [] };
  for (let i = rng.pick([0, 1, 1, 2]); i > 0; i--) {
    const k = rng.n(8);
    if (k < 6 && depth > 0) out.acts.push({ call: anyCall(rng, g, depth - 1), on: rng.n(g.slots), use: rng.p(0.1) || undefined, rethrow: rng.p(0.15) || undefined });
    else if (k === 6) out.acts.push({ trunc: rng.n(3) });
    else out.acts.push({ grow: { obj: [['is_public', { p: rng.p(0.5) }], ['regex_def', { p: 'a' }]] } });
  }
  if (rng.p(g.fail ? 0.5 : 0.25)) out.boom = rng.pick([{ error: 'getter gave up' }, { p: 'no value' }, { p: { code: 7 } }, { u: 1 }, { p: null }]);
  else if (rng.p(0.2)) out.then = [rng.pick([{ p: true }, { p: 'b' }, { p: 3 }, { u: 1 }])];
  return out;
}
// A definition as a JavaScript object, perhaps with accessors or damage. Says what must come of it.
function objectConfig(rng, g, d, depth, aliases) {
  const v = asValue(d.config);
  const parts = v.obj[0][1];
  let must;
  if (rng.p(g.fail ? 0.35 : 0.12)) {
    must = 'throw';
    const part = parts.arr.length ? rng.pick(parts.arr) : null;
    switch (rng.n(9)) {
      case 0: v.obj = []; break;
      case 1: v.obj[0][1] = rng.pick([{ p: 5 }, { p: true }, { p: null }, { u: 1 }]); break;
      case 2: parts.arr.splice(rng.n(parts.arr.length + 1), 0, rng.pick([{ p: 7 }, { p: null }, { u: 1 }, { p: false }])); break;
      case 3: part.obj = part.obj.filter((f) => f[0] !== 'regex_def'); break;
      case 4: part.obj = part.obj.filter((f) => f[0] !== 'is_public'); break;
      case 5: part.obj[1][1] = rng.pick([{ p: 3 }, { p: null }, { u: 1 }, { p: {} }, { p: false }, { big: '5' }, { sym: 'a' }, { fun: 1 }]); break;
      case 6: part.obj[0][1] = rng.pick([{ p: 'yes' }, { p: long(rng) }, { p: null }, { u: 1 }, { p: {} }, { sym: 'a' }]); break;
      case 7: case 8: part.obj[1][1] = { p: badRegex(rng) }; break;
    }
  } else if (aliases && rng.p(0.1)) {
    for (const p of parts.arr) for (const f of p.obj) if (rng.p(0.5)) f[0] = { is_public: 'isPublic', regex_def: 'regexDef' }[f[0]];
  }
  if (rng.p(0.1)) for (const e of rng.pick(EXTRA)) v.obj.splice(rng.n(v.obj.length + 1), 0, [e, { p: rng.pick([1, null, 'x', [1], { a: 1 }]) }]);
  let live = false;
  if (rng.p(0.55)) {
    const objs = [v, ...(v.obj.some((f) => f[1] === parts) ? parts.arr.filter((p) => p.obj) : [])];
    for (const o of objs) {
      for (const f of o.obj) {
        if (rng.p(0.3)) { (o.get = o.get || {})[f[0]] = getter(rng, g, depth); live = true; }
        if (rng.p(0.05)) (o.proto = o.proto || []).push(f[0]), live = true;
      }
    }
  }
  let out = v;
  if (rng.p(0.08)) {
    const px = (x) => ({ proxy: x, at: rng.range(1, 12), act: getter(rng, g, depth) });
    if (rng.p(0.5)) out = px(v); else if (v.obj.length && v.obj[0][1] === parts && parts.arr.length) { const i = rng.n(parts.arr.length); if (parts.arr[i].obj) parts.arr[i] = px(parts.arr[i]); }
    live = true;
  }
  if (rng.p(0.03) && parts.arr.length) parts.hole = rng.n(parts.arr.length), live = true;
  return { value: out, must: live ? undefined : must, live, config: live || must ? undefined : d.config };
}
function damage(rng, s) {
  const i = rng.n(s.length + 1);
  switch (rng.n(7)) {
    case 5: return s.replace(rng.pick([/true|false/, /"parts"/, /\[/, /\d+/]), JSON.stringify(long(rng)));
    case 0: return s.slice(0, i);
    case 1: return s.slice(0, i) + rng.pick(['{', '"', ',', '\\', '\u0000', 'null', '🦀', '\ud800']) + s.slice(i);
    case 2: return s.slice(0, i) + s.slice(i + 1 + rng.n(3));
    case 3: return rng.pick(['', ' ', 'null', '[]', '{}', '{"parts":null}', '{"parts":[]}', '{"parts":[{}]}', '{"transitions":1}', '5', '"parts"', '[[[]]]'.repeat(3), '['.repeat(300)]);
    case 4: return s + s;
    default: return s.replace(/"/, "'");
  }
}
function badShape(s) { // a text that can be no definition, whatever the reader
  let c;
  try { c = JSON.parse(s); } catch { return true; }
  if (c === null || typeof c !== 'object') return true;
  if (Array.isArray(c)) return false;
  if (!Array.isArray(c.parts)) return c.parts === undefined || c.parts === null || typeof c.parts !== 'object';
  return c.parts.some((p) => p === null || typeof p !== 'object');
}
// A call that a careless memory of the calls before would take for this one.
function neighbour(rng, call) {
  const args = structuredClone(call.args);
  const i = rng.n(args.length), v = args[i];
  const edit = (parts) => { // [{is_public, regex_def}...]
    if (!parts.length) return parts;
    const k = rng.n(parts.length);
    switch (rng.n(6)) {
      case 0: case 1: parts[k].is_public = !parts[k].is_public; break;
      case 2: { const j = rng.n(parts.length); [parts[k].is_public, parts[j].is_public] = [parts[j].is_public, parts[k].is_public]; break; }
      case 3: if (k > 0) parts.splice(k - 1, 2, { is_public: parts[k].is_public, regex_def: parts[k - 1].regex_def + parts[k].regex_def }); break;
      case 4: { const j = rng.n(parts.length); [parts[k].regex_def, parts[j].regex_def] = [parts[j].regex_def, parts[k].regex_def]; break; }
      default: parts[k].regex_def = parts[k].regex_def.replace(/[a-c]/, () => rng.pick([...'abcz'])); break;
    }
    return parts;
  };
  const config = plainConfig(v);
  if (typeof v.p === 'string' && /^\s*[{[]/.test(v.p) && rng.p(0.3)) { // the text is missing, or comes in part
    const cut = rng.pick(['', ' ', '\n', v.p.slice(0, -1), v.p.slice(0, rng.n(v.p.length)), v.p + ',', '{}', 'null', '[]']);
    args[i] = { p: cut };
    let whole = true;
    try { JSON.parse(cut); } catch { whole = false; }
    const json = { genFromDecomposed: 0, genFromRaw: 1, extractSubstr: 1, extractSubstrIdxes: 1 }[call.fn] === i;
    return { pkg: call.pkg, fn: call.fn, args, must: !whole && json ? 'throw' : undefined };
  }
  if (config) {
    const parts = (Array.isArray(config.parts) ? config.parts : []).map((p) => ({ is_public: p?.is_public ?? p?.isPublic, regex_def: p?.regex_def ?? p?.regexDef }));
    const good = () => parts.every((p) => typeof p.is_public === 'boolean' && typeof p.regex_def === 'string');
    const c = good() ? edit(parts) : null;
    if (c) args[i] = asValue({ parts: c });
  } else if (typeof v.p === 'boolean') args[i] = { p: !v.p };
  else if (typeof v.p === 'number') args[i] = { p: v.p + rng.n(2) };
  else if (typeof v.p === 'string') {
    let c = null;
    try { c = JSON.parse(v.p); } catch { /* no definition */ }
    if (c && Array.isArray(c.parts) && c.parts.every((p) => p && typeof p.regex_def === 'string')) args[i] = { p: JSON.stringify({ parts: edit(c.parts) }) };
    else if (!c || typeof c !== 'object') {
      const k = rng.n(v.p.length + 1);
      args[i] = { p: rng.p(0.5) ? v.p.slice(0, k) + rng.pick([...'abc5z']) + v.p.slice(k) : v.p.slice(0, k) + v.p.slice(k + 1) };
    }
  }
  return { pkg: call.pkg, fn: call.fn, args };
}
function anyCall(rng, g, depth) {
  if (g.pool.length && rng.p(0.4)) {
    const again = rng.pick(g.pool);
    if (rng.p(0.55)) return again;
    const next = neighbour(rng, again);
    if (g.pool.length < 30) g.pool.push(next);
    return next;
  }
  const call = rng.p(0.5) ? compilerCall(rng, g, depth) : apisCall(rng, g, depth);
  if (g.pool.length < 30) g.pool.push(call);
  return call;
}
// A call for a long series: one that fails early, or is small.
function cheapCall(rng, g) {
  const f = { ...g, fail: true, pool: [] };
  if (rng.p(0.5)) { // an exception of the host, thrown through the instance each time
    const config = asValue({ parts: [{ is_public: false, regex_def: 'a=' }, { is_public: true, regex_def: '[0-9]+' }] });
    const parts = config.obj[0][1], boom = { acts: [], boom: rng.pick([{ error: 'getter gave up' }, { p: 'no value' }, { u: 1 }]) };
    const o = rng.p(0.2) ? config : rng.pick(parts.arr);
    o.get = { [rng.pick(o.obj)[0]]: boom };
    let value = config;
    if (rng.p(0.15)) { o.get = undefined; value = { proxy: config, at: rng.range(1, 6), act: boom }; }
    else if (rng.p(0.15)) { o.get = undefined; parts.arr[1] = { proxy: parts.arr[1], at: rng.range(1, 6), act: boom }; }
    return rng.p(0.5) ? { pkg: 'compiler', fn: rng.pick(['genCircom', 'genRegexAndDfa']), args: [value, { p: 'A' }] }
      : { pkg: 'apis', fn: rng.pick(['extractSubstr', 'extractSubstrIdxes']), args: [{ p: 'a=5' }, value, { p: false }] };
  }
  for (let i = 0; i < 8; i++) {
    const c = rng.p(0.5) ? compilerCall(rng, f, rng.n(2)) : apisCall(rng, f, rng.n(2));
    const s = JSON.stringify(c);
    if (s.length < 600 && !/\\[wd]|[.]|\^/.test(s) && (c.must === 'throw' || s.includes('"boom"') || s.includes('"proxy"') || c.pkg === 'apis')) return c;
  }
  return { pkg: 'compiler', fn: 'genFromDecomposed', args: [{ p: '{"parts":' }, { p: 'A' }], must: 'throw' };
}
function compilerCall(rng, g, depth) {
  const d = definition(rng), pkg = 'compiler', name = rng.pick(NAMES);
  const k = rng.n(10);
  if (k < 3) {
    let s, must;
    if (d.config.parts.length && rng.p(g.fail ? 0.3 : 0.1)) {
      s = JSON.stringify({ parts: d.config.parts.map((p, i) => (i === 0 ? { ...p, regex_def: badRegex(rng) } : p)) });
      must = 'throw';
    } else s = JSON.stringify(d.config);
    if (!must && rng.p(g.fail ? 0.5 : 0.2)) { s = damage(rng, s); must = badShape(s) ? 'throw' : undefined; }
    return { pkg, fn: 'genFromDecomposed', args: [{ p: s }, { p: name }], must };
  }
  if (k < 5) {
    let raw = d.config.parts.map((p) => p.regex_def).join('');
    let subs = JSON.stringify({ transitions: Array.from({ length: rng.n(3) }, () => Array.from({ length: rng.range(1, 3) }, () => { const a = rng.n(4); return [a, a + rng.n(3)]; })) });
    let must;
    if (rng.p(g.fail ? 0.4 : 0.15)) {
      if (rng.p(0.4)) { raw = badRegex(rng); must = 'throw'; }
      else {
        subs = damage(rng, subs);
        let c; try { c = JSON.parse(subs); } catch { must = 'throw'; }
        if (!must && (c === null || typeof c !== 'object' || (!Array.isArray(c) && c.transitions === undefined))) must = 'throw';
      }
    }
    return { pkg, fn: 'genFromRaw', args: [{ p: raw }, { p: subs }, { p: name }], must };
  }
  if (rng.p(0.03)) return { pkg, fn: 'genCircom', args: [rng.pick([{ u: 1 }, { p: null }, { p: 5 }, { p: 'text' }, { p: [] }, { fun: 1 }, { sym: 'q' }, { big: '3' }]), { p: name }], must: 'throw' };
  const o = objectConfig(rng, g, d, depth, false);
  if (k < 8) return { pkg, fn: 'genCircom', args: [o.value, { p: name }], must: o.must };
  return { pkg, fn: 'genRegexAndDfa', args: [o.value], must: o.must };
}
function apisCall(rng, g, depth) {
  const pkg = 'apis', k = rng.n(12);
  if (k < 2) {
    const s = text(rng, definition(rng));
    const bytes = new TextEncoder().encode(s).length;
    const size = rng.pick([0, bytes, bytes + 1, Math.max(0, bytes - 1), rng.n(200), rng.n(5000), bytes + rng.n(64)]);
    return { pkg, fn: 'padString', args: [{ p: s }, { p: size }], must: bytes > size ? 'throw' : 'return' };
  }
  if (k < 4) return { pkg, fn: rng.pick(NAMED), args: [{ p: rng.p(0.7) ? rng.pick(MAILS) : text(rng, definition(rng)) }] };
  const d = definition(rng), priv = { p: rng.p(0.4) };
  const fn = rng.pick(['extractSubstr', 'extractSubstrIdxes']);
  const s = { p: text(rng, d) };
  if (k < 7) {
    let c = JSON.stringify(d.config), must;
    if (rng.p(0.1)) c = c.replaceAll('is_public', 'isPublic');
    if (rng.p(g.fail ? 0.5 : 0.2)) { c = damage(rng, c); must = badShape(c) ? 'throw' : undefined; }
    return { pkg, fn, args: [s, { p: c }, priv], must };
  }
  if (rng.p(0.03)) return { pkg, fn, args: [s, rng.pick([{ u: 1 }, { p: null }, { p: 5 }, { p: true }, { fun: 1 }, { sym: 'q' }, { big: '3' }]), priv], must: 'throw' };
  if (rng.p(g.fail ? 0.25 : 0.08)) { // no match: the definition needs a byte that the text does not have
    const c = { parts: [...d.config.parts.map((p) => ({ ...p, regex_def: p.regex_def.replace(/\$$/, '') })), { is_public: rng.p(0.5), regex_def: '(QQQ)' }] };
    return { pkg, fn, args: [{ p: (rng.p(0.3) ? long(rng) : '') + s.p.replaceAll('Q', '') }, asValue(c), priv], must: 'throw' };
  }
  const o = objectConfig(rng, g, d, depth, true);
  return { pkg, fn, args: [s, o.value, priv], must: o.must };
}

// ---------------------------------------------------------------- native library
// The plain form of a call, for the native library; null when it has none.
function plainConfig(v) {
  if (!v || !v.obj || v.get || v.proto || v.null) return null;
  const f = v.obj.filter((x) => x[0] === 'parts');
  if (f.length !== 1 || !f[0][1].arr || f[0][1].hole !== undefined) return null;
  const parts = [];
  for (const p of f[0][1].arr) {
    if (!p.obj || p.get || p.proto) return null;
    const q = {};
    for (const [k, x] of p.obj) { if (!('p' in x) || x.p === null) return null; q[k] = x.p; }
    parts.push(q);
  }
  return { parts };
}
const wellFormed = (s) => typeof s === 'string' && s.isWellFormed();
const kebab = (fn) => fn.replace(/^extract/, '').replace(/Idxes$/, '').replace(/[A-Z]/g, (c, i) => (i ? '_' : '') + c.toLowerCase());

class Native {
  constructor() { this.queue = []; this.done = new Set(); this.compared = 0; }
  add(call, out, where) {
    const key = JSON.stringify([call.pkg, call.fn, call.args]);
    if (this.done.has(key) || key.length > 60000) return;
    if (this.done.size > 50000) this.done.clear();
    const op = this.op(call);
    if (!op) return;
    this.done.add(key);
    this.queue.push({ call, out, op, where });
  }
  op(c) {
    const a = c.args.map((v) => v.p);
    const name = a[a.length - 1];
    switch (c.fn) {
      case 'padString': return a[1] > 4294967295 || new TextEncoder().encode(a[0]).length > a[1] || !wellFormed(a[0]) ? null : { op: 'pad', input: a[0], size: a[1] };
      case 'genFromDecomposed': return wellFormed(a[0]) ? { op: 'decomposed', file: a[0], template: name } : null;
      case 'genFromRaw': return wellFormed(a[0]) && wellFormed(a[1]) ? { op: 'raw', raw: a[0], file: a[1], template: name } : null;
      case 'genCircom': { const config = plainConfig(c.args[0]); return config && wellFormed(JSON.stringify(config)) ? { op: 'struct', config, template: name } : null; }
      case 'extractSubstr': case 'extractSubstrIdxes': {
        if (!wellFormed(a[0])) return null;
        let config = plainConfig(c.args[1]);
        if (typeof a[1] === 'string') { // read by the same parser on both sides: only texts that JSON.parse takes
          try { config = JSON.parse(a[1]); } catch { return null; }
          if (new Set(a[1].match(/"parts"/g) || []).size !== 1 || (a[1].match(/"parts"/g) || []).length !== 1 || !wellFormed(a[1])) return null;
          const n = config.parts && config.parts.length;
          if (!Array.isArray(config.parts) || ['is_public', 'regex_def'].some((k) => (a[1].match(new RegExp(`"${k}"`, 'g')) || []).length > n)) return null;
        }
        return config ? { op: c.fn === 'extractSubstr' ? 'substr' : 'idxes', input: a[0], config, private: a[2] } : null;
      }
      default: return NAMED.includes(c.fn) && wellFormed(a[0]) ? { op: 'named', name: kebab(c.fn), input: a[0] } : null;
    }
  }
  // Runs what is queued; gives the calls that the native library answers otherwise.
  flush() {
    const bad = [];
    while (this.queue.length) {
      const batch = [];
      let size = 0;
      while (this.queue.length && (batch.length === 0 || size + JSON.stringify(this.queue[0].op).length < 90000)) {
        size += JSON.stringify(this.queue[0].op).length;
        batch.push(this.queue.shift());
      }
      const dir = mkdtempSync(path.join(os.tmpdir(), 'zksim-js-'));
      try {
        const ops = batch.map((q, i) => {
          const { file, ...op } = q.op;
          const out = path.join(dir, `${i}.circom`);
          if (file !== undefined) { const f = path.join(dir, `${i}.json`); writeFileSync(f, file); op[op.op === 'raw' ? 'substrs' : 'def'] = f; }
          if (['decomposed', 'raw', 'struct'].includes(op.op)) Object.assign(op, { circom: out, gen: true });
          return op;
        });
        const r = spawnSync(driver, [JSON.stringify({ threads: [ops] })], { maxBuffer: 1 << 28, timeout: 120000 });
        if (r.status !== 0) throw new Error(`the native library's driver failed: ${r.status} ${r.signal} ${String(r.stderr).slice(0, 300)}`);
        const res = JSON.parse(r.stdout).threads[0];
        batch.forEach((q, i) => {
          this.compared++;
          const native = res[i];
          const ok = 'ok' in native;
          let want = ok ? native.ok : null;
          if (ok && ops[i].circom) want = readFileSync(ops[i].circom, 'utf8');
          const js = q.out;
          let why = null;
          if (js.trap) why = null; // C08's
          else if (ok && !('value' in js)) why = `the native library answers ${brief(show(want))}, the instance ${brief(js.key)}`;
          else if (!ok && 'value' in js) why = `the native library refuses it (${brief(show(native))}), the instance ${brief(js.key)}`;
          else if (ok && show(js.value) !== show(want)) why = `the native library answers ${brief(show(want))}, the instance ${brief(js.key)}`;
          if (why) bad.push({ oracle: 'native', property: 'C07', why, call: q.call, where: q.where });
        });
      } finally { rmSync(dir, { recursive: true, force: true }); }
    }
    return bad;
  }
}

// ---------------------------------------------------------------- episodes
const ROUNDS = 12;
// A history: {slots, rounds?, steps: [{on, call, times}|{restart: slot}]}.
function history(property, seed) {
  const rng = new Rng(property, seed);
  const g = { slots: rng.range(1, 3), fail: property === 'C08' ? rng.p(0.8) : property === 'C19' ? rng.p(0.6) : rng.p(0.3), pool: [] };
  const steps = [];
  if (property === 'C19' && rng.p(0.15)) { // ever different calls of the same size
    for (let i = rng.range(1, 2); i > 0; i--) {
      const call = variedCall(rng);
      steps.push({ on: rng.n(g.slots), call, times: call.pkg === 'apis' ? rng.range(50, 120) : rng.range(15, 40), varied: true });
    }
    return { slots: g.slots, rounds: ROUNDS, steps };
  }
  if (property === 'C19' && rng.p(0.08)) { // a few cheap calls, very often
    for (let i = rng.range(1, 2); i > 0; i--) steps.push({ on: rng.n(g.slots), call: cheapCall(rng, g), times: rng.range(200, 600) });
    return { slots: g.slots, rounds: ROUNDS, steps };
  }
  if (property === 'C19') {
    for (let i = rng.range(1, 5); i > 0; i--) {
      const step = { on: rng.n(g.slots), call: rng.p(0.4) ? cheapCall(rng, g) : anyCall(rng, g, 1) };
      if (rng.p(0.5) && !/\\[wd]|[.]|\^/.test(JSON.stringify(step.call))) step.times = rng.range(2, 6);
      steps.push(step);
    }
    return { slots: g.slots, rounds: ROUNDS, steps };
  }
  if (rng.p(property === 'C07' ? 0.1 : 0.04)) { // one instance serves many definitions, over and over
    const pool = catalogue(rng);
    for (let i = rng.range(pool.length, 4 * pool.length); i > 0; i--) {
      if (rng.p(0.004)) steps.push({ restart: 0, pkg: 'apis' });
      // the newest, the oldest, or any: what a table that forgets some of them gets wrong
      const k = rng.pick([steps.length % pool.length, rng.n(pool.length), rng.n(Math.min(4, pool.length))]);
      steps.push({ on: 0, call: rng.pick(pool[k]) });
    }
    return { slots: 1, steps };
  }
  const marathon = rng.p(0.07);
  const n = marathon ? rng.range(2, 5) : rng.range(3, 24);
  for (let i = 0; i < n; i++) {
    if (rng.p(0.04)) { steps.push({ restart: rng.n(g.slots), pkg: rng.pick(['apis', 'compiler']) }); continue; }
    const long = marathon && i < 2;
    const step = { on: rng.n(g.slots), call: long ? cheapCall(rng, g) : anyCall(rng, g, 2) };
    if (long) step.times = rng.range(1500, 5000);
    else if (rng.p(0.06) && !/\\[wd]|[.]|\^/.test(JSON.stringify(step.call))) step.times = rng.range(2, 40);
    steps.push(step);
  }
  return { slots: g.slots, steps };
}
function catalogue(rng) {
  const compile = rng.p(0.2), fn = rng.pick(['extractSubstr', 'extractSubstrIdxes']), asText = rng.p(0.3);
  return Array.from({ length: rng.pick(compile ? [6, 12, 20] : [10, 20, 40, 70, 140]) }, () => {
    wide = 0;
    const parts = Array.from({ length: rng.range(1, 2) }, () => ({ x: seq(rng, 1), pub: rng.p(0.6) }));
    const config = { parts: parts.map((p) => ({ is_public: p.pub, regex_def: p.x.re })) };
    if (compile) return [{ pkg: 'compiler', fn: 'genFromDecomposed', args: [{ p: JSON.stringify(config) }, { p: rng.pick(NAMES) }] }];
    const d = { text: (r) => parts.map((p) => p.x.s(r)).join('') };
    return Array.from({ length: rng.range(1, 2) }, () => ({ pkg: 'apis', fn, args: [{ p: `ab0x,${d.text(rng)}ba` }, asText ? { p: JSON.stringify(config) } : asValue(config), { p: rng.p(0.5) }] }));
  });
}
// A call with a blank to fill in: the same work, another text every time.
const BLANK = '@@@@';
function variedCall(rng) {
  const filler = rng.pick(['lorem ', 'x1, ', 'né ']).repeat(rng.range(40, 400));
  const parts = (def) => ({ obj: [['parts', { arr: [{ obj: [['is_public', { p: false }], ['regex_def', { p: def }]] }, { obj: [['is_public', { p: true }], ['regex_def', { p: '[a-z]+' }]] }, { obj: [['is_public', { p: false }], ['regex_def', { p: ';' }]] }] }]] });
  const config = parts(rng.p(0.5) ? `k${BLANK}=` : 'key=');
  switch (rng.n(7)) {
    case 5: return { pkg: 'compiler', fn: 'genFromRaw', args: [{ p: rng.pick([`k${BLANK}=`, 'key=', '(']) }, { p: `{"transitions":[[[0,1]]]}${rng.p(0.5) ? '' : `,${BLANK}`}${' '.repeat(rng.n(3000))}` }, { p: `T${BLANK}` }] };
    case 0: return { pkg: 'apis', fn: 'padString', args: [{ p: `${BLANK} ${filler}` }, { p: rng.pick([6, 3000, 8000]) }] };
    case 1: return { pkg: 'apis', fn: 'extractSubstr', args: [{ p: `k${BLANK}=${BLANK};key=${BLANK}; ${filler}` }, config, { p: rng.p(0.5) }] };
    case 2: return { pkg: 'apis', fn: 'extractSubstrIdxes', args: [{ p: `${filler} k${BLANK}=v;key=${BLANK};` }, config, { p: rng.p(0.5) }] };
    case 3: return { pkg: 'apis', fn: 'extractSubstr', args: [{ p: filler }, { p: `${BLANK} ${filler}` }, { p: true }] };
    case 4: return { pkg: 'compiler', fn: rng.pick(['genCircom', 'genRegexAndDfa']), args: [rng.p(0.7) ? parts(`k${BLANK}=`) : { obj: [['parts', { p: `${BLANK} ${filler}` }]] }, { p: `T${BLANK}` }] };
    default: return { pkg: 'compiler', fn: 'genFromDecomposed', args: [{ p: `{"parts":[{"is_public":true,"regex_def":"k${BLANK}="}]${rng.p(0.3) ? ']' : '}'}` }, { p: `T${BLANK}` }] };
  }
}
function filledIn(call, k) {
  let text = '';
  for (let i = 0; i < 4; i++) { text += String.fromCharCode(97 + ((k * 7 + i) % 26)); k = Math.floor(k / 26) + i; }
  return JSON.parse(JSON.stringify(call).replaceAll(BLANK, text));
}
const PROBES = [
  { pkg: 'compiler', fn: 'genFromDecomposed', args: [{ p: '{"parts":[{"is_public":false,"regex_def":"a:"},{"is_public":true,"regex_def":"[b-d]+"}]}' }, { p: 'Probe' }], must: 'return' },
  { pkg: 'compiler', fn: 'genCircom', args: [{ obj: [['parts', { arr: [{ obj: [['is_public', { p: true }], ['regex_def', { p: '(x|yy)z' }]] }] }]] }, { p: 'Probe' }], must: 'return' },
  { pkg: 'apis', fn: 'extractSubstr', args: [{ p: 'key=value;' }, { obj: [['parts', { arr: [{ obj: [['is_public', { p: false }], ['regex_def', { p: '=' }]] }, { obj: [['is_public', { p: true }], ['regex_def', { p: '[a-z]+' }]] }] }]] }, { p: false }], must: 'return' },
  { pkg: 'apis', fn: 'padString', args: [{ p: 'né' }, { p: 6 }], must: 'return' },
];

function judge(property, call, out, ref, boomed, where) {
  const bad = [];
  if (property === 'C19') return bad;
  if (property === 'C07') {
    if (out.key !== ref.key) bad.push({ oracle: 'fresh', property, why: `a fresh instance ${brief(ref.key)}, this one ${brief(out.key)}`, call, where });
    if (call.fn === 'padString' && 'value' in out) {
      const b = [...new TextEncoder().encode(call.args[0].p)];
      while (b.length < call.args[1].p) b.push(0);
      if (JSON.stringify(b) !== JSON.stringify(out.value)) bad.push({ oracle: 'model', property, why: `padded to ${brief(show(out.value))}`, call, where });
    }
    return bad;
  }
  const say = (oracle, why) => bad.push({ oracle, property, why, call, where });
  if (out.trap) say('trap', `it ${brief(out.key)}`);
  else if (out.thrown !== undefined || !('value' in out)) {
    const e = out.thrown;
    if (!boomed) {
      const message = typeof e === 'string' ? e : e instanceof Error ? e.message : '';
      if (!message.trim()) say('described', `it throws ${brief(show(e))}, which does not describe the problem`);
      else if (/unreachable|memory access out of bounds|table index|null function|indirect call/.test(message)) say('described', `it throws ${brief(message)}`);
      else if (!hasProxy(call) && (e instanceof TypeError || e instanceof RangeError || e instanceof ReferenceError)) say('described', `it throws an accidental ${e.constructor.name}: ${brief(message)}`);
      else if (/panicked at/.test(message)) say('described', `it throws ${brief(message)}`);
    }
    if (call.must === 'return') say('return', `it must succeed, and ${brief(out.key)}`);
    else if ('value' in ref) say('usable', `it succeeds on a fresh instance, and on this one ${brief(out.key)}`);
  } else {
    if (call.must === 'throw') say('throw', `it cannot succeed, and ${brief(out.key)}`);
    else if (!('value' in ref)) say('usable', `a fresh instance ${brief(ref.key)}, this one ${brief(out.key)}`);
  }
  return bad;
}
const hasProxy = (call) => JSON.stringify(call).includes('"proxy"');

// The findings listed as known, by id; entries that begin with "fixed:" suppress nothing.
const findings = new Map();
for (const l of (existsSync(path.join(verif, 'known-findings.txt')) ? readFileSync(path.join(verif, 'known-findings.txt'), 'utf8') : '').split('\n')) {
  const m = /^finding: property=(C07|C08|C19) id=(\S+) replay=(\S+) (.*)$/.exec(l);
  if (m) findings.set(m[2], { property: m[1], replay: m[3], text: m[4] });
}

// Runs a history; stops at the first violation.
function play(property, h, stats, native) {
  const slots = { apis: [], compiler: [] };
  const trace = createHash('sha256');
  const bad = [];
  const count = (k) => { stats.faults[k] = (stats.faults[k] || 0) + 1; };
  const get = (pkg, i) => (slots[pkg][i] = slots[pkg][i] || instance(pkg));
  const kept = new Map();
  let depth = 0, top = '', serial = 0;
  const clock = new Rng('clock', h.slots, h.steps.length);
  host.now = 1e12;
  function perform(call, on, where) {
    const pass = clock.p(0.02) ? clock.n(4000000000) : clock.n(60000);
    host.now += clock.p(0.01) ? -pass : pass;
    stats.simMs += pass;
    pulse(where);
    const ref = property === 'C19' ? {} : reference(call);
    const inst = get(call.pkg, on % h.slots);
    const root = {};
    const ctx = {
      boomed: false,
      boom() { this.boomed = true; },
      fired(k) { count(k); },
      call(a) {
        if (depth > 4) return reference(a.call);
        stats.nested++;
        return perform(a.call, a.on, `${where}, inside its argument`);
      },
    };
    depth++;
    let out;
    const begun = process.env.ZKSIM_SLOW ? Date.now() : 0;
    try {
      const args = call.args.map((v) => build(v, ctx, root));
      out = outcome(() => inst[call.fn](...args));
    } finally { depth--; }
    stats.calls++;
    if (begun && Date.now() - begun > 300) console.error(`${Date.now() - begun} ms: ${where} ${describe(call)} ${brief(out.key)}`);
    trace.update(`${where} ${call.fn} ${out.key}\n`);
    if (out.trap) stats.seen.traps++; else if ('value' in out) stats.seen.returned++; else stats.seen.threw++;
    bad.push(...judge(property, call, out, ref, ctx.boomed || ref.boomed, where));
    if (property === 'C07' && native) native.add(call, out, where);
    return out;
  }
  for (let round = 0; round < (h.rounds || 1) && !bad.length; round++) {
  for (let i = 0; i < h.steps.length && !bad.length; i++) {
    const s = h.steps[i];
    if ('restart' in s) { slots[s.pkg][s.restart % h.slots] = undefined; count('instance replaced'); continue; }
    for (let t = 0; t < (s.times || 1) && !bad.length; t++) { top = perform(s.varied ? filledIn(s.call, serial++) : s.call, s.on, `step ${i + 1}${s.times ? `, time ${t + 1}` : ''}`); }
    if (s.times > 100) count('series of more than 100 calls');
    if (s.call.must === 'throw') count('call that cannot succeed');
    if (top.trap) break;
  }
  if (h.rounds) for (const pkg in slots) slots[pkg].forEach((inst, i) => {
    for (const [k, v] of [...Object.entries(held(inst)), ['thrown', thrown.get(inst) || 0]]) {
      const id = `${pkg} ${i}: ${k}`;
      if (!kept.has(id)) kept.set(id, []);
      kept.get(id).push(v);
    }
  });
  if (top.trap) break;
  }
  if (!top.trap) for (const [id, v] of kept) {
    trace.update(`${id} ${v}\n`);
    if (id.endsWith(': thrown') || v.length < 9) continue;
    const last = v.slice(-7);
    const rises = last.filter((x, i) => i > 0 && x > last[i - 1]).length;
    if (rises === 6 || (rises >= 3 && id.endsWith(': memory'))) {
      const met = (kept.get(id.replace(/: .*/, ': thrown')) || []).slice(-7);
      const known = id.endsWith(': values of the host') && last.every((x, i) => i === 0 || x - last[i - 1] <= met[i] - met[i - 1]) ? 'host-values-of-exceptions' : undefined;
      if (known && !(stats.known = stats.known || {})[known]) stats.known[known] = 0;
      if (known) stats.known[known]++;
      if (known && findings.has(known) && !h.listed) continue;
      bad.push({ oracle: 'held', known, property, why: `what an instance holds grows with every round of the same calls (${id}): ${v.join(', ')}`, call: h.steps[h.steps.length - 1].call, where: `round ${v.length}` });
      break;
    }
  }
  if (!bad.length && !h.rounds) for (let i = 0; i < h.slots; i++) for (const p of PROBES) if (slots[p.pkg][i] && !bad.length) perform(p, i, 'probe at the end');
  if (!bad.length && native) bad.push(...native.flush());
  else if (native) native.queue = [];
  return { bad, hash: trace.digest('hex').slice(0, 16) };
}
const newStats = () => ({ episodes: 0, calls: 0, nested: 0, distinct: 0, repeated: 0, notRepeated: 0, faults: {}, seen: { returned: 0, threw: 0, traps: 0 }, compared: 0, instances: 0, simMs: 0, samples: [] });

// Tells whoever watches this process that the simulation goes on.
let beat = 0, watched = 0, playing = '';
function pulse(where) { if (watched) writeSync(watched, `${playing} | ${where} | ${++beat}`.padEnd(200).slice(0, 200), 0); }

// ---------------------------------------------------------------- minimising
function same(property, h, oracle, budget) {
  pulse('minimising');
  if (Date.now() > budget) return null;
  memo.clear();
  const r = play(property, h, newStats(), oracle === 'native' ? new Native() : null);
  const b = r.bad.find((x) => x.oracle === oracle);
  return b ? { ...b, hash: r.hash } : null;
}
function minimise(property, h, oracle) {
  const budget = Date.now() + 60000;
  let best = h, hit = same(property, h, oracle, budget);
  if (!hit) return { history: h, hit: null };
  const attempt = (c) => { const r = same(property, c, oracle, budget); if (r) { best = c; hit = r; } return !!r; };
  for (let size = Math.max(1, best.steps.length >> 1); ; size = Math.max(1, size >> 1)) {
    for (let i = best.steps.length; i > 0; i -= size) {
      const from = Math.max(0, i - size);
      attempt({ ...best, steps: best.steps.filter((_, k) => k < from || k >= i) });
      if (i > best.steps.length + size) i = best.steps.length + size;
    }
    if (size === 1) break;
  }
  for (let i = 0; i < best.steps.length; i++) {
    let s = best.steps[i];
    while (s.times > 1 && Date.now() < budget) {
      const times = s.times >> 1;
      if (!attempt({ ...best, steps: best.steps.map((x, k) => (k === i ? { ...x, times } : x)) })) break;
      s = best.steps[i];
    }
  }
  // simpler arguments: every edit of a recipe that keeps the violation
  let changed = true;
  while (changed && Date.now() < budget) {
    changed = false;
    for (let i = 0; i < best.steps.length; i++) {
      if (!best.steps[i].call) continue;
      for (const call of simpler(best.steps[i].call)) {
        if (Date.now() > budget) break;
        if (attempt({ ...best, steps: best.steps.map((x, k) => (k === i ? { ...x, call } : x)) })) { changed = true; break; }
      }
    }
  }
  return { history: best, hit };
}
function* simpler(call) {
  for (let i = 0; i < call.args.length; i++) for (const v of simplerValue(call.args[i])) yield { ...call, args: call.args.map((x, k) => (k === i ? v : x)), must: undefined }; // what must come of it is known of the call as it was made
}
function* simplerValue(v) {
  if (typeof v.p === 'string' && v.p.length > 1 && v.p.length < 100000) { yield { p: v.p.slice(0, v.p.length >> 1) }; yield { p: v.p.slice(v.p.length >> 1) }; if (v.p.length < 60) for (let i = 0; i < v.p.length; i++) yield { p: v.p.slice(0, i) + v.p.slice(i + 1) }; }
  if (v.arr) {
    for (let i = 0; i < v.arr.length; i++) yield { ...v, arr: v.arr.filter((_, k) => k !== i) };
    for (let i = 0; i < v.arr.length; i++) for (const x of simplerValue(v.arr[i])) yield { ...v, arr: v.arr.map((y, k) => (k === i ? x : y)) };
  }
  if (v.obj) {
    if (v.proto) yield { ...v, proto: undefined };
    for (const k of Object.keys(v.get || {})) {
      const get = { ...v.get }; delete get[k];
      yield { ...v, get: Object.keys(get).length ? get : undefined };
      for (const a of simplerGetter(v.get[k])) yield { ...v, get: { ...v.get, [k]: a } };
    }
    for (let i = 0; i < v.obj.length; i++) for (const x of simplerValue(v.obj[i][1])) yield { ...v, obj: v.obj.map((f, k) => (k === i ? [f[0], x] : f)) };
  }
  if (v.proxy) { yield v.proxy; for (const a of simplerGetter(v.act)) yield { ...v, act: a }; }
}
function* simplerGetter(g) {
  for (let i = 0; i < g.acts.length; i++) yield { ...g, acts: g.acts.filter((_, k) => k !== i) };
  if (g.boom && g.acts.length) yield { ...g, boom: undefined };
  for (let i = 0; i < g.acts.length; i++) if (g.acts[i].call) for (const c of simpler(g.acts[i].call)) yield { ...g, acts: g.acts.map((a, k) => (k === i ? { ...a, call: c } : a)) };
}

// ---------------------------------------------------------------- commands
function describe(call) { return `${call.fn}(${call.args.map((v) => brief(JSON.stringify(v.p !== undefined ? v.p : v))).join(', ')})`; }

function worker(property, id, workers, secs, limit, watch) {
  watched = openSync(watch, 'w');
  const stats = newStats(), native = new Native(), distinct = new Set();
  const end = Date.now() + secs * 1000;
  let violation = null;
  for (let k = id; Date.now() < end && (!limit || k < limit); k += workers) {
    const seed = baseSeed * 1000003 + k;
    playing = String(seed);
    pulse('start');
    const h = history(property, seed);
    const before = stats.nested;
    const r = play(property, h, stats, property === 'C07' ? native : null);
    stats.episodes++;
    if (!distinct.has(r.hash)) distinct.add(r.hash);
    if (stats.samples.length < 2 && stats.nested > before) stats.samples.push(h.steps.slice(0, 4).map((s) => (s.call ? `${s.times || 1} x ${describe(s.call)}`.slice(0, 400) : 'instance replaced')).join(' ; '));
    if (r.bad.length) {
      const m = minimise(property, h, r.bad[0].oracle);
      const b = m.hit || r.bad[0];
      violation = { property, seed, oracle: b.oracle, why: b.why, call: describe(b.call), where: b.where, hash: b.hash || r.hash, minimised: !!m.hit, history: m.history, original_steps: h.steps.length };
      break;
    }
    if (k % 40 === id % 40) {
      memo.clear();
      const again = play(property, h, newStats(), null);
      stats.repeated++;
      if (again.hash !== r.hash) { stats.notRepeated++; violation = { property, seed, oracle: 'repeat', why: 'the same history gave another execution', hash: r.hash, history: h, minimised: false }; break; }
    }
  }
  stats.compared = native.compared;
  stats.instances = built;
  stats.distinct = distinct.size;
  process.send({ stats, violation }, () => process.exit(0));
}

// Runs this program in a child, and ends it when the simulation in it stands still.
const STILL = Number(process.env.ZKSIM_STILL || 90);
function watchedRun(args, file) {
  return new Promise((resolve) => {
    const c = fork(fileURLToPath(import.meta.url), [...args, file], { stdio: ['ignore', 'inherit', 'inherit', 'ipc'], execArgv: ['--stack-size=4000'] });
    let got = null, stuck = null, last = '', since = Date.now();
    c.on('message', (m) => { got = m; });
    const timer = setInterval(() => {
      let now = last;
      try { now = readFileSync(file, 'utf8'); } catch {}
      if (now !== last) { last = now; since = Date.now(); } else if (!got && last && Date.now() - since > STILL * 1000) { stuck = last.trim(); c.kill('SIGKILL'); }
    }, 500);
    c.on('exit', (code, signal) => { clearInterval(timer); resolve(stuck ? { stuck } : got || { died: `${code} ${signal}` }); });
  });
}
async function hangs(property, h, scratch) {
  const file = path.join(scratch, 'history.json');
  writeFileSync(file, JSON.stringify({ property, history: h }));
  return !!(await watchedRun(['play', file], path.join(scratch, 'pulse-play'))).stuck;
}
// What a stuck worker was doing, as a violation.
async function hang(property, stuck, scratch) {
  const seed = Number(stuck.split(' ')[0]), where = stuck.split(' | ')[1] || '';
  const full = history(property, seed);
  const at = /^step (\d+)/.exec(where);
  let best = at ? { ...full, steps: full.steps.slice(0, Number(at[1])) } : full;
  if (!await hangs(property, best, scratch)) return null;
  const last = { ...best, steps: best.steps.slice(-1) };
  const minimised = best.steps.length > 1 && await hangs(property, last, scratch);
  if (minimised) best = last;
  const call = best.steps[best.steps.length - 1].call;
  return { property, seed, oracle: 'hang', why: `the call does not return within ${STILL} s`, call: call ? describe(call) : '', where, minimised, history: best, original_steps: full.steps.length };
}

async function check(property) {
  const start = Date.now();
  const secs = Number(process.env.ZKSIM_SECS || (tier === 'thorough' ? 1200 : 50));
  const workers = Number(process.env.ZKSIM_THREADS || Math.max(1, Math.min(8, os.availableParallelism())));
  const limit = Number(process.env.ZKSIM_EPISODES || 0);
  const known = [];
  for (const [id, f] of findings) {
    if (f.property !== property) continue;
    const v = JSON.parse(readFileSync(path.join(verif, f.replay), 'utf8'));
    const r = play(property, { ...v.history, listed: true }, newStats(), null);
    memo.clear();
    if (r.bad.some((x) => x.known === id)) { console.log(`KNOWN-FINDING: property=${property} ${f.text}`); known.push(id); }
  }
  const scratch = mkdtempSync(path.join(os.tmpdir(), 'zksim-js-'));
  const results = await Promise.all(Array.from({ length: workers }, (_, i) => watchedRun(['worker', property, String(i), String(workers), String(secs), String(limit)], path.join(scratch, `pulse${i}`))));
  const t = newStats();
  let violation = null, died = 0;
  for (const r of results) {
    if (r.stuck) {
      console.error(`a worker stands still: ${r.stuck}`);
      if (!violation) violation = await hang(property, r.stuck, scratch);
      died++;
      continue;
    }
    if (r.died) { died++; console.error(`a worker died: ${r.died}`); continue; }
    for (const k of ['episodes', 'calls', 'nested', 'distinct', 'repeated', 'notRepeated', 'compared', 'instances', 'simMs']) t[k] += r.stats[k];
    for (const k in r.stats.faults) t.faults[k] = (t.faults[k] || 0) + r.stats.faults[k];
    for (const k in r.stats.known) (t.known = t.known || {})[k] = (t.known[k] || 0) + r.stats.known[k];
    for (const k in r.stats.seen) t.seen[k] += r.stats.seen[k];
    t.samples.push(...r.stats.samples.slice(0, 1));
    if (r.violation && (!violation || r.violation.seed < violation.seed)) violation = r.violation;
  }
  rmSync(scratch, { recursive: true, force: true });
  const wall = (Date.now() - start) / 1000;
  mkdirSync(path.join(verif, 'evidence/replays'), { recursive: true });
  const evidence = {
    property, tier, seed: baseSeed, level: 'exploration', wall_s: Math.round(wall * 10) / 10,
    coverage: {
      evaluations: t.calls, distinct_nontrivial: t.distinct,
      rule: 'evaluations = calls of the real wasm exports; one episode = a seeded history of calls on up to six live instances, judged call by call; distinct = different hash of all calls and their outcomes within a worker, every episode has several calls',
      samples: t.samples.slice(0, 4),
      episodes: t.episodes, episodes_per_hour: Math.round((t.episodes * 3600) / wall), seeds_per_hour: Math.round((t.episodes * 3600) / wall),
      calls_nested_in_arguments: t.nested, fresh_and_long_lived_instances: t.instances,
      calls_compared_with_the_native_library: t.compared, outcomes: t.seen, faults_fired: t.faults,
      ...(known.length ? { known_findings_reproduced: known, known_findings_met: t.known || {} } : {}),
      repeated_for_determinism: t.repeated, not_repeated_exactly: t.notRepeated, simulated_seconds: Math.round(t.simMs / 1000),
      real: ['zk-regex-apis and zk-regex-compiler as wasm32 (unmodified), their wasm-bindgen glue (unmodified)', ...(property === 'C07' ? ['native zk-regex-apis and zk-regex-compiler libraries'] : [])],
      stubbed: ["the host's clock, Math.random, crypto and console; the arguments' getters and proxies"],
    },
    assumptions: ['sampling: histories that were not drawn were not checked', 'memory exhaustion and JavaScript stack exhaustion of the host are not simulated'],
  };
  if (violation) {
    const file = path.join(verif, 'evidence/replays', `${property}-${violation.seed}.json`);
    writeFileSync(file, JSON.stringify(violation, null, 1));
    evidence.violation = violation.why;
    writeFileSync(path.join(verif, 'evidence', `${property}.json`), JSON.stringify(evidence, null, 2));
    console.log(`${violation.call || ''} (${violation.where || ''}, seed ${violation.seed}): ${violation.why}`);
    console.log(`VIOLATION property=${property} replay=${file}`);
    process.exit(1);
  }
  writeFileSync(path.join(verif, 'evidence', `${property}.json`), JSON.stringify(evidence, null, 2));
  if (died) console.error(`${died} of ${workers} workers did not finish`);
  if (t.episodes === 0 || died * 2 >= workers) { console.error('the simulation did not complete'); process.exit(2); }
  console.log(`${property}: ${t.episodes} histories, ${t.calls} calls (${t.nested} nested), ${t.compared} compared natively, ${t.distinct} distinct, ${t.instances} instances; quiet`);
}

async function replay(file) {
  const v = JSON.parse(readFileSync(file, 'utf8'));
  if (v.oracle === 'hang') {
    const scratch = mkdtempSync(path.join(os.tmpdir(), 'zksim-js-'));
    const again = await hangs(v.property, v.history, scratch);
    rmSync(scratch, { recursive: true, force: true });
    console.log(again ? `${v.call} (${v.where}): ${v.why}\nVIOLATION property=${v.property} replay=${file}` : 'the violation did not come back');
    return again ? 1 : 0;
  }
  const r = play(v.property, v.history, newStats(), v.property === 'C07' ? new Native() : null);
  const b = r.bad.find((x) => x.oracle === v.oracle);
  if (!b) { console.log('the violation did not come back'); return 0; }
  console.log(`${describe(b.call)} (${b.where}): ${b.why}`);
  console.log(`execution ${r.hash}${r.hash === v.hash ? ', exactly as recorded' : `, recorded was ${v.hash}`}`);
  console.log(`VIOLATION property=${v.property} replay=${file}`);
  return 1;
}

const [cmd, a, b, c, d, e] = process.argv.slice(2);
if (cmd === 'worker') worker(a, Number(b), Number(c), Number(d), Number(e), process.argv[8]);
else if (cmd === 'play') {
  const v = JSON.parse(readFileSync(a, 'utf8'));
  watched = openSync(b, 'w');
  play(v.property, v.history, newStats(), null);
}
else if (cmd === 'check') await check(a);
else if (cmd === 'replay') process.exit(await replay(a));
else if (cmd === 'episode') {
  const h = history(a, Number(b));
  console.log(JSON.stringify(h, null, 1));
  const r = play(a, h, newStats(), a === 'C07' ? new Native() : null);
  console.log(r.hash, r.bad.map((x) => `${x.oracle}: ${describe(x.call)} ${x.where}: ${x.why}`));
} else { console.error('usage: sim.mjs check C07|C08|C19 | replay FILE | episode ID SEED'); process.exit(2); }
