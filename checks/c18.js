// C18: enumerates platform environments, sizes and generator behaviours for the JavaScript seed generator.
'use strict';
const fs = require('fs'), vm = require('vm');
const file = process.argv[2], thorough = process.argv[3] === 'thorough';
const script = new vm.Script(fs.readFileSync(file, 'utf8'), { filename: file });
let evals = 0, distinct = 0, samples = [], fails = [], faults = 0;

class Uint8Vector {           // what embind's register_vector<unsigned char> offers
    constructor() { this.v = []; }
    push_back(x) { this.v.push(x & 255); }
    resize(n, x) { while (this.v.length < n) this.v.push(x & 255); this.v.length = n; }
    size() { return this.v.length; }
    get(i) { return this.v[i]; }
    set(i, x) { if (i < 0 || i >= this.v.length) return false; this.v[i] = x & 255; return true; }
    delete() { this.v = null; }
}
let gen = 1;
function pattern(n, kind) {   // what one request to the platform yields
    const b = new Uint8Array(n);
    for (let i = 0; i < n; i++) {
        if (kind === 'good') { gen = (Math.imul(gen, 1664525) + 1013904223) >>> 0; b[i] = gen >>> 24; }
        else if (kind === 'zero') b[i] = 0;
        else if (kind === 'ones') b[i] = 255;
        else if (kind === 'count') b[i] = (i + 1) & 255;
        else if (typeof kind === 'object') b[i] = i === kind.pos ? kind.val : 0;
    }
    if (kind === 'good' && n) b[0] |= 1;
    return b;
}
// A platform crypto object. behaviours: what getRandomValues does.
function makeCrypto(kind, log) {
    const c = {
        getRandomValues(a) {
            if (this !== c) throw new TypeError('Illegal invocation');
            if (!ArrayBuffer.isView(a) || /Float|DataView/.test(Object.prototype.toString.call(a))) throw new TypeError('not an integer array');
            if (a.byteLength > 65536) { const e = new Error('quota'); e.name = 'QuotaExceededError'; throw e; }
            log.calls++;
            if (kind === 'throws') throw new Error('generator failure');
            if (kind && kind.throwOn === log.calls) throw new Error('generator failure');
            const u = new Uint8Array(a.buffer, a.byteOffset, a.byteLength);
            const p = pattern(u.length, kind && kind.throwOn ? 'good' : kind);
            u.set(p);
            for (const x of p) log.bytes.push(x);
            return a;
        },
        randomUUID() { return '00000000-0000-4000-8000-000000000000'; },
    };
    return c;
}
const ABSENT = Symbol();
// environment: {g, s, w}: the crypto property of globalThis, self and window (ABSENT: no such object or property)
function run(env, args) {
    const box = {};
    if (env.s !== ABSENT) box.self = env.s.o;
    if (env.w !== ABSENT) box.window = env.w.o;
    box.Module = { Uint8Vector };
    const ctx = vm.createContext(box);
    if (env.g !== ABSENT) Object.defineProperty(box, 'crypto', { value: env.g.c, configurable: true });
    vm.runInContext('Math.random = function () { return 0.5; };' + (env.noGlobalThis ? 'delete globalThis.globalThis;' : ''), ctx);
    try {
        script.runInContext(ctx);
        const r = box.Module.getRandomSeed(...args);
        return { ok: true, v: Array.from(r.v), vec: r instanceof Uint8Vector };
    } catch (e) { return { ok: false, e: String(e) }; }
}
function fail(what, msg) { if (fails.length < 20) fails.push({ key: '', msg, case: what }); }
function show(x) { try { return typeof x === 'bigint' ? x + 'n' : typeof x === 'symbol' ? 'symbol' : JSON.stringify(x) + '(' + typeof x + ')'; } catch (e) { return typeof x; } }

function check(what, env, logs, args, expect) {
    evals++; distinct++;
    if (samples.length < 2) samples.push(what);
    for (const l of logs) { l.calls = 0; l.bytes = []; }
    const r = run(env, args);
    if (expect === 'throw') { faults++; if (r.ok) fail(what, 'returned ' + r.v.length + ' bytes instead of throwing'); return; }
    if (!r.ok) { if (expect === 'return') fail(what, 'threw ' + r.e); return; }
    const n = args.length && args[0] !== undefined ? args[0] : 48;
    if (!r.vec) return fail(what, 'did not return a Uint8Vector');
    if (r.v.length !== n) return fail(what, 'returned ' + r.v.length + ' bytes');
    const same = logs.some(l => l.bytes.length >= n && l.bytes.slice(l.bytes.length - n).every((b, i) => b === r.v[i]));
    if (!same) fail(what, 'the bytes returned are not those of the secure generator');
}
function log() { return { calls: 0, bytes: [] }; }
function simple(kind, l) { return { g: { c: makeCrypto(kind, l) }, s: ABSENT, w: ABSENT }; }

// 1. sizes with a healthy generator, in each place the platform may keep it
const bad = [0, -1, -0, 0.5, 1.5, 47.9999, 48.0000001, -48, NaN, Infinity, -Infinity, null, false, true, '', '48', '0', 'abc', [], [48], [1, 2], {}, { valueOf() { return 48; } }, new Number(48), 48n, 0n, Symbol('x'),
    () => 48, new Uint8Array(48), 1e-10, 2 ** 53, 2 ** 53 + 2, 1e300, -(2 ** 31), 15.5, 16.5, 65536.5, Number.MIN_VALUE, Number.MAX_VALUE, new Date(48), /48/];
const places = {
    globalThis: (c) => ({ g: { c }, s: ABSENT, w: ABSENT }),
    self: (c) => ({ g: ABSENT, s: { o: { crypto: c } }, w: ABSENT }),
    window: (c) => ({ g: ABSENT, s: ABSENT, w: { o: { crypto: c } } }),
    'self without globalThis': (c) => ({ g: ABSENT, s: { o: { crypto: c } }, w: ABSENT, noGlobalThis: true }),
    'window without globalThis': (c) => ({ g: ABSENT, s: ABSENT, w: { o: { crypto: c } }, noGlobalThis: true }),
};
for (const pl in places) {
    const l = log(), env = places[pl](makeCrypto('good', l));
    const top = pl === 'globalThis' ? (thorough ? 5000 : 1200) : 80;
    for (let n = 1; n <= top; n++) check(pl + ' size ' + n, env, [l], [n], 'return');
    for (const n of [4096, 65535, 65536]) check(pl + ' size ' + n, env, [l], [n], 'return');
    for (const n of [65537, 70000, 131072]) check(pl + ' size ' + n, env, [l], [n], 'either');
    check(pl + ' default size', env, [l], [], 'return');
    check(pl + ' undefined size', env, [l], [undefined], 'return');
    for (const b of bad) check(pl + ' size ' + show(b), env, [l], [b], 'throw');
}
for (let n = -70; n < 70; n++) for (let k = 1; k < 8; k++) { const l = log(); check('size ' + (n + k / 8), simple('good', l), [l], [n + k / 8], 'throw'); }

// 2. every combination of what the three places may hold
const holdings = {
    absent: () => null,
    undefined: () => ({ c: undefined }),
    null: () => ({ c: null }),
    empty: () => ({ c: {} }),
    number: () => ({ c: 7 }),
    string: () => ({ c: 'crypto' }),
    'values not a function': () => ({ c: { getRandomValues: 5 } }),
    'values null': () => ({ c: { getRandomValues: null } }),
    'only subtle': () => ({ c: { subtle: {}, randomUUID() { return 'x'; } } }),
    throwing: (l) => ({ c: makeCrypto('throws', l), fails: true }),
    dead: (l) => ({ c: makeCrypto('zero', l), dead: true }),
    healthy: (l) => ({ c: makeCrypto('good', l), good: true }),
};
const H = Object.keys(holdings);
for (const a of H) for (const b of H) for (const c of H) for (const noG of [false, true]) {
    const logs = [log(), log(), log()];
    const x = [a, b, c].map((h, i) => holdings[h](logs[i]));
    const env = { g: x[0] || ABSENT, s: x[1] ? { o: { crypto: x[1].c } } : ABSENT, w: x[2] ? { o: { crypto: x[2].c } } : ABSENT, noGlobalThis: noG };
    const anyGood = (noG ? x.slice(1) : x).some(y => y && y.good);
    // the place that is looked at first must be enough; whether a broken one may be skipped is the implementation's choice
    const firstGood = noG ? (b === 'healthy') : (a === 'healthy');
    const expect = firstGood ? 'return' : anyGood ? 'either' : 'throw';
    for (const n of [48, 16, 1]) {
        if (n < 16 && [a, b, c].includes('dead')) { check(`globalThis ${a}, self ${b}, window ${c}, size ${n}`, env, logs, [n], 'either'); continue; }
        check(`globalThis.crypto ${a}, self.crypto ${b}, window.crypto ${c}${noG ? ', no globalThis' : ''}, size ${n}`, env, logs, [n], expect);
    }
}
// self or window being something unusual
for (const o of [null, undefined, 5, 'x', {}]) {
    const l = log();
    check('no crypto, self is ' + show(o), { g: ABSENT, s: { o }, w: ABSENT }, [l], [48], 'throw');
    check('no crypto, window is ' + show(o), { g: ABSENT, s: ABSENT, w: { o } }, [l], [48], 'throw');
    check('healthy, self is ' + show(o), { g: { c: makeCrypto('good', l) }, s: { o }, w: ABSENT }, [l], [48], 'return');
}
// 3. contents: all zero, one byte not zero at every position, other constant contents
for (let n = 1; n <= (thorough ? 700 : 130); n++) {
    const l = log();
    check('all zero, size ' + n, simple('zero', l), [l], [n], n >= 16 ? 'throw' : 'return');
    check('all 255, size ' + n, simple('ones', l), [l], [n], 'return');
    check('counting, size ' + n, simple('count', l), [l], [n], 'return');
    for (let pos = 0; pos < n; pos++) for (const val of [1, 128, 255]) check(`zero except byte ${pos} = ${val}, size ${n}`, simple({ pos, val }, l), [l], [n], 'return');
}
for (const n of [1024, 4096, 65535, 65536]) { const l = log(); check('all zero, size ' + n, simple('zero', l), [l], [n], 'throw'); for (const pos of [0, 1, 15, 16, 47, 255, 256, n - 1]) check(`zero except byte ${pos}, size ${n}`, simple({ pos, val: 1 }, l), [l], [n], 'return'); }
// 4. failures of the generator
for (let n = 1; n <= 70; n++) { const l = log(); check('generator throws, size ' + n, simple('throws', l), [l], [n], 'throw'); }
{ const l = log(); check('generator throws on the first call', simple({ throwOn: 1 }, l), [l], [48], 'throw'); check('default size, generator throws', simple('throws', l), [l], [], 'throw'); check('default size, all zero', simple('zero', l), [l], [], 'throw'); }
// 5. consecutive requests return fresh bytes
{ const l = log(), env = simple('good', l), seen = new Set(); for (let i = 0; i < 200; i++) { const r = run(env, [48]); evals++; distinct++; if (!r.ok) { fail('request ' + i, 'threw ' + r.e); continue; } if (seen.has(r.v.join())) fail('request ' + i, 'repeated seed'); seen.add(r.v.join()); } }

console.log(JSON.stringify({ shard: 'c18', wall: 0, states: 0, transitions: 0, evals, distinct, traces: 0, faults, capped: false, samples, extra: {}, fails }));
