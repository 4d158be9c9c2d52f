// Drives generated TypeScript (bundled to JavaScript) from metadata: node driver.mjs code.js meta.json < requests
// Requests and replies are those of runtime.rs; decoding takes [type, bytes, start, end, mode].
import fs from 'node:fs';
import readline from 'node:readline';

const [code, metaFile] = process.argv.slice(2);
const meta = JSON.parse(fs.readFileSync(metaFile, 'utf8'));
const HUGE = 64 << 20;

class HugeAllocation {}

// The generated code's only use of the global Array is creating arrays of nulls, whose length a message
// dictates. Large ones are reported instead of being created.
let allocated = 0;
const FakeArray = new Proxy(Array, {
  apply(target, self, args) {
    if (args.length === 1 && typeof args[0] === 'number') {
      if (args[0] >= HUGE && args[0] <= 4294967295) throw new HugeAllocation();
      allocated += args[0] * 8;
    }
    return Reflect.apply(target, self, args);
  },
  construct(target, args, t) {
    if (args.length === 1 && typeof args[0] === 'number') {
      if (args[0] >= HUGE && args[0] <= 4294967295) throw new HugeAllocation();
      allocated += args[0] * 8;
    }
    return Reflect.construct(target, args, t === FakeArray ? target : t);
  },
});

const mod = { exports: {} };
new Function('exports', 'module', 'Array', fs.readFileSync(code, 'utf8'))(mod.exports, mod, FakeArray);
const gen = mod.exports;

const scratch = new DataView(new ArrayBuffer(8));
const u64 = (j) => {
  for (let i = 0; i < 8; i += 1) scratch.setUint8(i, j[i]);
  return scratch.getBigUint64(0, true);
};
const put64 = () => Array.from(new Uint8Array(scratch.buffer));
const strict = new TextDecoder('utf-8', { fatal: true, ignoreBOM: true });
const utf8 = new TextEncoder();

let flip = 0;
function parse(t, j) {
  switch (t[0]) {
    case 'Unit': return null;
    case 'Bool': return j[0] !== 0;
    case 'U64': return u64(j);
    case 'S64': return BigInt.asIntN(64, u64(j));
    case 'F64': u64(j); return scratch.getFloat64(0, true);
    case 'Bytes': return Uint8Array.from(j).buffer;
    case 'String': return strict.decode(Uint8Array.from(j));
    case 'Ref': return parseMessage(t[1], j);
    default:
      if (t[1][0] === 'Unit') return new Array(Number(u64(j))).fill(null);
      return j.map((x) => parse(t[1], x));
  }
}
function parseMessage(n, j) {
  const d = meta[n - 1];
  if (d.k === 'struct') {
    const o = {};
    d.f.forEach((f, i) => {
      if (j[i].length > 0) o[f.n] = parse(f.t, j[i][0]);
      else { flip ^= 1; if (flip) o[f.n] = undefined; }
    });
    return o;
  }
  const f = d.f[j[0] - 1];
  const o = { [f.n]: parse(f.t, j[1]) };
  if (f.r !== 'req') o.$fallback = parseMessage(n, j[2]);
  return o;
}

class Shape { constructor(m) { this.m = m; } }
const want = (c, m) => { if (!c) throw new Shape(m); };

function dump(t, x) {
  switch (t[0]) {
    case 'Unit': want(x === null, 'unit'); return [];
    case 'Bool': want(typeof x === 'boolean', 'bool'); return [x ? 1 : 0];
    case 'U64': want(typeof x === 'bigint' && x >= 0n && x < 1n << 64n, 'u64 ' + String(x)); scratch.setBigUint64(0, x, true); return put64();
    case 'S64': want(typeof x === 'bigint' && BigInt.asIntN(64, x) === x, 's64 ' + String(x)); scratch.setBigInt64(0, x, true); return put64();
    case 'F64': want(typeof x === 'number', 'f64'); scratch.setFloat64(0, x, true); return put64();
    case 'Bytes': want(x instanceof ArrayBuffer, 'bytes'); return Array.from(new Uint8Array(x));
    case 'String': want(typeof x === 'string', 'string'); return Array.from(utf8.encode(x));
    case 'Ref': return dumpMessage(t[1], x);
    default:
      want(Array.isArray(x), 'array');
      if (t[1][0] === 'Unit') {
        want(x.length === 0 || (x[0] === null && x[x.length - 1] === null), 'array of units');
        scratch.setBigUint64(0, BigInt(x.length), true);
        return put64();
      }
      return x.map((y) => dump(t[1], y));
  }
}
function dumpMessage(n, x) {
  const d = meta[n - 1];
  want(x !== null && typeof x === 'object', 'message');
  if (d.k === 'struct') {
    const names = new Set(d.f.map((f) => f.n));
    for (const k of Object.keys(x)) want(names.has(k), 'extra key ' + k);
    return d.f.map((f) => (x[f.n] === undefined ? [] : [dump(f.t, x[f.n])]));
  }
  const i = d.f.findIndex((f) => f.n === x.$field);
  want(i >= 0, 'case ' + String(x.$field));
  const f = d.f[i];
  const allowed = new Set(['$field', f.n].concat(f.r === 'opt' ? ['$fallback'] : []));
  for (const k of Object.keys(x)) want(allowed.has(k), 'extra key ' + k);
  const out = [i + 1, dump(f.t, x[f.n])];
  if (f.r === 'opt') out.push(dumpMessage(n, x.$fallback));
  return out;
}

let reads = 0;
class CountingView extends DataView {
  getUint8(o) { reads += 1; return super.getUint8(o); }
  getFloat64(o, l) { reads += 1; return super.getFloat64(o, l); }
  getBigUint64(o, l) { reads += 1; return super.getBigUint64(o, l); }
}

function input(b, p, e, mode) {
  const u = Uint8Array.from(b);
  if (mode === 0) return u.buffer;
  if (mode === 1) return new Uint8Array(u.buffer, p, e - p);
  if (mode === 2) return new DataView(u.buffer, p, e - p);
  return new CountingView(u.buffer, p, e - p);
}

const api = (n) => meta[n - 1].p.reduce((o, c) => o[c], gen);

function serve(op, j) {
  const t = api(j[0]);
  if (op === 'E') {
    const v = parseMessage(j[0], j[1]);
    const b = t.serialize(v);
    if (!(b instanceof ArrayBuffer)) return { st: 'shape', msg: 'serialize' };
    return { b: Array.from(new Uint8Array(b)), n: t.size(v) };
  }
  if (op === 'D') {
    const [n, b, p, e, mode] = j;
    reads = 0;
    allocated = 0;
    const data = input(b, p, e, mode);
    let x;
    try {
      x = t.deserialize(data);
    } catch (err) {
      return { st: 'throw', msg: String(err).slice(0, 200) };
    }
    if (x instanceof HugeAllocation) return { st: 'huge' };
    if (x instanceof Error) return { st: 'err', calls: reads, msg: x.constructor.name };
    try {
      return { st: 'ok', r: dumpMessage(n, x), calls: reads, tot: allocated };
    } catch (s) {
      if (s instanceof Shape) return { st: 'shape', msg: s.m };
      throw s;
    }
  }
  if (op === 'T') {
    const [n, pre, body, count, post] = j;
    const u = new Uint8Array(pre.length + body.length * count + post.length);
    u.set(pre, 0);
    for (let i = 0; i < count; i += 1) u.set(body, pre.length + i * body.length);
    u.set(post, pre.length + body.length * count);
    reads = 0;
    allocated = 0;
    const view = new CountingView(u.buffer);
    const start = process.cpuUsage();
    const x = t.deserialize(view);
    const d = process.cpuUsage(start);
    return { st: x instanceof Error ? 'err' : 'ok', len: u.length, us: d.user + d.system, calls: reads, tot: allocated, msg: x instanceof Error ? x.constructor.name : '' };
  }
  throw new Error('unknown operation');
}

for await (const line of readline.createInterface({ input: process.stdin, crlfDelay: Infinity })) {
  if (!line) continue;
  let r;
  try {
    r = serve(line[0], JSON.parse(line.slice(1)));
  } catch (e) {
    r = { st: 'throw', msg: String(e && e.stack ? e.stack : e).slice(0, 300) };
  }
  process.stdout.write(JSON.stringify(r) + '\n');
}
