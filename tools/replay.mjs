// Replay concrete draws against the compiled canister: the same wasm module, run by node's own engine.
//   node replay.mjs MODULE.wasm FILE.json     FILE: {"harness":…, "runs":[{"draws":[…]}…]}
// prints one JSON line per run: {outcome: "ok" | "violation" | "infeasible" | "error", id, detail, covers}
import fs from 'node:fs';
const [, , modPath, file] = process.argv;
const mod = await WebAssembly.compile(fs.readFileSync(modPath));
const job = JSON.parse(fs.readFileSync(file, 'utf8'));
const K = [0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2];
function compress(s, d, o) {
  const w = new Uint32Array(64);
  for (let i = 0; i < 16; i++) w[i] = d.getUint32(o + 4 * i, false);
  const r = (x, n) => (x >>> n) | (x << (32 - n));
  for (let i = 16; i < 64; i++) w[i] = w[i - 16] + (r(w[i - 15], 7) ^ r(w[i - 15], 18) ^ (w[i - 15] >>> 3)) + w[i - 7] + (r(w[i - 2], 17) ^ r(w[i - 2], 19) ^ (w[i - 2] >>> 10));
  let [a, b, c, e0, e, f, g, h] = s;
  for (let i = 0; i < 64; i++) {
    const t1 = (h + (r(e, 6) ^ r(e, 11) ^ r(e, 25)) + ((e & f) ^ (~e & g)) + K[i] + w[i]) | 0;
    const t2 = ((r(a, 2) ^ r(a, 13) ^ r(a, 22)) + ((a & b) ^ (a & c) ^ (b & c))) | 0;
    h = g; g = f; f = e; e = (e0 + t1) | 0; e0 = c; c = b; b = a; a = (t1 + t2) | 0;
  }
  const v = [a, b, c, e0, e, f, g, h];
  for (let i = 0; i < 8; i++) s[i] = (s[i] + v[i]) | 0;
}
class End extends Error { constructor(o) { super(o.outcome); this.o = o; } }
const only = job.only ?? [];
const wanted = (id) => { const t = id.split('/')[0]; return only.length === 0 || t === 'harness' || only.includes(t); };
async function run(harness, draws) {
  let next = 0, trapMode = 1, trapId = 'harness/unexpected-trap', inst, failed = null;
  const covers = [], scratch = new Map((job.params ?? []).map(([k, v]) => [k, BigInt(v)])), pages = new Map();
  let stablePages = 0n;
  const mem = () => new Uint8Array(inst.exports.memory.buffer);
  const str = (p, n) => Buffer.from(mem().slice(p >>> 0, (p >>> 0) + (n >>> 0))).toString();
  const draw = () => { if (next >= draws.length) throw new End({ outcome: 'error', detail: 'ran out of draws' }); return BigInt(draws[next++]); };
  const page = (k) => { let p = pages.get(k); if (!p) pages.set(k, p = new Uint8Array(65536)); return p; };
  const stable = (off, n, f) => {
    if (off + n > stablePages * 65536n) throw new Error('stable out of bounds');
    for (let i = 0; i < Number(n);) { const a = off + BigInt(i), o = Number(a & 65535n), m = Math.min(65536 - o, Number(n) - i); f(page(a >> 16n), o, i, m); i += m; }
  };
  const verif = {
    sym: (p, n, bits) => BigInt.asIntN(64, BigInt.asUintN(bits, draw())),
    ranged: (p, n, bits, lo, hi) => { const v = draw(); if (v < BigInt.asUintN(64, lo) || v > BigInt.asUintN(64, hi)) throw new End({ outcome: 'infeasible', detail: `range ${next}` }); return BigInt.asIntN(64, v); },
    choose: (n) => Number(draw()),
    assume: (c) => { if (!c) throw new End({ outcome: 'infeasible', detail: `assumption ${next}` }); },
    check: (c, p, n) => { if (!wanted(str(p, n))) return; if (!c && !failed) failed = { outcome: 'violation', id: str(p, n), detail: 'assertion is false' }; if (!c) throw new End(failed); },
    cover: (p, n) => { const s = str(p, n); if (!covers.includes(s)) covers.push(s); },
    trap_policy: (m, p, n) => { trapMode = m; trapId = str(p, n); },
    sha256_compress: (sp, bp, n) => {
      const d = new DataView(inst.exports.memory.buffer); const s = new Int32Array(8);
      for (let i = 0; i < 8; i++) s[i] = d.getInt32((sp >>> 0) + 4 * i, true);
      for (let k = 0; k < n; k++) compress(s, d, (bp >>> 0) + 64 * k);
      for (let i = 0; i < 8; i++) d.setInt32((sp >>> 0) + 4 * i, s[i], true);
    },
    scratch_set: (k, v) => { scratch.set(k, v); }, scratch_get: (k) => scratch.get(k) ?? 0n,
    flag: () => {}, log: (p, n, v) => { if (process.env.REPLAY_LOG) console.error(`log ${str(p, n)} ${BigInt.asUintN(64, v)}`); },
    done: () => { throw new End({ outcome: 'ok' }); }, concrete: (v) => v, fixed: () => 1,
  };
  const ic0 = {
    stable64_size: () => stablePages, stable64_grow: (n) => { const o = stablePages; stablePages += n; return o; },
    stable64_read: (d, o, n) => { const m = mem(); stable(BigInt.asUintN(64, o), BigInt.asUintN(64, n), (p, po, i, l) => m.set(p.subarray(po, po + l), Number(d) + i)); },
    stable64_write: (o, s, n) => { const m = mem(); stable(BigInt.asUintN(64, o), BigInt.asUintN(64, n), (p, po, i, l) => p.set(m.subarray(Number(s) + i, Number(s) + i + l), po)); },
  };
  const imports = { verif, ic0 };
  for (const im of WebAssembly.Module.imports(mod)) if (im.module === 'ic0' && !ic0[im.name]) ic0[im.name] = (...a) => inst.exports[`ic0__${im.name}`](...a);
  const sp = WebAssembly.Module.exports(mod).map((e) => e.name);
  for (let phase = 1; ; phase++) {
    const name = phase === 1 ? harness : `${harness}__${phase}`;
    if (!sp.includes(name)) return { outcome: 'ok', covers };
    inst = await WebAssembly.instantiate(mod, imports);
    try { inst.exports[name](); } catch (e) {
      if (e instanceof End) return { ...e.o, covers };
      if (trapMode === 1 && wanted(trapId)) return { outcome: 'violation', id: trapId, detail: `trap: ${e.message}`, where: (e.stack || '').split('\n').slice(1, 12).map((l) => l.trim().replace(/ \(wasm.*$/, '')), covers };
      return { outcome: 'ok', covers };
    }
  }
}
for (const r of job.runs) console.log(JSON.stringify(await run(job.harness, r.draws)));
