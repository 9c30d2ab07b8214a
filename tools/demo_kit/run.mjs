// Runs the scenario exported as `demo` (and `demo_2` after an upgrade: fresh heap, same stable memory) of a wasm module.
import fs from 'node:fs';
const mod = await WebAssembly.compile(fs.readFileSync(process.argv[2]));
const pages = new Map();
let size = 0n, inst;
const mem = () => new Uint8Array(inst.exports.memory.buffer);
const page = (k) => { let p = pages.get(k); if (!p) pages.set(k, p = new Uint8Array(65536)); return p; };
const each = (off, n, f) => {
  if (off + n > size * 65536n) throw new Error('stable memory out of bounds');
  for (let i = 0; i < Number(n);) { const a = off + BigInt(i), o = Number(a & 65535n), m = Math.min(65536 - o, Number(n) - i); f(page(a >> 16n), o, i, m); i += m; }
};
const ic0 = {
  stable64_size: () => size, stable64_grow: (n) => { const o = size; size += n; return o; },
  stable64_read: (d, o, n) => { const m = mem(); each(BigInt.asUintN(64, o), BigInt.asUintN(64, n), (p, po, i, l) => m.set(p.subarray(po, po + l), Number(d) + i)); },
  stable64_write: (o, s, n) => { const m = mem(); each(BigInt.asUintN(64, o), BigInt.asUintN(64, n), (p, po, i, l) => p.set(m.subarray(Number(s) + i, Number(s) + i + l), po)); },
};
const demo = { say: (p, n) => console.log(Buffer.from(mem().slice(p, p + n)).toString()) };
for (const im of WebAssembly.Module.imports(mod)) if (im.module === 'ic0' && !ic0[im.name]) ic0[im.name] = (...a) => inst.exports[`ic0__${im.name}`](...a);
for (const name of ['demo', 'demo_2', 'demo_3']) {
  if (!WebAssembly.Module.exports(mod).some((e) => e.name === name)) continue;
  inst = await WebAssembly.instantiate(mod, { ic0, demo });
  try {
    const bad = inst.exports[name]();
    if (bad) { console.log(`${name}: ${bad} expectation(s) failed`); process.exit(1); }
  } catch (e) { console.log(`${name}: trapped: ${e.message}`); process.exit(1); }
}
console.log('as expected');
