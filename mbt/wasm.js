// Runs the 32-bit build of the driver: wasm.js MODULE [--tables], a stimulus per line in, an answer per line out.
const fs = require("fs");
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const tab = process.argv.includes("--tables") ? 1 : 0;
const none = () => 0;
let x = null;
function fresh() {
  const imports = {};
  for (const i of WebAssembly.Module.imports(mod)) (imports[i.module] ??= {})[i.name] = none;
  x = new WebAssembly.Instance(mod, imports).exports;
}
function step(line) {
  if (!x || x.memory.buffer.byteLength > 1 << 29) fresh();
  try {
    const p = x.room(line.length);
    new Uint8Array(x.memory.buffer, p, line.length).set(line);
    const q = x.step(p, line.length, tab) >>> 0;
    const n = new DataView(x.memory.buffer).getUint32(q, true);
    const out = Buffer.from(new Uint8Array(x.memory.buffer, q + 4, n));
    x.done(q, n);
    return out;
  } catch (e) { x = null; return Buffer.from(JSON.stringify({ r: { x: "PANIC" }, ft: [], fs: [] }) + "\n"); }
}
let rest = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
for (;;) {
  let n;
  try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) { if (e.code === "EAGAIN") continue; if (e.code === "EOF") break; throw e; }
  if (n === 0) break;
  rest = Buffer.concat([rest, chunk.subarray(0, n)]);
  let a = 0, b;
  while ((b = rest.indexOf(10, a)) >= 0) { const o = step(rest.subarray(a, b)); let w = 0; while (w < o.length) w += fs.writeSync(1, o, w); a = b + 1; }
  rest = rest.subarray(a);
}
