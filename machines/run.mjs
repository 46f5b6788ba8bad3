// node run.mjs MODULE PLAN OUT [careful]: runs `id call...` lines, writes `id outcome hex`.
// careful: every result is written at once, with a `begin` line before the call.
import fs from 'fs';
const [wasm, plan, out, careful] = process.argv.slice(2);
const mod = new WebAssembly.Module(fs.readFileSync(wasm));
let x = null;
const enc = new TextEncoder(), dec = new TextDecoder();
const fd = fs.openSync(out, 'w');
let buf = [];
const put = (s) => { buf.push(s); if (careful || buf.length > 2000) { fs.writeSync(fd, buf.join('')); buf = []; } };
put(`machine little ${new WebAssembly.Instance(mod, {}).exports.bits()}\n`);
for (const line of fs.readFileSync(plan, 'utf8').split('\n')) {
  if (!line) continue;
  const i = line.indexOf(' '), id = line.slice(0, i), call = enc.encode(line.slice(i + 1));
  if (!x || x.memory.buffer.byteLength > 1 << 28) x = new WebAssembly.Instance(mod, {}).exports;
  if (careful) put(`${id} begin\n`);
  let r;
  try {
    const p = x.buffer(call.length);
    new Uint8Array(x.memory.buffer, p, call.length).set(call);
    const n = x.run(p, call.length) >>> 0;
    r = dec.decode(new Uint8Array(x.memory.buffer, x.result() >>> 0, n));
  } catch (e) {
    // a panic executes `unreachable`; anything else is not a way a call may end
    r = e instanceof WebAssembly.RuntimeError && /unreachable/.test(e.message) ? 'panic -' : 'abort -';
    x = null;
  }
  put(`${id} ${r}\n`);
}
fs.writeSync(fd, buf.join(''));
