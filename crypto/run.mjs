// Runs the wasm32 build of the monitors: node run.mjs <wasm> <prop index>
// <episodes> <seed> <thorough 0|1> <out>
import { Worker, isMainThread, workerData, parentPort } from 'node:worker_threads';
import { readFileSync, writeFileSync } from 'node:fs';
import { cpus } from 'node:os';
const CHUNK_TARGET = 64;
if (isMainThread) {
  const [wasm, prop, eps, seed, thorough, out] = process.argv.slice(2);
  const total = Number(eps), n = Math.min(8, cpus().length || 4);
  const mod = new WebAssembly.Module(readFileSync(wasm));
  const chunk = Math.max(1, Math.ceil(total / CHUNK_TARGET));
  let next = 0; const lines = []; let live = n; let done = 0;
  const cap = Date.now() + 1000 * (Number(process.env.VERIF_TIME_CAP) || (thorough === '1' ? 1500 : 240));
  const last = new Map(); // worker -> [from, since]
  const finish = () => { writeFileSync(out, lines.join('\n') + `\nepisodes\t${done}\n`); process.exit(0); };
  const watch = setInterval(() => {
    for (const [, [from, since]] of last) if (Date.now() - since > 200000) {
      lines.push(`viol\t${from}\thang\tepisodes from ${from} did not finish within 200 s\t`);
      writeFileSync(out, lines.join('\n') + `\nepisodes\t${done + 1}\n`); process.exit(0);
    }
  }, 1000);
  for (let i = 0; i < n; i++) {
    const w = new Worker(new URL(import.meta.url), { workerData: { mod, prop: Number(prop), seed, thorough: Number(thorough) }, resourceLimits: { stackSizeMb: 64 } });
    const feed = () => {
      if (next >= total || Date.now() > cap) { w.postMessage(null); last.delete(i); return; }
      const from = next; const to = Math.min(total, next + chunk); next = to; last.set(i, [from, Date.now()]);
      w.postMessage([from, to]);
    };
    w.on('message', (m) => { for (const l of m.text.split('\n')) if (l) lines.push(l); done += m.n; feed(); });
    w.on('error', (e) => { lines.push(`error\tworker: ${String(e).replace(/\s+/g, ' ')}`); });
    w.on('exit', () => { last.delete(i); if (--live === 0) { clearInterval(watch); finish(); } });
    feed();
  }
} else {
  const { mod, prop, seed, thorough } = workerData;
  const s = BigInt.asUintN(64, BigInt(seed));
  const lo = Number(s & 0xffffffffn), hi = Number(s >> 32n);
  let inst = null;
  parentPort.on('message', (m) => {
    if (m === null) { parentPort.close(); return; }
    const [from, to] = m;
    let text = '', n = to - from;
    if (inst === null) inst = new WebAssembly.Instance(mod, {}).exports;
    const str = (p, l) => Buffer.from(new Uint8Array(inst.memory.buffer, p >>> 0, l >>> 0)).toString('utf8');
    try {
      const p = inst.run(prop, lo, hi, from, to, thorough);
      text = str(p, inst.out_len());
    } catch (e) {
      const ep = inst.cur_ep() >>> 0;
      const msg = str(inst.panic_ptr(), inst.panic_len()) || String(e);
      text = `viol\t${ep}\ttrap\t${msg.replace(/[\t\n\r]/g, ' ')}\t`;
      n = Math.max(1, ep - from + 1); inst = null;
    }
    parentPort.postMessage({ text, n });
  });
}
