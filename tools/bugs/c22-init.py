id="c22-init"; property="C22"
needs="A second initialisation that is awaited while the first one is still compiling the module."
breaks="Only the first caller waits for the module; every later one is told it is ready at once, and its first request fails."
F="packages/lib/src/wasm/index.ts"
edits=[(F,"""export const init = async () => {
  await wasm""","""let started = false;

export const init = async () => {
  if (started) return;
  started = true;
  await wasm""")]
demo=r'''"use strict";
const { library, check } = require("./kit.cjs");
(async () => {
  let go;
  const gate = new Promise(r => (go = r));
  const lib = await library({ compile: () => gate, exports: { poseidon: b => b.subarray(0, 32) } });
  const use = async () => { const p = new lib.Poseidon(); await p.initWasm(); return p.hash([1n, 2n]); };
  const all = [use(), use()].map(x => x.then(v => v === 1n, () => false));
  await new Promise(setImmediate);
  go();
  check((await Promise.all(all)).every(x => x), "the module was not ready after initialisation");
})().catch(e => check(false, e.stack));
'''
