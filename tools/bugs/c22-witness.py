id="c22-witness"; property="C22"
needs="Two proof requests that overlap while the circuit is being loaded."
breaks="The witness buffer descriptor is shared by all requests, so a request whose witness was generated first is proved with the witness of a later one."
F="packages/lib/src/helpers/utils.ts"
edits=[(F,"""export const snarkJsWitnessGen = async (input: any, wasmFile: string) => {
  const witness: {
    type: string;
    data?: any;
  } = {
    type: "mem"
  };

""","""// snarkjs keeps the generated witness in memory, behind this descriptor
const witness: {
  type: string;
  data?: any;
} = {
  type: "mem"
};

export const snarkJsWitnessGen = async (input: any, wasmFile: string) => {
""")]
demo=r'''"use strict";
const { library, check, statement, be } = require("./kit.cjs");
(async () => {
  const waiting = [];
  const fetch = () => new Promise(r => waiting.push(() => r({ ok: true, status: 200, arrayBuffer: async () => new ArrayBuffer(8) })));
  const made = [];
  const lib = await library({
    fetch,
    witness: async (input, file, w) => { w.data = new Uint8Array(be(BigInt(input.Tx), 32)); },
    exports: { prove: (c, w, x) => { made.push([w.toString("hex"), x.subarray(32, 64).toString("hex")]); return w; } },
  });
  await lib.init();
  const p = new lib.MembershipProver({ circuit: "https://x/c", witnessGenWasm: "g", useRemoteCircuit: true });
  const req = k => {
    const m = Buffer.alloc(32, Number(k)), s = statement(k, m);
    return p.prove({ sig: "0x" + Buffer.concat([be(s.r, 32), be(k + 1n, 32), be(s.v, 1)]).toString("hex"), msgHash: m, merkleProof: { root: k, siblings: [[1n]], pathIndices: [0] } });
  };
  const all = [req(3n), req(4n)];
  for (let i = 0; i < 20; i++) await new Promise(setImmediate);
  check(waiting.length === 2, "two requests at once");
  waiting.forEach(f => f());
  await Promise.all(all);
  check(made.length === 2 && made.every(([w, x]) => w === x), "a proof from the witness of another request");
})().catch(e => check(false, e.stack));
'''
