id="c19-early"; property="C19"
needs="Two verifications on one verifier object that overlap while the circuit is being fetched."
breaks="The public values are kept on the verifier object across the download, so a verification is decided on the values of the one that came in between."
F="packages/lib/src/core/verifier.ts"
edits=[(F,"""  useRemoteCircuit: boolean;

  constructor""","""  useRemoteCircuit: boolean;
  private publicInput!: PublicInput;

  constructor"""),
(F,"""    this.time("Load circuit");
""","""    // a message that cannot be read need not wait for the circuit
    this.publicInput = PublicInput.deserialize(publicInputSer);

    this.time("Load circuit");
"""),
(F,"""    const publicInput = PublicInput.deserialize(publicInputSer);
    const isPubInputValid""","""    const { publicInput } = this;
    const isPubInputValid""")]
demo=r'''"use strict";
const { library, check, statement, message } = require("./kit.cjs");
(async () => {
  const waiting = [];
  const fetch = () => new Promise(r => waiting.push(() => r({ ok: true, status: 200, arrayBuffer: async () => new ArrayBuffer(8) })));
  // the stand-in for the proof system: a proof is the circuit's public values
  const lib = await library({ fetch, exports: { verify: (c, p, x) => p.equals(x) } });
  await lib.init();
  const v = new lib.MembershipVerifier({ circuit: "https://x/c", useRemoteCircuit: true });
  const msg = k => { const m = Buffer.alloc(32, Number(k)); return message(statement(k, m), k, m); };
  const ask = (p, publicInputSer) => v.verify({ proof: new Uint8Array(p.subarray(33, 193)), publicInputSer }).then(r => r === true, () => false);
  const [a, b] = [msg(3n), msg(4n)];
  for (const order of [[0, 1], [1, 0]]) {
    const one = ask(a, a), two = ask(a, b); // the second message carries the proof of the first
    await new Promise(setImmediate);
    for (const k of order) { waiting[k](); await new Promise(setImmediate); }
    check(await one, "a valid message was refused");
    check(!(await two), "a proof of other values was accepted");
    waiting.length = 0;
  }
})().catch(e => check(false, e.stack));
'''
