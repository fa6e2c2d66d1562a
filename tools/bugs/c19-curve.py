id="c19-curve"; property="C19"
needs="A valid proof for a circuit input whose point T has the right x coordinate and a y coordinate that differs by an even number."
breaks="The points are compared by x coordinate and parity, so public values that are not the derived points are answered true."
F="packages/lib/src/helpers/publicInputs.ts"
edits=[(F,"""    expectedCircuitInput.Ty === circuitPubInput.Ty &&
""","""    (expectedCircuitInput.Ty & BigInt(1)) ===
      (circuitPubInput.Ty & BigInt(1)) &&
""")]
demo=r'''"use strict";
const { library, check, statement, message } = require("./kit.cjs");
(async () => {
  const lib = await library({ exports: { verify: () => true }, fs: { readFileSync: () => Buffer.from("circuit") } });
  await lib.init();
  const v = new lib.MembershipVerifier({ circuit: "c" });
  const m = Buffer.alloc(32, 9);
  const s = statement(77n, m);
  const ask = publicInputSer => v.verify({ proof: new Uint8Array(8), publicInputSer }).then(r => r === true, () => false);
  check(await ask(message(s, 5n, m)), "not true for matching values");
  for (const d of [1n, 2n, 4n]) {
    check(!(await ask(message({ ...s, T: [s.T[0], s.T[1] ^ d] }, 5n, m))), "true for another T");
    check(!(await ask(message({ ...s, T: [s.T[0] ^ d, s.T[1]] }, 5n, m))), "true for another T");
    check(!(await ask(message({ ...s, U: [s.U[0], s.U[1] ^ d] }, 5n, m))), "true for another U");
    check(!(await ask(message({ ...s, U: [s.U[0] ^ d, s.U[1]] }, 5n, m))), "true for another U");
  }
})().catch(e => check(false, e.stack));
'''
