id="c19-nonce"; property="C19"
needs="Two messages with the same nonce point coordinate and different parity bytes, handled one after the other in one process."
breaks="The multiple of the nonce point is remembered per coordinate r without its parity, so after a valid message has been verified its copy with the parity changed is answered true."
F="packages/lib/src/helpers/publicInputs.ts"
edits=[(F,"""export const computeEffEcdsaPubInput = (""","""const nonceMultiples = new Map<string, any>();

export const computeEffEcdsaPubInput = ("""),
(F,"""  const T = rPoint.getPublic().mul(rInv);
""","""  // (the same for all messages under one nonce)
  const key = r.toString(16);
  const T = nonceMultiples.get(key) ?? rPoint.getPublic().mul(rInv);
  nonceMultiples.set(key, T);
""")]
demo=r'''"use strict";
const { library, check, statement, message } = require("./kit.cjs");
(async () => {
  const lib = await library({ exports: { verify: () => true }, fs: { readFileSync: () => Buffer.from("circuit") } });
  await lib.init();
  const v = new lib.MembershipVerifier({ circuit: "c" });
  const m = Buffer.alloc(32, 7);
  const good = message(statement(12345n, m), 5n, m);
  const bad = Buffer.from(good);
  bad[32] = 27 + 28 - bad[32];
  const ask = publicInputSer => v.verify({ proof: new Uint8Array(8), publicInputSer }).then(r => r === true, () => false);
  check(!(await ask(bad)), "true for the other nonce point, before");
  check(await ask(good), "not true for matching values");
  check(!(await ask(bad)), "true for the other nonce point, after");
  check(await ask(good), "not true for matching values, after");
})().catch(e => check(false, e.stack));
'''
