id="c22-pad"; property="C22"
needs="A public value below 2^248, such as a nonce coordinate whose leading byte is zero."
breaks="Numbers are padded to whole bytes only, so small ones are written at the wrong end of their field and the public input stands for other values."
F="packages/lib/src/helpers/utils.ts"
edits=[(F,"""  const hexPadded = hex.padStart(size * 2, "0");
""","""  const hexPadded = hex.length % 2 === 0 ? hex : "0" + hex;
""")]
demo=r'''"use strict";
const { library, check, be } = require("./kit.cjs");
(async () => {
  const lib = await library({});
  for (const shift of [0n, 7n, 8n, 100n, 255n]) {
    const vals = [1n, 3n, 5n, 7n, 9n].map(x => (x << 250n) >> shift & ((1n << 256n) - 1n));
    const c = new lib.CircuitPubInput(...vals);
    check(Buffer.from(c.serialize()).equals(Buffer.concat(vals.map(x => be(x, 32)))), "public values encoded as others");
    const p = new lib.PublicInput(vals[1], 28n, Buffer.alloc(32, 1), c);
    check(lib.PublicInput.deserialize(p.serialize()).r === vals[1], "r changed by serialization");
  }
})().catch(e => check(false, e.stack));
'''
