id="c22-tree"; property="C22"
needs="A Merkle proof taken for a leaf, then a change of the tree that keeps its number of leaves (a deletion), then the proof for the same leaf again."
breaks="Merkle proofs are kept per leaf until the tree grows, so after a deletion a proof with the old siblings and root is returned."
F="packages/lib/src/helpers/tree.ts"
edits=[(F,"""  private treeInner!: IncrementalMerkleTree;
""","""  private treeInner!: IncrementalMerkleTree;
  private proofs = new Map<string, MerkleProof>();
"""),
(F,"""    const proof = this.treeInner.createProof(index);
    return {
      siblings: proof.siblings,
      pathIndices: proof.pathIndices,
      root: proof.root
    };
""","""    // walking the tree is slow for deep trees; proofs change as it grows
    const key = `${index}/${this.treeInner.leaves.length}`;
    let kept = this.proofs.get(key);
    if (kept === undefined) {
      const proof = this.treeInner.createProof(index);
      kept = {
        siblings: proof.siblings,
        pathIndices: proof.pathIndices,
        root: proof.root
      };
      this.proofs.set(key, kept);
    }
    return kept;
""")]
demo=r'''"use strict";
const { library, check, num, be } = require("./kit.cjs");
const { createHash } = require("crypto");
(async () => {
  const lib = await library({ exports: { poseidon: b => createHash("sha256").update(b).digest().fill(0, 31) } });
  await lib.init();
  const t = new lib.Tree(3, new lib.Poseidon());
  [11n, 12n, 13n, 14n].forEach(x => t.insert(x));
  const ok = i => { const p = t.createProof(i); return p.root === t.root() && t.verifyProof(p, t.leaves()[i]); };
  check([0, 1, 2, 3].every(ok), "proofs of a grown tree");
  t.delete(1);
  check([0, 1, 2, 3].every(ok), "proofs after a deletion");
  t.insert(15n);
  check([0, 1, 2, 3, 4].every(ok), "proofs after an insertion");
})().catch(e => check(false, e.stack));
'''
