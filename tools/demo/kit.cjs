// The TypeScript library of the tree in the current directory, bundled and loaded with stand-ins for the
// packages that are not installed, and for the compiled wasm module (whose exports the caller provides).
"use strict";
const fs = require("fs");
const path = require("path");
const { BN, elliptic } = require("./num.cjs");

exports.library = async env => {
  const lib = path.join(process.cwd(), "packages/lib");
  const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
  const r = await esbuild.build({
    entryPoints: [path.join(lib, "src/index.ts")], bundle: true, write: false, platform: "node", format: "cjs", target: "es2020",
    logLevel: "silent", absWorkingDir: lib,
    tsconfigRaw: { compilerOptions: { baseUrl: lib, paths: { "@src/*": ["src/*"] }, esModuleInterop: true } },
    plugins: [{
      name: "env",
      setup(b) {
        b.onResolve({ filter: /wasmBytes/ }, () => ({ path: "wasmBytes", namespace: "env" }));
        b.onLoad({ filter: /.*/, namespace: "env" }, () => ({ contents: "export const wasmBytes = new Uint8Array([0,97,115,109,1,0,0,0]);" }));
        b.onResolve({ filter: /^@src\// }, a => {
          const p = path.join(lib, "src", a.path.slice(5));
          for (const c of [p + ".ts", p + ".js", path.join(p, "index.ts"), p]) if (fs.existsSync(c) && fs.statSync(c).isFile()) return { path: c };
        });
        b.onResolve({ filter: /^[a-z@]/ }, a => (a.path.startsWith("@src/") || path.isAbsolute(a.path) ? undefined : { path: a.path, external: true }));
      },
    }],
  });
  await esbuild.stop();
  const util = {
    fromRpcSig(sig) {
      const b = Buffer.from(String(sig).replace(/^0x/, ""), "hex");
      let v = BigInt("0x" + b.subarray(64).toString("hex"));
      if (v < 27n) v += 27n;
      return { v, r: b.subarray(0, 32), s: b.subarray(32, 64) };
    },
  };
  // same observable behaviour as @zk-kit/incremental-merkle-tree 1.0 with arity 2
  class IncrementalMerkleTree {
    constructor(hash, depth, zero) {
      this.hash = hash;
      this.depth = depth;
      this.zeroes = [zero];
      for (let i = 0; i < depth; i++) this.zeroes.push(hash([this.zeroes[i], this.zeroes[i]]));
      this.nodes = Array.from({ length: depth + 1 }, () => []);
    }
    get root() { return this.at(this.depth, 0); }
    get leaves() { return this.nodes[0].slice(); }
    at(l, i) { return i < this.nodes[l].length ? this.nodes[l][i] : this.zeroes[l]; }
    indexOf(x) { return this.nodes[0].indexOf(x); }
    insert(x) { this.put(this.nodes[0].length, x); }
    delete(i) { this.put(i, this.zeroes[0]); }
    put(i, x) {
      this.nodes[0][i] = x;
      for (let l = 0; l < this.depth; l++) {
        i >>= 1;
        this.nodes[l + 1][i] = this.hash([this.at(l, 2 * i), this.at(l, 2 * i + 1)]);
      }
    }
    createProof(i) {
      const siblings = [], pathIndices = [], leaf = this.nodes[0][i];
      for (let l = 0; l < this.depth; l++, i >>= 1) {
        pathIndices.push(i & 1);
        siblings.push([this.at(l, i ^ 1)]);
      }
      return { root: this.root, leaf, siblings, pathIndices };
    }
    verifyProof(p) {
      let n = p.leaf;
      p.siblings.forEach((s, l) => (n = this.hash(p.pathIndices[l] ? [s[0], n] : [n, s[0]])));
      return n === p.root;
    }
  }
  class Module {}
  class Instance {
    constructor() {
      const memory = { buffer: new ArrayBuffer(1 << 20) };
      let stack = 4096, top = 8192;
      const malloc = n => { const p = top; top += (n + 15) & ~7; if (top > memory.buffer.byteLength - 4096) top = 8192; return p; };
      const take = (p, n) => Buffer.from(Buffer.from(memory.buffer, p, n));
      const word = (p, v) => (new Int32Array(memory.buffer)[p / 4] = v);
      const give = (ret, b) => { const p = malloc(b.length); new Uint8Array(memory.buffer).set(b, p); [p, b.length, 0, 0].forEach((v, i) => word(ret + 4 * i, v)); };
      const none = () => { throw new Error("not part of this demonstration"); };
      const f = { prove: none, verify: none, poseidon: none, ...env.exports };
      this.exports = {
        memory,
        __wbindgen_add_to_stack_pointer: d => (stack += d),
        __wbindgen_malloc: malloc,
        __wbindgen_free() {},
        init_panic_hook() {},
        prove: (ret, a, al, b, bl, c, cl) => give(ret, f.prove(take(a, al), take(b, bl), take(c, cl))),
        verify: (ret, a, al, b, bl, c, cl) => [f.verify(take(a, al), take(b, bl), take(c, cl)) ? 1 : 0, 0, 0].forEach((v, i) => word(ret + 4 * i, v)),
        poseidon: (ret, a, al) => give(ret, f.poseidon(take(a, al))),
      };
    }
  }
  const wasm = {
    Module, Instance, RuntimeError: Error,
    compile: async () => (env.compile && (await env.compile()), new Module()),
    instantiate: async () => new Instance(),
  };
  const modules = {
    fs: env.fs || fs, elliptic, "bn.js": BN, snarkjs: { wtns: { calculate: env.witness } }, "@ethereumjs/util": util,
    "@zk-kit/incremental-merkle-tree": { IncrementalMerkleTree }, buffer: require("buffer"),
  };
  const m = { exports: {} };
  new Function("require", "module", "exports", "WebAssembly", "fetch", "console", r.outputFiles[0].text)(
    n => { if (!(n in modules)) throw new Error("no stand-in for " + n); return modules[n]; }, m, m.exports, wasm, env.fetch, { warn() {}, log() {}, time() {}, timeEnd() {}, error() {} });
  return m.exports;
};
exports.check = (ok, what) => { if (!ok) { process.stderr.write("VIOLATED: " + what + "\n"); process.exit(1); } };
// secp256k1, enough to make statements
const P = (1n << 256n) - (1n << 32n) - 977n, N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
const mod = (a, m) => ((a % m) + m) % m;
const pow = (b, e, m) => { let r = 1n; for (b = mod(b, m); e; e >>= 1n, b = (b * b) % m) if (e & 1n) r = (r * b) % m; return r; };
const inv = (a, m) => pow(a, m - 2n, m);
const add = (a, b) => {
  if (!a) return b;
  if (!b) return a;
  if (a[0] === b[0] && mod(a[1] + b[1], P) === 0n) return null;
  const l = a[0] === b[0] ? mod(3n * a[0] * a[0] * inv(2n * a[1], P), P) : mod((b[1] - a[1]) * inv(b[0] - a[0], P), P);
  const x = mod(l * l - a[0] - b[0], P);
  return [x, mod(l * (a[0] - x) - a[1], P)];
};
const mul = (k, a) => { let r = null; for (k = mod(k, N); k; k >>= 1n, a = add(a, a)) if (k & 1n) r = add(r, a); return r; };
const G = [0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798n, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8n];
exports.P = P;
exports.N = N;
exports.be = (v, n) => Buffer.from(v.toString(16).padStart(2 * n, "0"), "hex");
exports.num = b => BigInt("0x" + Buffer.from(b).toString("hex"));
// r, parity and the points T, U for nonce k and message hash m
exports.statement = (k, m) => {
  const R = mul(k, G), r = R[0], i = inv(mod(r, N), N);
  return { r, v: 27n + (R[1] & 1n), T: mul(i, R), U: mul(mod(-i * exports.num(m), N), G) };
};
exports.message = (s, root, m) => Buffer.concat([exports.be(s.r, 32), exports.be(s.v, 1), ...[root, ...s.T, ...s.U].map(x => exports.be(x, 32)), m]);
