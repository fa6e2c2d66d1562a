// One process of client applications around the real TypeScript library.  The simulator (Rust) sends one
// scenario per line on stdin; this program runs it under a seeded scheduler that owns every promise the
// environment can settle (network, storage, witness generation, wasm compilation, timers) and answers with
// what each operation returned.  Calls into the wasm instance go through the library's real glue code into
// a stand-in for the compiled module: its exports are served by the real Rust crates over the same pipe.
"use strict";
const fs = require("fs");
const path = require("path");
const { AsyncLocalStorage } = require("async_hooks");
const { BN, elliptic } = require("./num.cjs");
const tick = setImmediate;
const repo = process.argv[2];
const tools = "/opt/veriftools/node/node_modules";

// ------------------------------------------------------------------ pipe
let input = Buffer.alloc(0);
function line() {
  for (;;) {
    const k = input.indexOf(10);
    if (k >= 0) {
      const s = input.subarray(0, k).toString();
      input = input.subarray(k + 1);
      return JSON.parse(s);
    }
    const b = Buffer.alloc(1 << 20);
    let n;
    try {
      n = fs.readSync(0, b, 0, b.length, null);
    } catch (e) {
      if (e.code === "EAGAIN") continue;
      process.exit(0);
    }
    if (n === 0) process.exit(0);
    input = Buffer.concat([input, b.subarray(0, n)]);
  }
}
function send(v) {
  const b = Buffer.from(JSON.stringify(v) + "\n");
  for (let o = 0; o < b.length; ) {
    try {
      o += fs.writeSync(1, b, o);
    } catch (e) {
      if (e.code !== "EAGAIN") throw e;
    }
  }
}
function call(v) {
  send(v);
  return line();
}
const hex = b => Buffer.from(b).toString("hex");
const unhex = s => Buffer.from(s, "hex");

// ------------------------------------------------------------------ the library, bundled from its sources
async function bundle() {
  const esbuild = require(path.join(tools, "esbuild"));
  const lib = path.join(repo, "packages/lib");
  const r = await esbuild.build({
    entryPoints: [path.join(lib, "src/index.ts")],
    bundle: true,
    write: false,
    platform: "node",
    format: "cjs",
    target: "es2020",
    logLevel: "silent",
    absWorkingDir: lib,
    tsconfigRaw: { compilerOptions: { baseUrl: lib, paths: { "@src/*": ["src/*"] }, esModuleInterop: true } },
    plugins: [
      {
        name: "env",
        setup(b) {
          b.onResolve({ filter: /wasmBytes/ }, () => ({ path: "wasmBytes", namespace: "env" }));
          b.onLoad({ filter: /.*/, namespace: "env" }, () => ({ contents: "export const wasmBytes = new Uint8Array([0,97,115,109,1,0,0,0]);" }));
          b.onResolve({ filter: /^@src\// }, a => {
            const p = path.join(lib, "src", a.path.slice(5));
            for (const c of [p + ".ts", p + ".js", path.join(p, "index.ts"), p]) if (fs.existsSync(c) && fs.statSync(c).isFile()) return { path: c };
          });
          b.onResolve({ filter: /^[a-z@]/ }, a => (a.path.startsWith("@src/") || path.isAbsolute(a.path) ? undefined : { path: a.path, external: true }));
        },
      },
    ],
  });
  if (esbuild.stop) await esbuild.stop();
  return r.outputFiles[0].text;
}

// ------------------------------------------------------------------ one scenario
class Sim {
  constructor(job) {
    this.job = job;
    this.x = BigInt("0x" + job.seed) | 1n;
    this.now = 0;
    this.queue = [];
    this.seq = 0;
    this.trace = [];
    this.faults = [];
    this.accesses = 0;
    this.delivered = {};
    this.op = new AsyncLocalStorage();
    this.hit = new Set();
    this.growths = 0;
  }
  rnd(n) {
    this.x = BigInt.asUintN(64, this.x * 6364136223846793005n + 1442695040888963407n);
    return Number((this.x >> 33n) % BigInt(n));
  }
  // something the environment will settle later, at a moment the scheduler picks
  later(what, f, delay) {
    return new Promise((res, rej) => {
      const at = this.now + (delay === undefined ? this.rnd(50000) : delay);
      const who = this.op.getStore();
      this.queue.push({ at, n: this.seq++, what, run: () => this.op.run(who, () => { try { res(f()); } catch (e) { rej(e); } }) });
    });
  }
  step() {
    // mostly by time, sometimes any pending event: slow and overtaking deliveries
    this.queue.sort((a, b) => a.at - b.at || a.n - b.n);
    let i = this.rnd(4) === 0 ? this.rnd(this.queue.length) : 0;
    if (this.queue[i].timer) i = 0;
    const [e] = this.queue.splice(i, 1);
    this.now = Math.max(this.now, e.at);
    this.trace.push(e.what);
    e.run();
  }
  fault(kind) {
    this.faults.push(kind);
    this.hit.add(this.op.getStore());
  }
  // what storage gives for one access: {err} or {bytes}
  access(name, net) {
    const kind = this.job.faults[this.accesses++] || 0;
    // an address is served over the network, a path from disk; no request names anything else
    const good = this.job.files[name] === undefined || name.startsWith("https:") !== net ? undefined : unhex(this.job.files[name]);
    if (good === undefined) {
      return net ? { bytes: Buffer.from("<html>404</html>"), status: 404 } : { err: "ENOENT" };
    }
    const names = Object.keys(this.job.files);
    switch (kind) {
      case 1: this.fault(net ? "network error" : "file missing"); return { err: "ENOENT" };
      case 2: this.fault(net ? "error page" : "disk error"); return net ? { bytes: Buffer.from("<html>" + "x".repeat(this.rnd(300)) + "</html>"), status: 502 } : { err: "EIO" };
      case 3: this.fault(net ? "transfer broke off" : "no file descriptors"); return net ? { late: true } : { err: "EMFILE" };
      case 4: this.fault("content cut short"); return { bytes: good.subarray(0, this.rnd(good.length)) };
      case 5: { const o = names[this.rnd(names.length)]; if (o !== name) this.fault("another circuit delivered"); return { bytes: unhex(this.job.files[o]) }; }
      case 6: this.fault("empty content"); return { bytes: Buffer.alloc(0) };
      case 7: { this.fault("content damaged"); const b = Buffer.from(good); b[this.rnd(b.length)] ^= 1 << this.rnd(8); return { bytes: b }; }
      default: return { bytes: good };
    }
  }
  deliver(name, bytes) {
    (this.delivered[name] = this.delivered[name] || []).push(hex(bytes));
    const whole = new Uint8Array(bytes.length + 16).fill(0xa5);
    return { whole, at: 8, len: bytes.length, put: whole.set(bytes, 8) };
  }
}

function environment(sim) {
  const job = sim.job;
  const err = (code, p) => Object.assign(new Error(`${code}: ${p}`), { code, errno: -1, syscall: "open", path: p });
  const asBuffer = (name, r) => {
    const d = sim.deliver(name, r.bytes);
    return Buffer.from(d.whole.buffer, d.at, d.len); // like node's pooled buffers: not at the start of its memory
  };
  const readNow = p => {
    const r = sim.access(String(p), false);
    if (r.err) throw err(r.err, p);
    return asBuffer(String(p), r);
  };
  const fsStub = {
    readFileSync: readNow,
    readFile: (p, o, cb) => { cb = cb || o; sim.later("fs", () => readNow(p)).then(b => cb(null, b), e => cb(e)); },
    existsSync: p => job.files[String(p)] !== undefined,
    promises: { readFile: p => sim.later("fs", () => readNow(p)) },
  };
  const response = (url, r) => {
    const body = () => sim.later("body", () => {
      if (r.late) throw new TypeError("terminated");
      const d = sim.deliver(url, r.bytes);
      return d.whole.slice(d.at, d.at + d.len).buffer;
    });
    const status = r.status || 200;
    return {
      ok: status < 300, status, statusText: "", url, redirected: false, bodyUsed: false,
      headers: new Map([["content-length", String(r.bytes ? r.bytes.length : 0)]]),
      arrayBuffer: body,
      text: () => body().then(b => Buffer.from(b).toString()),
      blob: () => body().then(b => ({ arrayBuffer: async () => b, size: b.byteLength })),
      bytes: () => body().then(b => new Uint8Array(b)),
      clone() { return response(url, r); },
    };
  };
  const fetchStub = u => {
    const url = String(u && u.url ? u.url : u);
    return sim.later("net", () => {
      const r = sim.access(url, true);
      if (r.err) throw new TypeError("fetch failed");
      return response(url, r);
    });
  };
  const snark = {
    wtns: {
      calculate(input, file, witness) {
        return sim.later("witness", () => {
          if ((job.faults[sim.accesses++] || 0) === 1) {
            sim.fault("witness generation failed");
            throw new Error("Assert Failed.");
          }
          const flat = {};
          for (const [k, v] of Object.entries(input)) flat[k] = [v].flat(9).map(x => BigInt(x).toString(16));
          const r = call({ call: "witness", file: String(file), input: flat });
          if (r.err) throw new Error(r.err);
          witness.data = new Uint8Array(unhex(r.ok));
        });
      },
    },
  };
  const util = {
    fromRpcSig(sig) {
      const b = Buffer.from(String(sig).replace(/^0x/, ""), "hex");
      let r, s, v;
      if (b.length >= 65) {
        [r, s] = [b.subarray(0, 32), b.subarray(32, 64)];
        v = BigInt("0x" + b.subarray(64).toString("hex"));
      } else if (b.length === 64) {
        r = b.subarray(0, 32);
        s = Buffer.from(b.subarray(32, 64));
        v = BigInt(s[0] >> 7);
        s[0] &= 0x7f;
      } else throw new Error("Invalid signature length");
      if (v < 27n) v += 27n;
      return { v, r, s };
    },
  };
  // same observable behaviour as @zk-kit/incremental-merkle-tree 1.0 with arity 2
  class IncrementalMerkleTree {
    constructor(hash, depth, zero, arity = 2) {
      this.hash = hash;
      this.depth = depth;
      this.arity = arity;
      this.zeroes = [zero];
      for (let i = 0; i < depth; i++) this.zeroes.push(hash([this.zeroes[i], this.zeroes[i]]));
      this.nodes = Array.from({ length: depth + 1 }, () => []);
    }
    get root() { return this.nodes[this.depth].length ? this.nodes[this.depth][0] : this.zeroes[this.depth]; }
    get leaves() { return this.nodes[0].slice(); }
    at(l, i) { return i < this.nodes[l].length ? this.nodes[l][i] : this.zeroes[l]; }
    indexOf(x) { return this.nodes[0].indexOf(x); }
    insert(x) {
      if (this.nodes[0].length >= 2 ** this.depth) throw new Error("The tree is full");
      this.put(this.nodes[0].length, x);
    }
    put(i, x) {
      this.nodes[0][i] = x;
      for (let l = 0; l < this.depth; l++) {
        i >>= 1;
        this.nodes[l + 1][i] = this.hash([this.at(l, 2 * i), this.at(l, 2 * i + 1)]);
      }
    }
    update(i, x) {
      if (i < 0 || i >= this.nodes[0].length) throw new Error("The leaf does not exist in this tree");
      this.put(i, x);
    }
    delete(i) { this.update(i, this.zeroes[0]); }
    createProof(i) {
      if (i < 0 || i >= this.nodes[0].length) throw new Error("The leaf does not exist in this tree");
      const siblings = [], pathIndices = [], leaf = this.nodes[0][i];
      for (let l = 0; l < this.depth; l++, i >>= 1) {
        pathIndices.push(i & 1);
        siblings.push([this.at(l, i ^ 1)]);
      }
      return { root: this.root, leaf, siblings, pathIndices };
    }
    verifyProof(p) {
      let n = p.leaf;
      p.siblings.forEach((s, l) => (n = this.hash(p.pathIndices[l] ? [s[0], n] : [n, s[0]])));
      return n === p.root;
    }
  }

  // ---------------------------------------------------------------- the compiled wasm module
  class Instance {
    constructor(module, imports) {
      const w = { memory: { buffer: new ArrayBuffer(1 << 16) } };
      let stack = 4096, top = 8192, live = 0;
      const bytes = () => new Uint8Array(w.memory.buffer);
      const word = (p, v) => (new Int32Array(w.memory.buffer)[p / 4] = v);
      const grow = need => {
        let n = w.memory.buffer.byteLength;
        while (n < need) n *= 2;
        const b = new ArrayBuffer(n);
        new Uint8Array(b).set(bytes());
        structuredClone(w.memory.buffer, { transfer: [w.memory.buffer] }); // detaches it, as memory.grow does
        w.memory.buffer = b;
        sim.growths++;
      };
      const trap = why => { throw new WebAssembly.RuntimeError(why); };
      const malloc = n => {
        if (job.nomem && sim.rnd(100) < job.nomem) { sim.fault("allocation failed"); trap("unreachable"); }
        const p = top;
        top += (n + 8 + 7) & ~7; // no two blocks touch
        live++;
        if (top + 64 > w.memory.buffer.byteLength) grow(top + 64);
        else if (job.grow && sim.rnd(100) < job.grow) grow(w.memory.buffer.byteLength * 2 > 1 << 24 ? w.memory.buffer.byteLength : w.memory.buffer.byteLength * 2);
        return p;
      };
      // freed memory is no longer the caller's: an allocator keeps its own data there
      const free = (p, n) => { if (p && n) bytes().fill(0xdb, p, p + n); if (--live === 0) top = 8192; };
      const take = (p, n) => { const b = Buffer.from(bytes().subarray(p, p + n)); bytes().fill(0xdd, p, p + n); free(); return hex(b); };
      const string = s => {
        const b = Buffer.from(s), p = malloc(b.length);
        bytes().set(b, p);
        const r = imports.wbg.__wbindgen_string_new(p, b.length);
        free();
        return r;
      };
      const reply = r => { if (r.trap) trap("unreachable"); return r; };
      const vector = (ret, r) => {
        if (r.err) { word(ret, 0); word(ret + 4, 0); word(ret + 8, string(r.err)); word(ret + 12, 1); return; }
        const b = unhex(r.ok), p = malloc(b.length);
        bytes().set(b, p);
        word(ret, p); word(ret + 4, b.length); word(ret + 8, 0); word(ret + 12, 0);
      };
      w.__wbindgen_add_to_stack_pointer = d => (stack += d);
      w.__wbindgen_malloc = malloc;
      w.__wbindgen_realloc = (p, a, b) => { const q = malloc(b); bytes().set(bytes().slice(p, p + Math.min(a, b)), q); free(); return q; };
      w.__wbindgen_free = free;
      w.__wbindgen_exn_store = () => {};
      w.init_panic_hook = () => {};
      w.prove = (ret, a, al, b, bl, c, cl) => vector(ret, reply(call({ call: "prove", circuit: take(a, al), vars: take(b, bl), inputs: take(c, cl), op: sim.op.getStore() })));
      w.verify = (ret, a, al, b, bl, c, cl) => {
        const r = reply(call({ call: "verify", circuit: take(a, al), proof: take(b, bl), inputs: take(c, cl) }));
        word(ret, r.ok ? 1 : 0);
        word(ret + 4, r.err ? string(r.err) : 0);
        word(ret + 8, r.err ? 1 : 0);
      };
      w.poseidon = (ret, a, al) => vector(ret, reply(call({ call: "poseidon", input: take(a, al) })));
      this.exports = w;
      sim.instances = (sim.instances || 0) + 1;
    }
  }
  class Module {}
  const compile = () => sim.later("compile", () => {
    if (job.nowasm && sim.rnd(100) < job.nowasm) { sim.fault("wasm compilation failed"); throw new WebAssembly.CompileError("compile"); }
    return new Module();
  });
  const wasm = {
    Module, Instance,
    RuntimeError: WebAssembly.RuntimeError, CompileError: WebAssembly.CompileError, LinkError: WebAssembly.LinkError, Memory: WebAssembly.Memory,
    compile,
    validate: () => true,
    instantiate: (m, imports) => m instanceof Module ? sim.later("instantiate", () => new Instance(m, imports)) : compile().then(module => ({ module, instance: new Instance(module, imports) })),
  };
  const modules = {
    fs: fsStub, "node:fs": fsStub, "fs/promises": fsStub.promises, "node:fs/promises": fsStub.promises,
    elliptic, "bn.js": BN, snarkjs: snark, "@ethereumjs/util": util,
    "@zk-kit/incremental-merkle-tree": { IncrementalMerkleTree },
    buffer: require("buffer"), "node:buffer": require("buffer"), crypto: require("crypto"), "node:crypto": require("crypto"),
    path: require("path"), util: require("util"), events: require("events"),
  };
  return { modules, fetch: fetchStub, WebAssembly: wasm };
}

const quiet = new Proxy({}, { get: () => () => {} });
async function scenario(code, job) {
  const sim = new Sim(job);
  const env = environment(sim);
  const saved = {};
  const timer = (f, d, ...a) => {
    const e = { at: sim.now + Math.max(0, (d || 0) * 1000), n: sim.seq++, what: "timer", timer: true, run: () => f(...a) };
    sim.queue.push(e);
    return { e, ref() {}, unref() {}, hasRef: () => true, [Symbol.toPrimitive]: () => e.n };
  };
  const cancel = t => { if (t && t.e) sim.queue = sim.queue.filter(q => q !== t.e); };
  const globals = {
    fetch: env.fetch, WebAssembly: env.WebAssembly, console: quiet, setTimeout: timer, clearTimeout: cancel,
    setInterval: () => ({}), clearInterval: () => {}, setImmediate: (f, ...a) => timer(f, 0, ...a), clearImmediate: cancel,
  };
  if (job.window) globals.window = { fetch: env.fetch };
  for (const k of Object.keys(globals)) {
    saved[k] = Object.getOwnPropertyDescriptor(globalThis, k);
    Object.defineProperty(globalThis, k, { value: globals[k], configurable: true, writable: true });
  }
  const nowFn = Date.now, rand = Math.random;
  Date.now = () => 1700000000000 + Math.floor(sim.now / 1000);
  Math.random = () => sim.rnd(1 << 30) / (1 << 30);
  try {
    const m = { exports: {} };
    const load = n => {
      if (!(n in env.modules)) throw new Error("no stand-in for module " + n);
      return env.modules[n];
    };
    new Function("require", "module", "exports", code)(load, m, m.exports);
    return await run(sim, m.exports, job);
  } finally {
    Date.now = nowFn;
    Math.random = rand;
    for (const k of Object.keys(globals)) {
      if (saved[k]) Object.defineProperty(globalThis, k, saved[k]);
      else delete globalThis[k];
    }
  }
}

async function run(sim, lib, job) {
  const out = job.ops.map(() => ({ status: "pending" }));
  const buffers = [];
  // a caller's buffer: of either kind, sometimes a window into a larger one; compared at the end
  const own = (h, how) => {
    const b = unhex(h);
    const whole = new Uint8Array(b.length + 64).fill(0x5a);
    const at = how & 1 ? 32 : 0;
    const area = how & 1 ? whole : new Uint8Array(b.length);
    area.set(b, at);
    buffers.push([area, hex(area)]);
    return how & 2 ? Buffer.from(area.buffer, at, b.length) : new Uint8Array(area.buffer, at, b.length);
  };
  const hexBuf = (h, how) => { const b = own(h, how | 2); return b; };
  const shared = {};
  const object = (key, fresh, make) => (fresh ? make() : (shared[key] = shared[key] || make()));
  const big = h => BigInt("0x" + h);
  const act = {
    async verify(o) {
      const v = object("v" + o.circuit + o.remote, o.fresh, () => new lib.MembershipVerifier({ circuit: o.circuit, useRemoteCircuit: o.remote, enableProfiler: o.profile }));
      const r = await v.verify({ proof: own(o.proof, o.how), publicInputSer: own(o.pub, o.how >> 2) });
      return { yes: r === true, truthy: !!r, type: typeof r };
    },
    async prove(o) {
      const p = object("p" + o.circuit + o.remote, o.fresh, () => new lib.MembershipProver({ circuit: o.circuit, witnessGenWasm: o.gen, useRemoteCircuit: o.remote, enableProfiler: o.profile }));
      const merkleProof = { root: big(o.merkle.root), siblings: o.merkle.siblings.map(s => [big(s)]), pathIndices: o.merkle.path };
      const before = JSON.stringify(merkleProof, (k, v) => (typeof v === "bigint" ? v.toString() : v));
      const r = await p.prove({ sig: o.sig, msgHash: hexBuf(o.msg, o.how), merkleProof });
      const x = r.publicInput;
      const c = x.circuitPubInput;
      let verified;
      if (o.verify) verified = (await act.verify({ ...o, proof: hex(r.proof), pub: hex(x.serialize()) })).yes;
      return {
        verified,
        proof: hex(r.proof), pub: hex(x.serialize()), again: hex(x.serialize()),
        fields: [x.r, x.rV, c.merkleRoot, c.Tx, c.Ty, c.Ux, c.Uy].map(v => v.toString(16)), msg: hex(x.msgHash),
        back: hex(lib.PublicInput.deserialize(x.serialize()).serialize()),
        merkle: before === JSON.stringify(merkleProof, (k, v) => (typeof v === "bigint" ? v.toString() : v)),
      };
    },
    async hash(o) {
      const p = object("h", o.fresh, () => new lib.Poseidon());
      return { value: o.pubkey ? p.hashPubKey(hexBuf(o.pubkey, o.how)).toString(16) : p.hash(o.inputs.map(big)).toString(16) };
    },
    async tree(o) {
      const p = object("h", o.fresh, () => new lib.Poseidon());
      const t = new lib.Tree(o.depth, p);
      const log = [];
      for (const s of o.steps) {
        if (s.proof !== undefined) {
          const q = t.createProof(s.proof), leaf = t.leaves()[s.proof];
          const other = x => (Array.isArray(x) ? x.map(other) : x === 0n ? 1n : x - 1n);
          const bent = { ...q, siblings: q.siblings.map((x, l) => (l === s.proof % o.depth ? other(x) : x)) };
          const sib = q.siblings.map(x => [x].flat(9));
          log.push({
            siblings: sib.map(x => x[0].toString(16)), path: q.pathIndices.map(Number), root: q.root.toString(16), ok: t.verifyProof(q, leaf),
            bent: t.verifyProof(bent, leaf),
          });
        } else {
          if (s.del !== undefined) t.delete(s.del);
          else t.insert(big(s.ins));
          log.push(t.root().toString(16));
        }
        if (s.wait) await sim.later("pause", () => 0);
      }
      const leaves = t.leaves();
      const r = { log, root: t.root().toString(16), leaves: leaves.map(l => l.toString(16)), right: [], wrong: [] };
      for (let i = 0; i < leaves.length; i++) {
        const proof = t.createProof(i);
        r.right.push(t.verifyProof(proof, leaves[i]));
        r.wrong.push(t.verifyProof(proof, leaves[i] === 0n ? 1n : leaves[i] - 1n));
        r.index = t.indexOf(leaves[i]);
      }
      return r;
    },
    async init(o) {
      const p = new lib.Poseidon();
      await (o.how & 1 ? p.initWasm() : o.how & 2 ? object("v" + o.circuit + o.remote, o.fresh, () => new lib.MembershipVerifier({ circuit: o.circuit, useRemoteCircuit: o.remote })).initWasm() : lib.init());
      return { value: p.hash([1n, 2n]).toString(16) };
    },
  };
  if (!job.late) {
    const p = sim.op.run(-1, () => lib.init());
    let ready = false, failed = false;
    p.then(() => (ready = true), () => (failed = true));
    for (let n = 0; !ready && !failed && n < 1000; n++) {
      await new Promise(tick);
      if (!ready && !failed && sim.queue.length) sim.step();
    }
  }
  let open = 0;
  job.ops.forEach((o, i) => {
    open++;
    sim.op.run(i, () => sim.later("start" + i, () => 0, o.at)).then(() =>
      sim.op.run(i, () =>
        act[o.kind](o).then(
          v => { out[i] = { status: "ok", value: v, at: sim.now }; },
          e => { out[i] = { status: "error", error: String((e && e.message) || e).slice(0, 200), at: sim.now }; }
        )
      ).then(() => { open--; sim.trace.push("done" + i + out[i].status); })
    );
  });
  let steps = 0, idle = 0;
  while (open > 0 && steps < 20000 && idle < 50) {
    await new Promise(tick);
    if (sim.queue.length) { sim.step(); steps++; idle = 0; }
    else idle++;
  }
  const changed = buffers.filter(([a, h]) => hex(a) !== h).length;
  out.forEach((o, i) => (o.hit = sim.hit.has(i)));
  return { ops: out, changed, steps, now: sim.now, trace: sim.trace, faults: sim.faults, delivered: sim.delivered, growths: sim.growths, instances: sim.instances || 0, initHit: sim.hit.has(-1) };
}

process.on("unhandledRejection", () => {});
(async () => {
  let code;
  try {
    code = await bundle();
  } catch (e) {
    send({ ready: false, error: String((e && e.message) || e).slice(0, 2000) });
    return;
  }
  send({ ready: true });
  for (;;) {
    const job = line();
    let r;
    try {
      r = await scenario(code, job);
    } catch (e) {
      r = { crash: String((e && e.stack) || e).slice(0, 2000) };
    }
    send({ done: r });
  }
})();
