// Stand-ins for the two number libraries of the client, which are not installed here: the part of
// bn.js and elliptic's secp256k1 that a client can reasonably call, on native big integers.
"use strict";
const P = 2n ** 256n - 2n ** 32n - 977n;
const N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
const GX = 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798n;
const GY = 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8n;
const mod = (a, m) => ((a % m) + m) % m;
function inverse(a, m) {
  let [r0, r1, s0, s1] = [mod(a, m), m, 1n, 0n];
  while (r1 !== 0n) {
    const q = r0 / r1;
    [r0, r1] = [r1, r0 - q * r1];
    [s0, s1] = [s1, s0 - q * s1];
  }
  return mod(s0, m);
}
function power(a, e, m) {
  let r = 1n;
  for (a = mod(a, m); e > 0n; e >>= 1n, a = (a * a) % m) if (e & 1n) r = (r * a) % m;
  return r;
}
function fromBytes(b, le) {
  const a = Array.from(b);
  if (le) a.reverse();
  let r = 0n;
  for (const x of a) r = (r << 8n) | BigInt(x & 255);
  return r;
}
class BN {
  constructor(v, base, endian) {
    if (v instanceof BN) return v;
    if (base === "le" || base === "be") [base, endian] = [10, base];
    if (v === undefined || v === null) this.v = 0n;
    else if (typeof v === "number") {
      if (!(v < 0x20000000000000)) throw new Error("Assertion failed");
      this.v = BigInt(v);
    }
    else if (typeof v === "object") {
      if (typeof v.length !== "number") throw new Error("Assertion failed");
      this.v = fromBytes(v, endian === "le");
    }
    else {
      let s = v.toString().replace(/\s+/g, "");
      const neg = s[0] === "-";
      if (neg) s = s.slice(1);
      const b = base === "hex" ? 16 : base || 10;
      let r = 0n;
      for (const c of s) {
        const d = parseInt(c, 36);
        if (!(d < b)) throw new Error("Invalid character");
        r = r * BigInt(b) + BigInt(d);
      }
      this.v = neg ? -r : r;
    }
    this.red = null;
  }
  static of(v) {
    const r = new BN(0);
    r.v = v;
    return r;
  }
  static isBN(x) { return x instanceof BN; }
  static red(m) { return { m: m instanceof BN ? m.v : P }; }
  make(v) {
    const r = BN.of(this.red ? mod(v, this.red.m) : v);
    r.red = this.red;
    return r;
  }
  set(v) { this.v = v; return this; }
  clone() { return this.make(this.v); }
  copy(d) { d.v = this.v; d.red = this.red; }
  toRed(c) { const r = BN.of(mod(this.v, c.m)); r.red = c; return r; }
  fromRed() { return BN.of(this.v); }
  forceRed(c) { return this.toRed(c); }
  toBigInt() { return this.v; }
  toNumber() { return Number(this.v); }
  toString(base, pad) {
    const b = base === "hex" ? 16 : base || 10;
    let s = (this.v < 0n ? -this.v : this.v).toString(b);
    if (pad) while (s.length % pad) s = "0" + s;
    return this.v < 0n ? "-" + s : s;
  }
  toJSON() { return this.toString(16, 2); }
  byteLength() { return Math.ceil(this.bitLength() / 8); }
  bitLength() { return this.v === 0n ? 0 : (this.v < 0n ? -this.v : this.v).toString(2).length; }
  toArray(endian, len) {
    let h = (this.v < 0n ? -this.v : this.v).toString(16);
    if (h.length % 2) h = "0" + h;
    let a = Array.from(Buffer.from(h, "hex"));
    if (this.v === 0n) a = [0];
    if (len !== undefined && a.length > len && this.v !== 0n) throw new Error("byte array longer than desired length");
    while (len !== undefined && a.length < len) a.unshift(0);
    return endian === "le" ? a.reverse() : a;
  }
  toArrayLike(T, endian, len) { const a = this.toArray(endian, len); return T === Array ? a : T.from(a); }
  toBuffer(endian, len) { return Buffer.from(this.toArray(endian, len)); }
  isNeg() { return this.v < 0n; }
  isZero() { return this.v === 0n; }
  isOdd() { return (this.v & 1n) === 1n; }
  isEven() { return (this.v & 1n) === 0n; }
  isOne() { return this.v === 1n; }
  sign() { return this.v < 0n ? -1 : this.v > 0n ? 1 : 0; }
  abs() { return BN.of(this.v < 0n ? -this.v : this.v); }
  andln(x) { return Number(this.v & BigInt(x)); }
  modn(x) { return Number(this.v % BigInt(x)); }
  modrn(x) { return Number(this.v % BigInt(x)); }
  egcd(o) { return { a: BN.of(inverse(this.v, o.v)), b: BN.of(0n), gcd: BN.of(1n) }; }
  invm(m) {
    if (this.v === 0n) return BN.of(0n);
    return BN.of(inverse(this.v, m.v));
  }
  _invmp(m) { return this.invm(m); }
  divRound(m) { return BN.of((this.v + m.v / 2n) / m.v); }
  pow(e) { return this.make(this.v ** e.v); }
  sqr() { return this.make(this.v * this.v); }
}
const binary = {
  add: (a, b) => a + b, sub: (a, b) => a - b, mul: (a, b) => a * b, div: (a, b) => a / b,
  mod: (a, b) => a % b, umod: (a, b) => mod(a, b < 0n ? -b : b), and: (a, b) => a & b, or: (a, b) => a | b, xor: (a, b) => a ^ b,
};
for (const [k, f] of Object.entries(binary)) {
  BN.prototype[k] = function (o) { return this.make(f(this.v, o.v)); };
  BN.prototype["i" + k] = function (o) { this.v = this.make(f(this.v, o.v)).v; return this; };
  BN.prototype[k + "n"] = BN.prototype[k + "n"] || function (o) { return this.make(f(this.v, BigInt(o))); };
  BN.prototype["i" + k + "n"] = function (o) { this.v = this.make(f(this.v, BigInt(o))).v; return this; };
}
BN.prototype.modn = BN.prototype.modrn;
BN.prototype.neg = function () { return this.make(-this.v); };
BN.prototype.ineg = function () { this.v = this.make(-this.v).v; return this; };
BN.prototype.shln = BN.prototype.ushln = function (k) { return this.make(this.v << BigInt(k)); };
BN.prototype.shrn = BN.prototype.ushrn = function (k) { return this.make(this.v >> BigInt(k)); };
BN.prototype.testn = function (k) { return ((this.v >> BigInt(k)) & 1n) === 1n; };
BN.prototype.maskn = function (k) { return this.make(this.v & ((1n << BigInt(k)) - 1n)); };
const order = { cmp: (a, b) => (a < b ? -1 : a > b ? 1 : 0), eq: (a, b) => a === b, lt: (a, b) => a < b, lte: (a, b) => a <= b, gt: (a, b) => a > b, gte: (a, b) => a >= b };
for (const [k, f] of Object.entries(order)) {
  BN.prototype[k] = function (o) { return f(this.v, o.v); };
  BN.prototype[k + "n"] = function (o) { return f(this.v, BigInt(o)); };
}
BN.prototype.ucmp = BN.prototype.cmp;
for (const k of ["add", "sub", "mul", "pow", "sqr", "neg", "invm"])
  BN.prototype["red" + k[0].toUpperCase() + k.slice(1)] = function (o) {
    return k === "invm" ? this.make(inverse(this.v, this.red.m)) : k === "pow" ? this.make(power(this.v, o.v, this.red.m)) : this[k](o);
  };
BN.prototype.redSqrt = function () { return this.make(power(this.v, (this.red.m + 1n) / 4n, this.red.m)); };
BN.BN = BN;
BN.default = BN;

// secp256k1 in Jacobian coordinates
const INF = { x: 1n, y: 1n, z: 0n };
function dbl(p) {
  if (p.z === 0n) return p;
  const a = (p.x * p.x) % P, b = (p.y * p.y) % P, c = (b * b) % P;
  const d = mod(2n * ((p.x + b) * (p.x + b) - a - c), P), e = (3n * a) % P;
  const x = mod(e * e - 2n * d, P);
  return { x, y: mod(e * (d - x) - 8n * c, P), z: (2n * p.y * p.z) % P };
}
function add(p, q) {
  if (p.z === 0n) return q;
  if (q.z === 0n) return p;
  const z1 = (p.z * p.z) % P, z2 = (q.z * q.z) % P;
  const u1 = (p.x * z2) % P, u2 = (q.x * z1) % P, s1 = (p.y * q.z * z2) % P, s2 = (q.y * p.z * z1) % P;
  const h = mod(u2 - u1, P), r = mod(s2 - s1, P);
  if (h === 0n) return r === 0n ? dbl(p) : INF;
  const h2 = (h * h) % P, h3 = (h2 * h) % P, v = (u1 * h2) % P;
  const x = mod(r * r - h3 - 2n * v, P);
  return { x, y: mod(r * (v - x) - s1 * h3, P), z: (h * p.z * q.z) % P };
}
const RED = { m: P };
class Point {
  constructor(x, y) { this.ax = x; this.ay = y; this.inf = x === null; this.curve = curve; this.type = "affine"; }
  static jac(j) {
    if (j.z === 0n) return new Point(null, null);
    const i = inverse(j.z, P), i2 = (i * i) % P;
    return new Point((j.x * i2) % P, (j.y * i2 * i) % P);
  }
  j() { return this.inf ? INF : { x: this.ax, y: this.ay, z: 1n }; }
  get x() { return this.inf ? null : BN.of(this.ax).toRed(RED); }
  get y() { return this.inf ? null : BN.of(this.ay).toRed(RED); }
  isInfinity() { return this.inf; }
  getX() { return this.x.fromRed(); }
  getY() { return this.y.fromRed(); }
  add(o) { return Point.jac(add(this.j(), o.j())); }
  dbl() { return Point.jac(dbl(this.j())); }
  neg() { return this.inf ? this : new Point(this.ax, mod(-this.ay, P)); }
  mul(k) {
    let e = new BN(k, 16).v, b = this.j();
    if (e < 0n) { e = -e; b = this.neg().j(); }
    let r = INF;
    for (const bit of e.toString(2)) {
      r = dbl(r);
      if (bit === "1") r = add(r, b);
    }
    return Point.jac(r);
  }
  mulAdd(k, o, l) { return this.mul(k).add(o.mul(l)); }
  eq(o) { return this.inf === o.inf && this.ax === o.ax && this.ay === o.ay; }
  validate() { return this.inf || mod(this.ay * this.ay - this.ax * this.ax * this.ax - 7n, P) === 0n; }
  toJ() { return this; }
  toP() { return this; }
  encode(enc, compact) {
    const h = n => n.toString(16).padStart(64, "0");
    const s = compact ? (this.ay & 1n ? "03" : "02") + h(this.getX().v) : "04" + h(this.getX().v) + h(this.ay);
    return enc === "hex" ? s : Array.from(Buffer.from(s, "hex"));
  }
  encodeCompressed(enc) { return this.encode(enc, true); }
  inspect() { return "<EC Point>"; }
}
const curve = {
  type: "short",
  red: RED,
  point: (x, y) => {
    if (x === null || x === undefined) return new Point(null, null);
    return new Point(mod(new BN(x, 16).v, P), mod(new BN(y, 16).v, P));
  },
  pointFromX(x, odd) {
    const v = mod(new BN(x, 16).v, P), s = mod(v * v * v + 7n, P);
    let y = power(s, (P + 1n) / 4n, P);
    if ((y * y) % P !== s) throw new Error("invalid point");
    if (!!odd !== ((y & 1n) === 1n)) y = mod(-y, P);
    return new Point(v, y);
  },
  decodePoint(b, enc) {
    const a = enc === "hex" || typeof b === "string" ? Array.from(Buffer.from(b, "hex")) : Array.from(b);
    const num = (i, j) => fromBytes(a.slice(i, j));
    if ((a[0] === 4 || a[0] === 6 || a[0] === 7) && a.length === 65) {
      return new Point(mod(num(1, 33), P), mod(num(33, 65), P));
    }
    if ((a[0] === 2 || a[0] === 3) && a.length === 33) return curve.pointFromX(BN.of(num(1, 33)), a[0] === 3);
    throw new Error("Unknown point format");
  },
  validate: p => p.validate(),
};
curve.g = new Point(GX, GY);
curve.n = BN.of(N);
curve.p = BN.of(P);
curve.a = BN.of(0n);
curve.b = BN.of(7n);
curve.one = BN.of(1n);
curve.zero = BN.of(0n);
class Key {
  constructor(ec, o) {
    this.ec = ec;
    this.priv = o.priv;
    this.pub = o.pub;
  }
  getPublic(a, b) {
    let compact = a, enc = b;
    if (typeof a === "string") { enc = a; compact = null; }
    const p = this.pub || curve.g.mul(this.priv);
    return enc ? p.encode(enc, compact) : p;
  }
  getPrivate(enc) { return enc === "hex" ? this.priv.toString(16, 2) : this.priv; }
  validate() { return { result: this.getPublic().validate() && !this.getPublic().inf, reason: null }; }
}
class ec {
  constructor(name) {
    if (name !== "secp256k1") throw new Error("Unknown curve " + name);
    this.curve = curve;
    this.g = curve.g;
    this.n = curve.n;
    this.nh = BN.of(N >> 1n);
  }
  keyFromPublic(p, enc) {
    if (p instanceof Key) return p;
    return new Key(this, { pub: p instanceof Point ? p : p.x && p.y ? curve.point(p.x, p.y) : curve.decodePoint(p, enc) });
  }
  keyFromPrivate(k, enc) { return new Key(this, { priv: BN.of(mod(new BN(k, enc === "hex" ? 16 : enc || 16).v, N)) }); }
}
module.exports = { BN, elliptic: { ec }, P, N };
