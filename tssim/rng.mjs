// The only source of choices in a simulation.
export function hash32(s, h = 0x811c9dc5) {
  for (let i = 0; i < s.length; i++) {
    h = Math.imul(h ^ s.charCodeAt(i), 0x01000193);
  }
  h ^= h >>> 16;
  h = Math.imul(h, 0x85ebca6b);
  h ^= h >>> 13;
  return h >>> 0;
}

export class Rng {
  constructor(seed) {
    this.s = seed >>> 0;
    this.t = (Math.floor(seed / 0x100000000) ^ 0x9e3779b9) >>> 0;
    for (let i = 0; i < 4; i++) this.u32();
  }
  u32() {
    // two interleaved 32-bit mixers
    this.s = (this.s + 0x9e3779b9) >>> 0;
    this.t = (this.t + 0x6a09e667 + (this.s & 1)) >>> 0;
    let z = this.s ^ Math.imul(this.t, 0x85ebca6b);
    z = Math.imul(z ^ (z >>> 16), 0x21f0aaad);
    z = Math.imul(z ^ (z >>> 15), 0x735a2d97);
    return (z ^ (z >>> 15)) >>> 0;
  }
  f() {
    return this.u32() / 0x100000000;
  }
  n(n) {
    return n <= 0 ? 0 : Math.floor(this.f() * n);
  }
  in(a, b) {
    return a + this.n(b - a + 1);
  }
  p(x) {
    return this.f() < x;
  }
  skew(n) {
    const f = this.f();
    return Math.floor(f * f * f * n);
  }
  pick(xs) {
    return xs[this.n(xs.length)];
  }
  weighted(w) {
    let k = this.f() * w.reduce((a, b) => a + b, 0);
    for (let i = 0; i < w.length; i++) {
      if (k < w[i]) return i;
      k -= w[i];
    }
    return w.length - 1;
  }
  shuffle(xs) {
    for (let i = xs.length - 1; i > 0; i--) {
      const j = this.n(i + 1);
      [xs[i], xs[j]] = [xs[j], xs[i]];
    }
    return xs;
  }
}

// Trace accumulates a hash over everything that happens in a run.
export class Trace {
  constructor() {
    this.a = 0x811c9dc5;
    this.b = 0xc9dc5811;
  }
  add(s) {
    for (let i = 0; i < s.length; i++) {
      const c = s.charCodeAt(i);
      this.a = Math.imul(this.a ^ c, 0x01000193);
      this.b = Math.imul(this.b + c, 0x85ebca6b) ^ (this.b >>> 13);
    }
    this.a = Math.imul(this.a ^ 0xff, 0x01000193);
  }
  bytes() {
    const x = Buffer.alloc(8);
    x.writeUInt32LE(this.a >>> 0, 0);
    x.writeUInt32LE(this.b >>> 0, 4);
    return x;
  }
  hex() {
    return this.bytes().toString("hex");
  }
}
