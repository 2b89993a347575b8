// The simulated world of the client: a scheduler that decides every delivery,
// a network with servers behind fetch, virtual time and randomness.
import { Rng } from "./rng.mjs";

const realSetImmediate = globalThis.setImmediate;
const realSetTimeout = globalThis.setTimeout;
export const settle = () => new Promise((r) => realSetImmediate(r));
const realConsole = globalThis.console;

// ------------------------------------------------------------------ scheduler

export class Scheduler {
  // cfg: {style, seed} or {decisions: [...]} (then first come, first served)
  constructor(cfg, trace) {
    this.cfg = cfg;
    this.rng = new Rng(cfg.seed ?? 0);
    this.trace = trace;
    this.ready = [];
    this.timers = [];
    this.now = 0;
    this.steps = 0;
    this.decisions = [];
    this.seq = 0;
  }
  add(label, run) {
    this.ready.push({ label, run, seq: this.seq++ });
  }
  timer(ms, run) {
    const t = { at: this.now + Math.max(0, ms), run, seq: this.seq++ };
    this.timers.push(t);
    return t;
  }
  choose() {
    const n = this.ready.length;
    const i = this.decisions.length;
    let k = 0;
    if (this.cfg.decisions) {
      k = (this.cfg.decisions[i] ?? 0) % n;
    } else {
      switch (this.cfg.style) {
        case 1:
          k = this.rng.n(n);
          break;
        case 2: // newest first, mostly
          k = this.rng.p(0.8) ? n - 1 : this.rng.n(n);
          break;
        case 3: // bursts: stay with the choice of some steps ago
          k = this.rng.p(0.3) ? this.rng.n(n) : Math.min(this.last ?? 0, n - 1);
          break;
        default:
          k = 0;
      }
    }
    this.last = k;
    this.decisions.push(k);
    return k;
  }
  // step runs one event and reports whether there was one.
  async step() {
    if (this.ready.length === 0) {
      if (this.timers.length === 0) return false;
      this.timers.sort((a, b) => a.at - b.at || a.seq - b.seq);
      const t = this.timers.shift();
      this.now = t.at;
      this.steps++;
      this.trace.add("t" + t.at);
      t.run();
      await settle();
      return true;
    }
    const [ev] = this.ready.splice(this.choose(), 1);
    this.steps++;
    this.now++;
    this.trace.add(ev.label);
    ev.run();
    await settle();
    return true;
  }
}

// ------------------------------------------------------------------ network

const CRLF = "\r\n";
const enc = new TextEncoder();

function cat(parts) {
  const n = parts.reduce((a, p) => a + p.length, 0);
  const out = new Uint8Array(n);
  let o = 0;
  for (const p of parts) {
    out.set(p, o);
    o += p.length;
  }
  return out;
}

// prefix is a copy of a file that ends after n bytes.
function prefix(file, n) {
  return {
    base: file.base,
    length: n,
    subarray: (s, e) => file.subarray(s, Math.min(e, n)),
    bytes: file.base ? undefined : (file.bytes ?? file).subarray(0, n),
  };
}

function parseRange(h) {
  const m = /^bytes=(.+)$/.exec(h ?? "");
  if (!m) return null;
  const out = [];
  for (const s of m[1].split(",")) {
    const r = /^\s*(\d+)-(\d+)\s*$/.exec(s);
    if (!r || Number(r[1]) > Number(r[2])) return null;
    out.push([Number(r[1]), Number(r[2])]);
  }
  return out;
}

export class Net {
  // srv: the habits of the server; faults: Map from request ordinal to fault
  constructor(sched, files, srv, faults, trace, stats) {
    this.sched = sched;
    this.files = files;
    this.srv = srv;
    this.faults = faults;
    this.trace = trace;
    this.stats = stats;
    this.requests = 0;
    this.asked = []; // [file name, first byte, last byte] of every range
    this.active = []; // faulty requests: {last}
    this.maxRequests = 100000;
    this.faultsOn = true;
    this.reads = 0;
    this.spin = null;
    this.grows = {}; // file name: {from, steps: [request ordinal, bytes more][]}
  }

  // aged returns the state of a file in which a request finds it.
  aged(name, file, id, fault) {
    if (!file) return file;
    if (fault?.kind === "stale") {
      // a copy that ends early
      const b = file.base ?? 0;
      const n = file.length - b;
      const arg = fault.arg ?? 0;
      const keep = arg < 512 ? n - 1 - arg : Math.floor((n * (arg - 512)) / 3584);
      return prefix(file, b + Math.max(0, Math.min(n, keep)));
    }
    const g = this.grows[name];
    if (!g) return file;
    let n = g.from;
    for (const [at, len] of g.steps) if (id >= at) n = Math.max(n, g.from + len);
    if (n < file.length) {
      this.stats.probe("the file had not grown yet");
      return prefix(file, n);
    }
    this.stats.probe("the file had grown");
    return file;
  }

  overload() {
    if (this.requests > this.maxRequests) {
      this.spin ??= `${this.requests} requests`;
      return true;
    }
    return false;
  }

  // request resolves or rejects as the scheduler decides.
  fetch(url, init = {}) {
    const id = this.requests++;
    const u = typeof url === "string" ? url : String(url.url ?? url);
    const range = new Headers(init.headers ?? url.headers ?? {}).get("range");
    this.trace.add(`f${id} ${u} ${range}`);
    const name = /([^/]*)$/.exec(u)[1];
    const whole = this.files[name];
    const wanted = parseRange(range);
    // the ranges of a request that gets no ranges are asked for again
    if (!wanted) this.asked.push([name, 0, Math.max(0, (whole?.length ?? 0) - 1)]);
    else if (wanted.length === 1 || this.srv.multi !== "full") for (const [s, e] of wanted) this.asked.push([name, s, e]);
    const fault = this.faultsOn ? this.faults.get(id) : undefined;
    const rng = new Rng(this.srv.seed * 7919 + id * 31 + 17);
    const file = this.aged(name, whole, id, fault);
    const plan = this.plan(file, range, rng, fault);
    if (file !== whole && fault && (wanted ?? []).some(([, e]) => e >= file.length)) plan.fired = fault.kind;
    const rq = { id, last: Infinity, fault: plan.fired };
    if (plan.fired) {
      this.active.push(rq);
      this.stats.fault(plan.fired);
    }
    return new Promise((resolve, reject) => {
      if (this.overload()) {
        // never answered: the run is over
        return;
      }
      this.sched.add(`h${id}`, () => {
        if (plan.reject) {
          rq.last = this.sched.steps;
          reject(new TypeError("Failed to fetch"));
          return;
        }
        let body = null;
        if (plan.body !== null) {
          const chunks = plan.chunks;
          let ctl;
          const stream = new ReadableStream({
            type: "bytes",
            start(c) {
              ctl = c;
            },
            cancel() {
              ctl = null;
            },
          });
          body = stream;
          const deliver = (i) => {
            this.sched.add(`b${id}.${i}`, () => {
              if (!ctl) {
                rq.last = this.sched.steps;
                return;
              }
              if (i < chunks.length) {
                ctl.enqueue(chunks[i].slice());
                deliver(i + 1);
              } else {
                rq.last = this.sched.steps;
                if (plan.end === "error") {
                  ctl.error(new TypeError("terminated"));
                } else {
                  ctl.close();
                  ctl.byobRequest?.respond(0);
                }
              }
            });
          };
          deliver(0);
        } else {
          rq.last = this.sched.steps;
        }
        resolve(new Response(body, { status: plan.status, headers: plan.headers }));
      });
    });
  }

  // plan decides the response to a request.
  plan(file, range, rng, fault) {
    const srv = this.srv;
    const p = { status: 206, headers: {}, body: null, chunks: [], end: "close", reject: false, fired: null };
    const finish = () => {
      if (p.body !== null) p.chunks = this.chunk(p.body, rng);
      return p;
    };
    if (!file) {
      p.status = 404;
      p.body = enc.encode("<h1>Not Found</h1>");
      p.headers = { "Content-Type": "text/html" };
      return finish();
    }
    const ranges = parseRange(range);
    const total = file.length;
    if (!ranges || (ranges.length > 1 && srv.multi === "full")) {
      if (file.base) {
        // too much to send
        p.status = 503;
        p.body = new Uint8Array(0);
        return finish();
      }
      p.status = 200;
      p.headers = { "Content-Type": "application/octet-stream", "Content-Length": String(total) };
      p.body = file.bytes ?? file;
      return this.disturb(p, file, ranges ?? [], [], rng, fault, finish);
    }
    // ranges that begin after the end are left out, or all refused
    if (fault?.kind === "stale" && fault.arg & 1 && ranges.some(([s]) => s < total)) {
      for (let i = ranges.length - 1; i >= 0; i--) if (ranges[i][0] >= total) ranges.splice(i, 1);
    }
    if (ranges.some(([s]) => s >= total)) {
      p.status = 416;
      p.headers = { "Content-Range": `bytes */${total}` };
      p.body = new Uint8Array(0);
      return finish();
    }
    let parts = ranges.map(([s, e]) => [s, Math.min(e, total - 1)]);
    if (parts.length > 1) {
      switch (srv.multi) {
        case "shuffled":
          rng.shuffle(parts);
          break;
        case "coalesced": {
          const gap = srv.gap ?? 80;
          const sorted = [...parts].sort((a, b) => a[0] - b[0] || a[1] - b[1]);
          const out = [];
          for (const [s, e] of sorted) {
            const l = out[out.length - 1];
            if (l && s <= l[1] + 1 + gap) l[1] = Math.max(l[1], e);
            else out.push([s, e]);
          }
          parts = out;
          break;
        }
      }
    }
    return this.disturb(p, file, ranges, parts, rng, fault, finish);
  }

  // fill writes headers and body of a 206 response.
  fill(p, file, parts, rng, o = {}) {
    const srv = this.srv;
    const total = srv.star && rng.p(0.5) ? "*" : file.length;
    const contentRange = o.contentRange ?? (([s, e]) => `bytes ${s}-${e}/${total}`);
    const bytes = o.bytes ?? (([s, e]) => file.subarray(s, e + 1));
    p.body = new Uint8Array(0);
    if (parts.length === 1 && !o.forceMultipart) {
      p.headers = {};
      const cr = contentRange(parts[0], 0);
      if (cr !== null) p.headers[rng.p(0.5) ? "Content-Range" : "content-range"] = cr;
      if (!srv.untyped) p.headers["Content-Type"] = "application/octet-stream";
      p.body = bytes(parts[0], 0);
      return;
    }
    let b = srv.boundary ?? "3d6b6a416f9b5";
    const out = [];
    if (srv.preamble) out.push(enc.encode(srv.preamble.replace("BOUNDARY", b)));
    const name = { c: "Content-Range", l: "content-range", u: "CONTENT-RANGE" }[srv.case ?? "c"];
    parts.forEach((r, i) => {
      const hs = [];
      const cr = contentRange(r, i);
      if (cr !== null) hs.push(`${name}:${srv.nospace ? "" : " "}${cr}`);
      if (!srv.untyped) hs.unshift(srv.case === "l" ? "content-type: application/octet-stream" : "Content-Type: application/octet-stream");
      if (srv.extra) hs.splice(rng.n(hs.length + 1), 0, "Last-Modified: Wed, 15 Nov 2023 04:58:08 GMT");
      out.push(enc.encode(`${i === 0 ? "" : CRLF}--${b}${CRLF}${hs.join(CRLF)}${CRLF}${CRLF}`));
      out.push(bytes(r, i));
    });
    out.push(enc.encode(`${CRLF}--${b}--${srv.tail === 0 ? "" : CRLF}${srv.tail === 2 ? "epilogue\r\n" : ""}`));
    p.body = cat(out);
    const hb = o.boundary ?? b;
    const q = srv.quoted || /[^A-Za-z0-9_-]/.test(hb);
    p.headers = {
      "Content-Type": (srv.typeCase ? "Multipart/Byteranges" : "multipart/byteranges") + (o.noBoundary ? "" : `;${srv.nospace ? "" : " "}${srv.typeCase ? "Boundary" : "boundary"}=${q ? `"${hb}"` : hb}`),
    };
    if (o.noType) delete p.headers["Content-Type"];
  }

  disturb(p, file, ranges, parts, rng, fault, finish) {
    const plain = () => {
      if (p.status === 206) this.fill(p, file, parts, rng);
    };
    if (!fault) {
      plain();
      return finish();
    }
    const arg = fault.arg ?? 0;
    const err = (status) => {
      p.status = status;
      p.headers = { "Content-Type": "text/html" };
      p.body = [204, 205, 304].includes(status) ? null : enc.encode(`<html><body><h1>${status}</h1> {"a":1}</body></html>`);
    };
    if (fault.kind === "stale") {
      plain();
      return finish();
    }
    p.fired = fault.kind;
    const multi = p.status === 206 && parts.length > 1;
    switch (fault.kind) {
      case "reject":
        p.reject = true;
        return p;
      case "status":
        err([400, 401, 403, 404, 408, 416, 429, 500, 502, 503, 504, 204, 304][arg % 13]);
        return finish();
      case "status-with-range":
        // an error page that a cache labelled as a range
        plain();
        p.status = [404, 500, 503, 200][arg % 4];
        if (p.status === 200 && file.base) p.status = 500;
        if (p.status === 200) p.body = file.bytes ?? file;
        return finish();
      case "full":
        if (file.base) {
          err(500);
          return finish();
        }
        p.status = 200;
        p.headers = { "Content-Type": "application/octet-stream" };
        p.body = file.bytes ?? file;
        return finish();
      case "reset":
      case "truncate": {
        plain();
        const n = p.body.length;
        const at = n === 0 ? 0 : arg < 8 ? Math.max(0, n - 1 - arg) : (arg * 7919) % n;
        p.body = p.body.subarray(0, at);
        p.end = fault.kind === "reset" ? "error" : "close";
        return finish();
      }
      case "empty":
        plain();
        p.body = new Uint8Array(0);
        return finish();
      case "null-body":
        plain();
        p.body = null;
        return finish();
      case "no-content-range":
        if (p.status !== 206) break;
        this.fill(p, file, parts, rng, { contentRange: (r, i) => (i === arg % parts.length ? null : `bytes ${r[0]}-${r[1]}/${file.length}`) });
        return finish();
      case "bad-content-range": {
        if (p.status !== 206) break;
        const bad = [`bytes */${file.length}`, "items 0-5/10", "bytes", "bytes 7", "bytes a-b/c", "bytes 5-1/10", "", "bytes -5-1/10", "0-5/10"];
        this.fill(p, file, parts, rng, { contentRange: (r, i) => (i === arg % parts.length ? bad[Math.floor(arg / 7) % bad.length] : `bytes ${r[0]}-${r[1]}/${file.length}`) });
        return finish();
      }
      case "other-range":
      case "short-range": {
        if (p.status !== 206) break;
        const k = arg % parts.length;
        const moved = parts.map(([s, e], i) => {
          if (i !== k) return [s, e];
          if (fault.kind === "short-range") return e > s ? (arg & 64 ? [s + 1, e] : [s, e - 1]) : [s === 0 ? 1 : s - 1, s === 0 ? 1 : s - 1];
          const d = 1 + ((arg >> 3) % 5000);
          return s - d >= 0 ? [s - d, e - d] : [Math.min(s + d, file.length - 1), Math.min(e + d, file.length - 1)];
        });
        this.fill(p, file, moved, rng);
        return finish();
      }
      case "missing-part":
        if (!multi) break;
        this.fill(p, file, parts.filter((_, i) => i !== arg % parts.length), rng, { forceMultipart: true });
        return finish();
      case "only-first":
        if (!multi) break;
        this.fill(p, file, parts.slice(0, 1), rng, { forceMultipart: !!(arg & 1) });
        return finish();
      case "no-parts":
        if (!multi) break;
        this.fill(p, file, [], rng, { forceMultipart: true });
        return finish();
      case "repeated-part":
        if (!multi) break;
        this.fill(p, file, [...parts.slice(0, 1 + (arg % parts.length)), parts[arg % parts.length], ...parts.slice(1 + (arg % parts.length))], rng);
        return finish();
      case "unasked-part": {
        if (!multi) break;
        const s = arg % file.length;
        this.fill(p, file, [...parts.slice(0, arg % parts.length), [s, Math.min(file.length - 1, s + (arg % 50))], ...parts.slice(arg % parts.length)], rng);
        return finish();
      }
      case "short-part":
      case "long-part":
        if (p.status !== 206) break;
        this.fill(p, file, parts, rng, {
          bytes: ([s, e], i) => (i !== arg % parts.length ? file.subarray(s, e + 1) : fault.kind === "short-part" ? file.subarray(s, Math.max(s, e - (arg % 3))) : cat([file.subarray(s, e + 1), enc.encode("xy")])),
        });
        return finish();
      case "other-boundary":
        if (!multi) break;
        this.fill(p, file, parts, rng, { boundary: "zz" });
        return finish();
      case "no-boundary":
        if (!multi) break;
        this.fill(p, file, parts, rng, { noBoundary: true });
        return finish();
      case "no-type":
        if (p.status !== 206) break;
        this.fill(p, file, parts, rng, { noType: true });
        return finish();
      case "other-type":
        plain();
        p.headers = { "Content-Type": "text/html" };
        return finish();
      case "garbage": {
        plain();
        const g = new Uint8Array(p.body.length);
        for (let i = 0; i < g.length; i++) g[i] = rng.n(256);
        if (p.headers["Content-Type"]?.toLowerCase().includes("multipart")) {
          p.body = g;
          return finish();
        }
        // content cannot be told from garbage: break the framing instead
        p.body = cat([p.body, g.subarray(0, 1 + (arg % 10))]);
        return finish();
      }
    }
    p.fired = null; // does not apply to this request
    plain();
    return finish();
  }

  // chunk cuts a body in the pieces in which it is delivered.
  chunk(body, rng) {
    const srv = this.srv;
    const out = [];
    let size = srv.chunk || body.length || 1;
    if (body.length / size > 48) size = Math.ceil(body.length / 48);
    for (let o = 0; o < body.length; ) {
      const n = srv.even ? size : 1 + rng.n(2 * size - 1);
      out.push(body.subarray(o, Math.min(o + n, body.length)));
      o += n;
    }
    return out;
  }
}

// ------------------------------------------------------------------ globals

let current = null;

export function install() {
  globalThis.fetch = (url, init) => {
    if (!current) return Promise.reject(new TypeError("no simulation"));
    return current.net.fetch(url, init);
  };
  globalThis.setTimeout = (fn, ms = 0, ...args) => {
    if (!current) return realSetTimeout(fn, ms, ...args);
    return current.sched.timer(ms, () => fn(...args));
  };
  globalThis.clearTimeout = (t) => {
    if (current && t) current.sched.timers = current.sched.timers.filter((x) => x !== t);
  };
  const realRandom = Math.random;
  Math.random = () => (current ? current.random.f() : realRandom());
  const realNow = Date.now;
  Date.now = () => (current ? 1700000000000 + current.sched.now : realNow());
  const quiet = {};
  for (const k of Object.keys(realConsole)) quiet[k] = typeof realConsole[k] === "function" ? () => {} : realConsole[k];
  globalThis.console = quiet;
  // A reader that never stops reading a finished stream would never return to
  // the scheduler.
  const rp = ReadableStreamDefaultReader.prototype;
  const realRead = rp.read;
  rp.read = function (...a) {
    if (current && ++current.reads > 50000) {
      current.net.spin ??= "50000 reads of response bodies while nothing arrived";
      return new Promise(() => {});
    }
    return realRead.apply(this, a);
  };
}

export function enter(world) {
  current = world;
  current.reads = 0;
}
export function progressed() {
  if (current) current.reads = 0;
}
export function leave() {
  current = null;
}
