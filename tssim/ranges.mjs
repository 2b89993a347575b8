// The transports by themselves: range resolvers, plain and cached, called by
// several callers at once over the simulated network.
import { Scheduler, Net, enter, leave, settle, progressed } from "./sim.mjs";
import { Rng, Trace } from "./rng.mjs";
import { genServer, kinds } from "./gen.mjs";

// modes of a scenario
const MULTIPART = 0, INDIVIDUAL = 1, CACHED_MULTIPART = 2, CACHED_INDIVIDUAL = 3, CACHED_OTHER = 4, UNSET = 5;
const cachedMode = (m) => m === CACHED_MULTIPART || m === CACHED_INDIVIDUAL || m === CACHED_OTHER;

export function genRanges(r, c) {
  c.kind = "ranges";
  c.recs = [];
  c.cuts = [];
  c.search = [];
  c.newline = true;
  c.faults = [];
  c.size = r.pick([1, 2, 10, 100, 4096, 5000, 20000, 100000, r.in(1, 30000)]);
  c.fill = r.n(1e9);
  if (r.p(0.08)) c.base = r.pick([2 ** 31 - 1 - r.n(200), 2 ** 32 - 1 - r.n(200), 5 * 2 ** 30 + r.n(10000)]);
  c.mode = r.weighted([35, 20, 15, 10, 15, 5]);
  c.server = genServer(r);
  if (c.base && c.server.multi === "full") c.server.multi = "parts";
  c.sched = { style: r.weighted([2, 5, 2, 2]), seed: r.n(1e9) };
  const size = c.size + (c.base ?? 0);
  const lanes = r.weighted([5, 3, 2, 1]) + 1;
  // callers of a cache can share the failure of another's request
  const wrong = r.p(0.25);
  const faulty = r.p(0.4);
  const past = r.p(0.1) && ((lanes === 1 && !wrong && !faulty && !c.server.star) || !cachedMode(c.mode));
  const pool = [];
  const lens = r.pick([[1, 2, 3], [1, 10, 100], [4096], [1, 50, 5000], [1, 2, 30, c.size]]);
  const range = () => {
    if (pool.length && r.p(0.15)) return { ...r.pick(pool) };
    let s, e;
    if (pool.length && r.p(0.35)) {
      // inside, beside or across one asked for before
      const p = r.pick(pool);
      s = r.pick([p.start, r.in(p.start, p.end), p.end, p.end + 1, Math.max(0, p.start - r.in(0, 5))]);
      e = r.pick([p.end, s, r.in(s, Math.max(s, p.end)), s + r.n(10)]);
    } else {
      s = c.base && r.p(0.5) ? r.n(c.base) : (c.base ?? 0) + r.n(c.size);
      e = s + r.in(1, r.pick(lens)) - 1;
    }
    e = Math.max(s, e);
    if (!past || r.p(0.9)) {
      s = Math.min(s, size - 1);
      e = Math.min(e, size - 1);
    }
    const x = { start: s, end: e };
    pool.push(x);
    if (r.p(0.25)) x.expectedLength = wrong && r.p(0.3) ? r.pick([size - 1, size + 1, size * 2, 1, e + 1]) : size;
    if (x.expectedLength <= 0) delete x.expectedLength;
    return { ...x };
  };
  const call = () => {
    const ranges = [];
    for (let k = r.p(0.4) ? 1 : r.in(1, r.pick([2, 5, 5, 40])); k > 0; k--) ranges.push(range());
    const q = { ranges };
    if (r.p(0.3)) q.scribble = true;
    return q;
  };
  c.lanes = [];
  for (let k = lanes; k > 0; k--) {
    const lane = [];
    for (let j = 1 + r.skew(8); j > 0; j--) lane.push(call());
    c.lanes.push(lane);
  }
  if (cachedMode(c.mode) && lanes === 1 && !past && !wrong && !faulty && r.p(0.25)) {
    // a long history, and ranges of its beginning again
    const wide = [];
    for (let k = r.in(2, 9); k > 0; k--) wide.push({ ranges: Array.from({ length: r.in(10, 60) }, range) });
    c.lanes[0] = [...wide, ...c.lanes[0]];
    const early = wide[0].ranges;
    for (let k = r.in(1, 6); k > 0; k--) c.lanes[0].push({ ranges: [{ ...r.pick(early) }] });
  }
  if (faulty) {
    const subset = r.p(0.5) ? r.shuffle([...kinds]).slice(0, r.in(1, 4)) : kinds;
    const span = r.pick([2, 4, 8, 20]);
    for (let k = r.pick([1, 1, 2, 3, 8]); k > 0; k--) c.faults.push({ at: r.n(span), kind: r.pick(subset), arg: r.n(4096) });
    // the same calls again once the faults stopped
    c.after = c.lanes.flat().slice(0, 6).map((q) => structuredClone(q));
  }
}

// Contents is a file made from a seed.
class Contents {
  constructor(c) {
    this.base = c.base ?? 0;
    const r = new Rng(c.fill);
    this.bytes = new Uint8Array(c.size);
    // bytes that look like the framing of a response, too
    const frames = ["\r\n", "--", "\r\n--3d6b6a416f9b5\r\n", "Content-Range: bytes 0-5/10\r\n\r\n"].map((s) => Buffer.from(s));
    for (let i = 0; i < this.bytes.length; ) {
      if (r.p(0.05)) {
        for (const b of r.pick(frames)) if (i < this.bytes.length) this.bytes[i++] = b;
      } else this.bytes[i++] = r.n(256);
    }
    this.length = this.base + c.size;
  }
  subarray(s, e) {
    e = Math.min(e, this.length);
    if (s >= this.base) return this.bytes.subarray(s - this.base, e - this.base);
    const out = new Uint8Array(Math.max(0, e - s));
    if (e > this.base) out.set(this.bytes.subarray(0, e - this.base), this.base - s);
    return out;
  }
}

const viol = (cls, msg, step) => ({ class: cls, msg, step });
const show = (q) => JSON.stringify(q.ranges).slice(0, 300);

// other is a resolver that is not part of the library.
function other(net, file) {
  return (ranges) =>
    Promise.all(
      ranges.map(async ({ start, end, expectedLength }) => {
        const res = await net.fetch("x:/f", { headers: { Range: `bytes=${start}-${end}` } });
        const buf = await res.arrayBuffer();
        if (res.status !== 206 || buf.byteLength !== end - start + 1 || !new RegExp(`^bytes ${start}-${end}/`).test(res.headers.get("content-range") ?? "")) throw new Error("bad response");
        if (expectedLength !== undefined && expectedLength !== file.length) throw new globalThis.Resolvers.LengthIntegrityError();
        return { data: buf, totalLength: file.length };
      }),
    );
}

export async function runRanges(sc, stats) {
  const c = sc.client;
  const lib = globalThis.Resolvers;
  if (!lib) throw new Error("HARNESS: the resolvers could not be built");
  const trace = new Trace();
  const out = { trace, violation: null, decisions: [], nontrivial: false };
  const file = new Contents(c);
  const sched = new Scheduler(c.sched, trace);
  const net = new Net(sched, { f: file }, c.server, new Map((c.faults ?? []).map((f) => [f.at, f])), trace, stats);
  const world = { sched, net, random: new Rng((sc.seed % 2 ** 32) + 5), trace, stats };
  enter(world);
  try {
    const url = "https://host.test/f";
    const plain = (useMultipartByteRanges) => (ranges) => lib.requestRanges(url, ranges, { useMultipartByteRanges });
    const resolver = {
      [MULTIPART]: () => plain(true),
      [INDIVIDUAL]: () => plain(false),
      [CACHED_MULTIPART]: () => lib.cache(plain(true)),
      [CACHED_INDIVIDUAL]: () => lib.cache(plain(false)),
      [CACHED_OTHER]: () => lib.cache(other(net, file)),
      [UNSET]: () => (ranges) => lib.requestRanges(url, ranges, {}),
    }[c.mode]();
    const single = c.lanes.length === 1 && !c.faults.length;
    const had = []; // ranges of successful calls
    let refused = false;
    const judge = (q, r, faulty) => {
      const disturbed = faulty && net.active.some((a) => a.last >= r.began);
      const vague = c.server.star && c.mode !== CACHED_OTHER;
      const mismatch = q.ranges.some((x) => x.expectedLength !== undefined && x.expectedLength !== file.length);
      const beyond = q.ranges.some((x) => x.end >= file.length);
      if (r.error) {
        if (disturbed) {
          stats.probe("a call failed");
          return null;
        }
        if (beyond) return null;
        if (mismatch) {
          stats.probe("a changed length was reported");
          if (r.error instanceof lib.LengthIntegrityError) return null;
          return viol("error", `${show(q)} of ${file.length} bytes has to fail with a LengthIntegrityError and failed with: ${r.error}`);
        }
        if (vague && q.ranges.some((x) => x.expectedLength !== undefined)) return null;
        return viol("error", `${show(q)} of ${file.length} bytes failed: ${r.error}`);
      }
      if (!Array.isArray(r.value) || r.value.length !== q.ranges.length) return viol("count", `${show(q)} gave ${r.value?.length} results`);
      for (let i = 0; i < q.ranges.length; i++) {
        const { start, end } = q.ranges[i];
        const got = r.value[i];
        if (!(got?.data instanceof ArrayBuffer)) return viol("type", `${show(q)}: result ${i} is no ArrayBuffer`);
        if (end >= file.length) return viol("beyond", `${show(q)}: range ${i} reaches beyond the ${file.length} bytes and was answered with ${got.data.byteLength}`);
        const want = file.subarray(start, end + 1);
        if (got.data.byteLength !== want.length) return viol("length", `${show(q)}: range ${i} gave ${got.data.byteLength} bytes instead of ${want.length}`);
        if (Buffer.compare(Buffer.from(got.data), want) !== 0) return viol("bytes", `${show(q)}: range ${i} gave other bytes`);
        if (got.totalLength !== file.length && !(vague && Number.isNaN(got.totalLength))) return viol("total", `${show(q)}: range ${i} gave a total length of ${got.totalLength} instead of ${file.length}`);
      }
      if (mismatch) return viol("unnoticed", `${show(q)} of ${file.length} bytes was answered although an expected length differs`);
      if (single && cachedMode(c.mode) && !refused) {
        const inside = q.ranges.every((x) => had.some((h) => h.start <= x.start && x.end <= h.end));
        if (inside) stats.probe("answered from the cache");
        if (inside && r.requests > 0) return viol("refetch", `${show(q)} was asked for again`);
      }
      return null;
    };
    let violation = null;
    const lane = (queries, faulty) => {
      const l = { i: 0, busy: false };
      const arm = () => {
        if (l.i < queries.length) sched.add("l", act);
      };
      const act = () => {
        const q = queries[l.i++];
        const r = { began: sched.steps, value: null, error: null };
        const before = net.requests;
        l.busy = true;
        stats.ops++;
        let p;
        try {
          p = Promise.resolve(resolver(q.ranges.map((x) => ({ ...x }))));
        } catch (e) {
          p = Promise.reject(e);
        }
        const end = () => {
          l.busy = false;
          r.requests = net.requests - before;
          const v = judge(q, r, faulty);
          trace.add(r.error ? "error" : "ok");
          if (v && !violation) {
            v.step = sched.steps;
            violation = v;
          }
          if (r.error) refused = true;
          else {
            had.push(...q.ranges);
            out.nontrivial = true;
            if (q.ranges.some((x) => x.start === x.end)) stats.probe("a range of one byte");
            // what a caller does with its bytes is its own business
            if (q.scribble && Array.isArray(r.value)) for (const x of r.value) if (x?.data instanceof ArrayBuffer) new Uint8Array(x.data).fill(0x55);
          }
          arm();
        };
        p.then(
          (x) => {
            r.value = x;
            end();
          },
          (e) => {
            r.error = e ?? new Error("rejected with nothing");
            end();
          },
        );
      };
      arm();
      l.done = () => !l.busy && l.i >= queries.length;
      return l;
    };
    const drive = async (lanes) => {
      for (;;) {
        progressed();
        if (violation) return violation;
        if (net.spin) return viol("spin", `no progress: ${net.spin}`, sched.steps);
        if (!(await sched.step())) return lanes.every((l) => l.done()) ? violation : viol("hang", "nothing is under way and a call has not ended", sched.steps);
      }
    };
    await settle();
    out.violation = await drive(c.lanes.map((qs) => lane(qs, true)));
    if (!out.violation && c.after) {
      net.faultsOn = false;
      out.violation = await drive([lane(c.after, false)]);
      if (out.violation) {
        out.violation.class = "after-" + out.violation.class;
        out.violation.msg = "after the faults stopped: " + out.violation.msg;
      }
    }
    out.nontrivial ||= net.active.length > 0;
    stats.probe(`lanes ${c.lanes.length}`);
    if (sched.decisions.some((k) => k > 0)) stats.probe("an event overtook another");
    return out;
  } finally {
    leave();
    out.decisions = sched.decisions;
    stats.steps += sched.steps;
    out.requests = net.requests;
  }
}
