// One run: builds the data set with the indexer, then lets the client answer
// the queries of the scenario over the simulated network.
import { spawn } from "node:child_process";
import { Scheduler, Net, enter, leave, settle, progressed } from "./sim.mjs";
import { Rng, Trace } from "./rng.mjs";
import { recordsOf } from "./gen.mjs";
import * as O from "./oracle.mjs";
import * as Cost from "./cost.mjs";
import { runRanges } from "./ranges.mjs";

// ------------------------------------------------------------------ indexer

let child = null;
let waiting = [];
let buffer = Buffer.alloc(0);

function pump() {
  while (waiting.length && buffer.length >= 5) {
    const n = buffer.readUInt32LE(1);
    if (buffer.length < 5 + n) return;
    const status = buffer[0];
    const body = buffer.subarray(5, 5 + n);
    buffer = buffer.subarray(5 + n);
    const w = waiting.shift();
    if (status === 0) w.resolve(new Uint8Array(body));
    else w.reject(new Error("indexer: " + body.toString()));
  }
}

export function startIndexer(path) {
  child = spawn(path, ["dataset"], { stdio: ["pipe", "pipe", "inherit"] });
  child.stdout.on("data", (d) => {
    buffer = buffer.length ? Buffer.concat([buffer, d]) : d;
    pump();
  });
  child.on("exit", (code) => {
    for (const w of waiting) w.reject(new Error("HARNESS: the indexer exited with " + code));
    waiting = [];
  });
}

export function stopIndexer() {
  child?.stdin.end();
}

export function buildIndex(req) {
  return new Promise((resolve, reject) => {
    waiting.push({ resolve, reject });
    const b = Buffer.from(JSON.stringify(req));
    const h = Buffer.alloc(4);
    h.writeUInt32LE(b.length);
    child.stdin.write(Buffer.concat([h, b]));
  });
}

function dataOf(c) {
  const recs = recordsOf(c);
  const data = recs.join("\n") + (c.newline && recs.length ? "\n" : "");
  const bytes = new Uint8Array(Buffer.from(data));
  return { data, bytes };
}

// DataBytes is a file of zeros before the records.
class DataBytes {
  constructor(base, bytes) {
    this.base = base;
    this.bytes = bytes;
    this.length = base + bytes.length;
  }
  subarray(s, e) {
    e = Math.min(e, this.length);
    if (s >= this.base) return this.bytes.subarray(s - this.base, e - this.base);
    const out = new Uint8Array(Math.max(0, e - s));
    if (e > this.base) out.set(this.bytes.subarray(0, e - this.base), this.base - s);
    return out;
  }
}

// GappedBytes is a file with zeros after its first two pages.
class GappedBytes {
  constructor(gap, bytes) {
    this.base = GAP_AT + gap; // it is too much to send
    this.gap = gap;
    this.bytes = bytes;
    this.length = gap + bytes.length;
  }
  subarray(s, e) {
    e = Math.min(e, this.length);
    if (s >= this.base) return this.bytes.subarray(s - this.gap, e - this.gap);
    const out = new Uint8Array(Math.max(0, e - s));
    if (s < GAP_AT) out.set(this.bytes.subarray(s, Math.min(e, GAP_AT)), 0);
    if (e > this.base) out.set(this.bytes.subarray(GAP_AT, e - this.gap), this.base - s);
    return out;
  }
}
const GAP_AT = 2 * 4096;

// indexes being made for coming runs
const ahead = new WeakMap();

function request(c) {
  const { data, bytes } = dataOf(c);
  return buildIndex({ data, base: c.base ?? 0, gap: c.gap ?? 0, search: c.search, cuts: c.cuts.map((n) => Math.min(n, bytes.length)) });
}

export function prepare(sc) {
  if (sc.client.kind === "ranges") return;
  const p = request(sc.client);
  p.catch(() => {});
  ahead.set(sc, p);
}

// ------------------------------------------------------------------ stats

export class Stats {
  constructor() {
    this.runs = 0;
    this.ops = 0;
    this.steps = 0;
    this.faults = {};
    this.probes = {};
    this.known = {};
    this.redone = 0;
    this.diverged = 0;
    this.nontrivial = 0;
  }
  fault(k) {
    this.faults[k] = (this.faults[k] ?? 0) + 1;
  }
  probe(k) {
    this.probes[k] = (this.probes[k] ?? 0) + 1;
  }
}

const viol = (cls, msg, step) => ({ class: cls, msg, step });

// ------------------------------------------------------------------ queries

function start(db, q) {
  const { init, ...rest } = {};
  const key = q.path?.join(".");
  if (q.like !== undefined) {
    if (q.limit === undefined && q.min !== undefined) return db.search(key, q.like, { minGram: q.min, maxGram: q.max });
    const search = { key, like: q.like };
    if (q.min !== undefined) search.config = { minGram: q.min, maxGram: q.max };
    const query = { search };
    if (q.limit !== undefined) query.limit = q.limit;
    return db.query(query);
  }
  if (q.raw) {
    const query = { where: q.where.map(({ op, v }) => ({ key, operation: op, value: O.valueOf(v) })) };
    if (q.dir) query.orderBy = [{ key, direction: q.dir }];
    if (q.select) query.select = q.select;
    if (q.limit !== undefined) query.limit = q.limit;
    return db.query(query);
  }
  let b = null;
  // a query made from a part of another must not change it
  const fork = () => {
    if (!q.fork) return;
    b.where(key, "<", -1).limit(0);
    b.orderBy(key, q.dir === "DESC" ? "ASC" : "DESC").select(["none"]);
    b.toQuery().where.push({ key, operation: ">", value: 1 });
  };
  for (const { op, v } of q.where) {
    b = (b ?? db).where(key, op, O.valueOf(v));
    fork();
  }
  if (q.dir) b = b.orderBy(key, q.dir);
  if (q.select) b = b.select(q.select);
  if (q.limit !== undefined) b = b.limit(q.limit);
  fork();
  return b.get();
}

class Lane {
  constructor(w, id, queries) {
    this.w = w;
    this.id = id;
    this.queries = queries;
    this.i = 0;
    this.cur = null;
    this.busy = false;
    this.results = [];
    this.arm();
  }
  get done() {
    return !this.busy && this.cur === null && this.i >= this.queries.length;
  }
  // arm offers the next action of this lane to the scheduler.
  arm() {
    if (this.cur === null && this.i >= this.queries.length) return;
    this.w.sched.add(`l${this.id}`, () => this.act());
  }
  act() {
    if (this.cur === null) {
      const q = this.queries[this.i++];
      this.cur = { q, got: [], error: null, finished: false, began: this.w.sched.steps, asked: this.w.net.asked.length, lane: this.id };
      this.w.stats.ops++;
      if (q.fields) {
        this.call(() => this.w.db.fields(), (hs) => {
          this.cur.got = hs;
          this.end(true);
        });
        return;
      }
      try {
        this.gen = start(this.w.db, q);
      } catch (e) {
        this.end(false, e);
        return;
      }
      if (q.take === 0) {
        this.abandon();
        return;
      }
    }
    if (this.cur.q.take !== undefined && this.cur.got.length >= this.cur.q.take) {
      this.abandon();
      return;
    }
    this.call(() => this.gen.next(), (r) => {
      if (r.done) {
        this.end(true);
      } else {
        this.cur.got.push(r.value);
        this.w.trace.add(O.canon(r.value));
        this.arm();
      }
    });
  }
  abandon() {
    this.call(() => this.gen.return(), () => {
      this.cur.abandoned = true;
      this.end(false);
    });
  }
  call(fn, ok) {
    this.busy = true;
    let p;
    try {
      p = Promise.resolve(fn());
    } catch (e) {
      p = Promise.reject(e);
    }
    p.then(
      (r) => {
        this.busy = false;
        ok(r);
      },
      (e) => {
        this.busy = false;
        this.end(false, e);
      },
    );
  }
  end(finished, error = null) {
    this.cur.finished = finished;
    this.cur.error = error;
    this.cur.ended = this.w.sched.steps;
    this.cur.askedEnd = this.w.net.asked.length;
    this.w.trace.add(`end ${finished} ${error ? "error" : ""}`);
    this.results.push(this.cur);
    this.cur = null;
    this.gen = null;
    this.arm();
  }
}

// ------------------------------------------------------------------ run

export async function run(sc, stats, init) {
  const c = sc.client;
  if (c.kind === "ranges") return runRanges(sc, stats);
  const trace = new Trace();
  const out = { trace, violation: null, decisions: [], nontrivial: false };
  const all = recordsOf(c);
  const indexed = c.newline ? all : all.slice(0, -1);
  const recs = indexed.map((x) => JSON.parse(x));
  let bytes = dataOf(c).bytes;
  const first = bytes.length;
  if (c.growth) bytes = new Uint8Array(Buffer.concat([bytes, Buffer.from(c.growth.tail)]));
  const dataBytes = new DataBytes(c.base ?? 0, bytes);
  let index;
  try {
    const p = ahead.get(sc);
    ahead.delete(sc);
    index = (await p) ?? (await request(c));
  } catch (e) {
    if (String(e).includes("HARNESS")) throw e;
    // making the index is the indexer's part and C01's
    stats.probe("no index");
    return out;
  }
  if (c.gap) index = new GappedBytes(c.gap, index);
  const sched = new Scheduler(c.sched, trace);
  const faults = new Map((c.faults ?? []).map((f) => [f.at, f]));
  const net = new Net(sched, { "data.jsonl": dataBytes, "index.dat": index }, c.server, faults, trace, stats);
  if (c.growth) net.grows["data.jsonl"] = { from: (c.base ?? 0) + first, steps: c.growth.steps };
  net.maxRequests = 3000 + 60 * (recs.length + 10) * (c.lanes.flat().length + (c.after?.length ?? 0));
  const world = { sched, net, random: new Rng((sc.seed % 2 ** 32) + 5), trace, stats, db: null };
  enter(world);
  let pendingDb = true;
  let initError = null;
  try {
    const resolver = (name) => (ranges) => resolve(net, name, ranges);
    const args = [
      ["https://host.test/data.jsonl", "https://host.test/index.dat"],
      ["https://host.test/data.jsonl", "https://host.test/index.dat", { useMultipartByteRanges: true }],
      ["https://host.test/data.jsonl", "https://host.test/index.dat", { useMultipartByteRanges: false }],
      [resolver("data.jsonl"), resolver("index.dat")],
    ][c.mode];
    init(...args).then(
      (db) => {
        world.db = db;
        pendingDb = false;
      },
      (e) => {
        initError = e;
        pendingDb = false;
      },
    );
    await settle();
    let stuck = null;
    const drive = async (until) => {
      for (;;) {
        progressed();
        if (net.spin) {
          stuck = viol("spin", `the client makes no progress: ${net.spin}`, sched.steps);
          return;
        }
        if (!(await sched.step())) {
          if (!until()) stuck = viol("hang", "nothing is under way and a query has not ended", sched.steps);
          return;
        }
        if (sched.steps > 5_000_000) {
          stuck = viol("no-progress", `a query has not ended after ${sched.steps} steps`, sched.steps);
          return;
        }
      }
    };
    if (pendingDb) await drive(() => !pendingDb);
    if (stuck) {
      out.violation = stuck;
      return out;
    }
    if (initError) {
      // opening is a request of its own for some clients
      out.violation = net.active.length ? null : viol("error", `opening failed: ${initError}`, sched.steps);
      return out;
    }
    const opened = net.asked.length;
    const lanes = c.lanes.map((qs, i) => new Lane(world, i, qs));
    await drive(() => lanes.every((l) => l.done));
    const judge = (l, faulty) => {
      // the answers are the part of C16 and C18
      if (sc.prop === "C24") return null;
      for (const r of l.results) {
        const v = check(sc, recs, r, net, faulty, stats);
        if (v) {
          v.step = r.ended;
          return v;
        }
      }
      return null;
    };
    for (const l of lanes) {
      // what was yielded counts even when the run is stuck
      const v = judge(l, true);
      if (v) {
        out.violation = v;
        return out;
      }
    }
    if (stuck) {
      out.violation = stuck;
      return out;
    }
    if (sc.prop === "C24") {
      const v = costs(c, recs, indexed, lanes, net, stats, opened);
      if (v) {
        v.step = sched.steps;
        out.violation = v;
        return out;
      }
    }
    if (c.after) {
      net.faultsOn = false;
      const last = new Lane(world, 99, c.after);
      await drive(() => last.done);
      const v = judge(last, false);
      if (v) {
        v.class = "after-" + v.class;
        v.msg = "after the faults stopped: " + v.msg;
        out.violation = v;
        return out;
      }
      if (stuck) {
        stuck.class = "after-" + stuck.class;
        out.violation = stuck;
        return out;
      }
    }
    if (recs.length > 40000) stats.probe("more than 40000 records");
    const done = lanes.flatMap((l) => l.results);
    out.nontrivial = done.some((r) => r.got.length > 0);
    if (sc.prop === "C17" || sc.prop === "C29") out.nontrivial = out.nontrivial || net.active.length > 0;
    stats.probe(`lanes ${lanes.length}`);
    if (c.base) stats.probe("data beyond 2 GiB");
    if (c.gap) stats.probe("index beyond 2 GiB");
    if (recs.length > 250) stats.probe("more than 250 records");
    if (done.some((r) => r.error)) stats.probe("a query failed");
    if (done.some((r) => r.error && r.got.length)) stats.probe("a query failed after yielding records");
    if (done.some((r) => r.abandoned && r.got.length)) stats.probe("a query was abandoned");
    if (done.some((r) => r.finished && r.q.limit !== undefined && r.got.length === r.q.limit)) stats.probe("a limit was reached");
    if (done.some((r) => r.finished && r.q.where && r.q.where.length > 1 && r.got.length)) stats.probe("several conditions were met");
    if (done.some((r) => r.finished && r.q.dir === "DESC" && r.got.length > 1)) stats.probe("descending results");
    if (done.some((r) => r.finished && r.q.select && r.got.length)) stats.probe("a selection");
    if (sched.decisions.some((k) => k > 0)) stats.probe("an event overtook another");
    return out;
  } finally {
    leave();
    out.decisions = sched.decisions;
    stats.steps += sched.steps;
    out.requests = net.requests;
  }
}

// resolve is the transport of a client that brings its own.
async function resolve(net, name, ranges) {
  const file = net.files[name];
  return Promise.all(
    ranges.map(async ({ start, end }) => {
      const res = await net.fetch("x:/" + name, { headers: { Range: `bytes=${start}-${end}` } });
      const buf = await res.arrayBuffer();
      if (res.status !== 206 || buf.byteLength !== end - start + 1 || !new RegExp(`^bytes ${start}-${end}/`).test(res.headers.get("content-range") ?? "")) throw new Error("bad response");
      const total = Number(/\/(\d+)$/.exec(res.headers.get("content-range"))?.[1] ?? file.length);
      return { data: buf, totalLength: total };
    }),
  );
}

// costs compares what the queries asked the server for with their answers.
function costs(c, recs, texts, lanes, net, stats, opened) {
  const budget = new Cost.Budget(c, recs, texts);
  const first = Cost.spent(net, 0, opened);
  const early = Cost.over(first, budget.allow({ q: { fields: true } }));
  if (early) return viol("cost", `opening asked for ${early}`);
  const all = budget.allow({ q: { fields: true } });
  for (const l of lanes) {
    for (const r of l.results) {
      const a = budget.allow(r, Cost.keysOn(net, r.asked, r.askedEnd ?? net.asked.length));
      for (const k of Object.keys(all)) all[k] += a[k];
      if (lanes.length > 1) continue;
      const m = Cost.spent(net, r.asked, r.askedEnd);
      const v = Cost.over(m, a);
      if (v) return viol("cost", `query ${JSON.stringify(r.q).slice(0, 400)} of ${recs.length} records, ${r.got.length} yielded, asked for ${v}`);
      if (m.index * 10 < net.files["index.dat"].length / 4096) stats.probe("a query read less than a tenth of the index");
    }
  }
  // nothing is asked for behind the back of the queries either
  const v = Cost.over(Cost.spent(net, 0, net.asked.length), all);
  return v && viol("cost", `the queries together asked for ${v}`);
}

function check(sc, recs, r, net, faulty, stats) {
  const { q } = r;
  const disturbed = faulty && net.active.some((a) => a.last >= r.began);
  const short = (e) => String(e?.message ?? e).slice(0, 300);
  if (q.fields) {
    if (r.error) {
      if (disturbed || O.headersOf(recs).size === 0) return null;
      return viol("error", `fields() failed: ${short(r.error)}`);
    }
    const want = O.headersOf(recs);
    const names = globalThis.Appendable.fieldTypeToString;
    const got = new Map(r.got.map((h) => [h.fieldName, new Set(h.fieldTypes.map((t) => names(t)).filter((t) => !/gram$/.test(t)))]));
    for (const [k, ts] of want) {
      const g = got.get(k);
      if (!g || [...ts].some((t) => !g.has(t)) || [...g].some((t) => !ts.has(t))) {
        return viol("fields", `fields() lists ${JSON.stringify(k)} with ${g ? [...g] : "nothing"}, the data has ${[...ts]}`);
      }
    }
    for (const k of got.keys()) if (!want.has(k)) return viol("fields", `fields() lists ${JSON.stringify(k)}, which the data does not have`);
    return null;
  }
  const desc = () => JSON.stringify(q).slice(0, 400);
  if (q.like !== undefined) {
    const hits = O.expectSearch(recs, q);
    const v = O.checkSearch(hits, r.got, q, r.finished);
    if (v) return viol(v[0], `search ${desc()}: ${v[1]}`);
    if (r.error && !disturbed) {
      // a client may refuse to search a field that has no text
      if (recs.some((x) => typeof O.at(x, q.path) === "string")) return viol("error", `search ${desc()} failed: ${short(r.error)}`);
    }
    return null;
  }
  const groups = O.expectWhere(recs, q);
  const v = O.checkWhere(groups, r.got, q, r.finished);
  if (v) return viol(v[0], `query ${desc()}: ${v[1]}`);
  if (r.error && !disturbed && O.answerable(recs, q)) {
    return viol("error", `query ${desc()} failed: ${short(r.error)}`);
  }
  return null;
}
