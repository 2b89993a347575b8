// What a query may ask the server for: the list of fields, the paths to the
// ends of its answer, the leaves that hold the answer, the records it yields,
// and the keys of a page whose keys are in the data file. The limits leave room
// for an implementation that reads some of it again or a little ahead.
import * as O from "./oracle.mjs";

const PAGE = 4096;
// the most keys a page has room for
const KEYS = 700;
// the fewest entries of a leaf that was split, and of a page on the way to it
const LEAF = 20;
const FAN = 30;

// slots counts the trees of an index: one per field and type.
function slots(recs, search) {
  const seen = new Set();
  const walk = (v, path) => {
    const k = v === null ? "z" : Array.isArray(v) ? "l" : typeof v;
    if (path !== null) seen.add(path + "\0" + k);
    if (k === "object") for (const [n, x] of Object.entries(v)) walk(x, path === null ? n : path + "." + n);
  };
  for (const r of recs) walk(r, null);
  return seen.size + 3 * search.length;
}

export class Budget {
  constructor(c, recs, base) {
    this.recs = recs;
    // pages of the list of fields
    this.head = Math.ceil(slots(recs, c.search) / 14) + 2;
    this.depth = 1 + Math.ceil(Math.log(recs.length + 2) / Math.log(FAN));
    this.longest = base.reduce((m, x) => Math.max(m, Buffer.byteLength(x)), 1);
  }
  // allow returns the limits of one query that ended, onPages being the keys on
  // the pages of the index that were asked for meanwhile.
  allow(r, onPages = 0) {
    const { q } = r;
    if (q.fields) return { index: 2 * this.head, data: 0, bytes: 0 };
    const ahead = 16;
    let index = 4 * this.head;
    let keys = 0;
    let key = 0;
    const n = r.got.length;
    if (q.like !== undefined) {
      const max = q.max ?? 2;
      const min = q.min ?? 1;
      for (let k = min; k <= max; k++) {
        // every token of the phrase is looked up, however often it occurs
        for (const [t, times] of O.gramCounts(q.like, min, k)) {
          let found = 0;
          for (const rec of this.recs) {
            const v = O.at(rec, q.path);
            if (typeof v === "string") found += O.gramCounts(v, 1, t.length).get(t) ?? 0;
          }
          index += times * (2 * (this.depth + 2) + found / LEAF);
        }
      }
    } else {
      index += 4 * this.depth + 8 + n / LEAF;
      if (q.where.some(({ v }) => v.s !== undefined)) {
        keys = Math.min(KEYS * index, 2 * onPages);
        for (const rec of this.recs) {
          const v = O.at(rec, q.path);
          // as it is written in the data, quotes and escapes included
          if (typeof v === "string") key = Math.max(key, 6 * v.length + 2);
        }
        key = Math.min(key, this.longest);
      }
    }
    const records = n + n / 2 + ahead;
    return { index, data: keys + records, bytes: keys * key + records * this.longest };
  }
}

// spent sums up the ranges asked for.
export function spent(net, from, to) {
  const m = { index: 0, data: 0, bytes: 0 };
  for (let i = from; i < to; i++) {
    const [name, s, e] = net.asked[i];
    if (name === "index.dat") {
      m.index += (e - s + 1) / PAGE;
    } else {
      m.data++;
      m.bytes += e - s + 1;
    }
  }
  return m;
}

// keysOn counts the keys on the pages that were asked for.
export function keysOn(net, from, to) {
  const index = net.files["index.dat"];
  const view = new DataView(index.buffer, index.byteOffset, index.byteLength);
  let n = 0;
  for (let i = from; i < to; i++) {
    const [name, s, e] = net.asked[i];
    if (name !== "index.dat") continue;
    for (let p = s; p + PAGE <= e + 1 && p + 4 <= index.byteLength; p += PAGE) n += Math.min(KEYS, Math.abs(view.getInt32(p, true)));
  }
  return n;
}

// over compares what was asked for with the limits.
export function over(m, a) {
  const f = (x) => Number(x.toFixed(1));
  if (m.index > a.index) return `${f(m.index)} pages of the index, at most ${f(a.index)} are in proportion to the answer`;
  if (m.data > a.data) return `${m.data} ranges of the data, at most ${f(a.data)} are in proportion to the answer`;
  if (m.bytes > a.bytes) return `${m.bytes} bytes of the data, at most ${f(a.bytes)} are in proportion to the answer`;
  return null;
}
