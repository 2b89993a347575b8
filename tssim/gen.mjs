// Scenarios: a scenario is explicit, running it draws nothing but the schedule
// (from its own seed, or from a recorded list of decisions).
import { Rng, hash32 } from "./rng.mjs";
import { genRanges } from "./ranges.mjs";

const alphabets = ["ab", "abcdefghijklmnopqrstuvwxyz0123456789", "aAbB .,-_!", "éàüñçÅ ae", "日本語テキスト ab", "😀🎉👩 x", "\t\n\"\\/<>&\u2028\u0000\u001f\u007f ab", "zZ~{}[]:,"];

function str(r, max) {
  const a = Array.from(r.p(0.5) ? alphabets[r.n(3)] : r.pick(alphabets));
  let s = "";
  for (let n = r.skew(max + 1); n > 0; n--) s += r.pick(a);
  return s;
}

function numText(r) {
  switch (r.n(11)) {
    case 0:
      return String(r.n(10));
    case 1:
      return String(-r.n(1000));
    case 2:
      return String(r.n(2 ** 30));
    case 3:
      return String((r.f() - 0.5) * 1e6);
    case 4:
      return `${r.n(10)}.${r.n(100000)}e${r.in(-30, 30)}`;
    case 5:
      return r.pick(["0", "-0", "0.0", "-0.0", "1e2", "1E+2", "5e-324", "-5e-324", "1.7976931348623157e308", "-1.7976931348623157e308"]);
    case 6:
      return r.pick(["9007199254740993", "-9007199254740993", "9223372036854775807", "18446744073709551615", "-9223372036854775808"]);
    case 7:
      return String(r.in(-5, 5));
    case 8:
      return String(r.in(-5, 5) / 4);
    case 9:
      return String(r.in(-128, 300));
    default:
      return String(r.in(-2000, 2000));
  }
}

function jsonStr(r, s, esc) {
  let out = '"';
  for (let i = 0; i < s.length; i++) {
    const c = s[i];
    const u = s.charCodeAt(i);
    const low = u >= 0xdc00 && u < 0xe000;
    if (low) {
      out += c; // its high half is verbatim too
      continue;
    }
    const high = u >= 0xd800 && u < 0xdc00;
    if (u < 0x20 || c === '"' || c === "\\" || r.p(esc)) {
      const x = (v) => "\\u" + v.toString(16).padStart(4, "0");
      if (high) {
        out += x(u) + x(s.charCodeAt(++i));
        continue;
      }
      const short = { '"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "/": "\\/", "\b": "\\b" }[c];
      out += short && r.p(0.7) ? short : x(u);
      continue;
    }
    out += c;
  }
  return out + '"';
}

const words = ["permit", "Palo", "Alto", "roof", "ROOF", "re-roof", "a", "ab", "abc", "b2", "kitchen", "Café", "naïve", "ﬁne", "x😀y", "日本ab", "42", "o'neil", "the", "The", "Ångström", "aa", "aaa", "aaaa", "Ｗide", "e\u0301a", "INDEX", "In", "\u212aiwi", "İI"];

function phrase(r, max) {
  if (r.p(0.06)) {
    // short words, and white space of which only some separates them
    const sep = r.pick(["\u2028", "\u2029", "\ufeff", "\u1680", "\u0085", "\u00a0", "\u200b", " "]);
    return Array.from({ length: r.in(2, 6) }, () => r.pick(["a", "ab", "b2", "x", "Q", "7"])).join(sep);
  }
  const n = r.skew(max + 1);
  const out = [];
  for (let i = 0; i < n; i++) out.push(r.p(0.85) ? r.pick(words) : str(r, 8));
  return out.join(r.pick([" ", " ", " ", "  ", "  ", "\n", "\n", "-", "-", ", ", ", ", "\u2028", "\ufeff", "\u00a0", "\u3000", "\u0085", "\u1680", "\r\n", "\v"]));
}

// bulk expands a description of many small records.
export function bulk({ n, seed, kind }) {
  const r = new Rng(seed);
  const out = [];
  for (let i = 0; i < n; i++) {
    let v;
    switch (kind) {
      case 0: // random numbers
        v = r.in(-1e6, 1e6) / 4;
        break;
      case 1: // ascending
        v = i;
        break;
      case 2: // descending
        v = -i;
        break;
      case 3: // few values
        v = r.in(-20, 20);
        break;
      default: // strings
        v = JSON.stringify("v" + r.n(1e9).toString(36));
    }
    out.push(`{"a":${v}}`);
  }
  return out;
}

export function recordsOf(c) {
  return c.bulk ? [...bulk(c.bulk), ...c.recs] : c.recs;
}

// genServer draws the habits of a server.
export function genServer(r) {
  const s = { seed: r.n(1e9) };
  s.multi = r.pick(["parts", "parts", "shuffled", "coalesced", "full"]);
  if (r.p(0.3)) s.case = r.pick(["l", "u"]);
  if (r.p(0.3)) s.preamble = r.pick(["\r\n", "\r\n", "preamble --x\r\n", "--\r\n--3d6\r\n", "see --BOUNDARY\r\n"]);
  if (r.p(0.2)) s.quoted = true;
  if (r.p(0.2)) s.boundary = r.pick(["a'()+_,-./:=?b", "0", "==gw=", "A B", "x".repeat(70)]);
  if (s.boundary && /[^A-Za-z0-9_-]/.test(s.boundary)) s.quoted = true;
  if (r.p(0.2)) s.star = true;
  if (r.p(0.2)) s.extra = true;
  if (r.p(0.1)) s.nospace = true;
  if (r.p(0.1)) s.typeCase = true;
  if (r.p(0.1)) s.untyped = true;
  if (r.p(0.3)) s.tail = r.pick([0, 2]);
  if (r.p(0.5)) s.gap = r.pick([0, 1, 500, 5000]);
  s.chunk = r.pick([0, 0, 1, 3, 17, 100, 1000, 4095, 4096, 4097, 65536]);
  if (r.p(0.3)) s.even = true;
  return s;
}

// what can go wrong with a request
export const kinds = ["reject", "reject", "status", "status", "status-with-range", "full", "reset", "reset", "truncate", "truncate", "empty", "null-body", "no-content-range", "bad-content-range", "other-range", "short-range", "missing-part", "missing-part", "only-first", "no-parts", "repeated-part", "unasked-part", "short-part", "long-part", "other-boundary", "no-boundary", "no-type", "other-type", "garbage"];

export function generate(prop, base, idx, big) {
  const seed = hash32(`${prop}/${base}/${idx}`) * 0x100000 + hash32(`${idx}:${base}:${prop}`) % 0x100000;
  const r = new Rng(seed);
  const sc = { prop, seed, cfg: {}, ops: [], client: {} };
  const c = sc.client;
  if (prop === "C26") {
    genRanges(r, c);
    return sc;
  }
  const searching = prop === "C18" || (prop === "C17" && r.p(0.2)) || ((prop === "C24" || prop === "C29") && r.p(0.25));

  // ---------------------------------------------------------------- records
  const names = r.shuffle(["a", "b", "c", "name", "Name", "count", "x y", "ключ", "0", "tip_amount", "", "data", "end", "q\"t", "constructor", "__proto__", "toString", "hasOwnProperty", "é", "e\u0301", "\ufeffa", r.pick(["n", "é"]).repeat(60) + "n".repeat(r.n(121))]).slice(0, r.in(1, 5));
  // enough fields for a list of several pages
  if (prop === "C24" && r.p(0.2)) for (let k = r.in(10, 60); k > 0; k--) names.push("f" + k);
  const fields = names.map((name) => {
    const f = { name, kind: r.pick(["s", "s", "n", "n", "n", "b", "z", "mixed", "mixed", "o", "l"]), absent: r.p(0.3) ? r.f() : 0 };
    f.pool = [];
    f.len = r.pick([3, 8, 20, 60, 300]);
    f.fresh = r.pick([0.05, 0.3, 0.9]);
    f.poolN = r.in(1, 12);
    if (f.kind === "o") f.sub = r.pick(["m", "k"]);
    return f;
  });
  const text = searching ? ["text", "deep.text"].slice(0, r.in(1, 2)) : [];
  const search = [...text];
  let n;
  switch (r.weighted(big ? [60, 25, 15] : [75, 20, 5])) {
    case 0:
      n = r.skew(60);
      break;
    case 1:
      n = r.in(20, 300);
      break;
    default:
      n = r.in(300, big ? 2500 : 1000);
  }
  if (searching && n > 400) n = 400;
  // many records with the same few texts
  let texts = null;
  if (prop === "C18" && r.p(0.008)) {
    n = r.in(500, 3000);
    texts = Array.from({ length: r.in(1, 5) }, () => phrase(r, 4));
  }
  const esc = r.p(0.3) ? 0.2 : 0;
  const ws = r.p(0.2) ? 0.3 : 0;
  const sp = () => (ws && r.p(ws) ? r.pick([" ", "\t", "  "]) : "");
  const scalar = (f, kind) => {
    const pooled = () => {
      if (f.pool.length >= f.poolN && !r.p(f.fresh)) return r.pick(f.pool);
      return null;
    };
    switch (kind) {
      case "s": {
        const o = f.pool.filter((x) => x[0] === '"');
        if (o.length >= f.poolN && !r.p(f.fresh)) return r.pick(o);
        const t = jsonStr(r, str(r, f.len), esc);
        f.pool.push(t);
        return t;
      }
      case "n": {
        const o = f.pool.filter((x) => x[0] !== '"');
        if (o.length >= f.poolN && !r.p(f.fresh)) return r.pick(o);
        const t = numText(r);
        f.pool.push(t);
        return t;
      }
      case "b":
        return r.pick(["true", "false"]);
      case "z":
        return "null";
      case "l":
        return r.pick(["[]", "[1,2]", '["a"]', '[{"a":1}]']);
    }
    return pooled() ?? "null";
  };
  const recs = [];
  const identical = r.p(0.1);
  // once in a while values of tens of kilobytes
  const giant = n <= 60 && r.p(0.015) ? r.in(60000, 140000) : 0;
  if (giant && r.p(0.5)) {
    for (const f of fields) if (f.kind === "s" || f.kind === "mixed") f.pool.push(JSON.stringify(r.pick(["x", "ab", "é"]).repeat(giant / 2) + r.n(10)));
  }
  for (let i = 0; i < n; i++) {
    const members = [];
    for (const f of fields) {
      if (f.absent && r.p(f.absent)) continue;
      let kind = f.kind === "mixed" ? r.pick(["s", "n", "b", "z", "n", "s", "l"]) : f.kind;
      let v;
      if (kind === "o") {
        v = r.p(0.1) ? scalar(f, "n") : `{${sp()}"${f.sub}":${sp()}${scalar(f, r.pick(["n", "s", "n"]))}}`;
      } else {
        v = scalar(f, kind);
      }
      members.push(`${jsonStr(r, f.name, 0)}${sp()}:${sp()}${v}`);
    }
    for (const t of text) {
      if (r.p(0.08)) continue;
      const v = jsonStr(r, texts ? r.pick(texts) : phrase(r, r.pick([2, 5, 12])), esc);
      if (t === "deep.text") members.push(`"deep":{"text":${sp()}${v}}`);
      else members.push(`"text"${sp()}:${sp()}${v}`);
    }
    if (!identical) members.push(`"id":${i}`);
    if (giant && r.p(0.1)) members.push(`"pad":"${"y".repeat(giant)}"`);
    recs.push(`{${sp()}${r.shuffle(members).join(`${sp()},`)}${sp()}}`);
  }
  c.recs = recs;
  c.search = search;
  c.cuts = r.p(0.2) ? [r.n(100), r.n(100)].sort((a, b) => a - b) : [];
  c.newline = r.p(0.9);

  // ---------------------------------------------------------------- server
  const s = (c.server = genServer(r));
  if (r.p(0.06)) {
    c.base = r.pick([2 ** 31 - 1 - r.n(200), 2 ** 32 - 1 - r.n(200), 2 ** 28 - r.n(100), 5 * 2 ** 30 + r.n(10000)]);
    if (s.multi === "full") s.multi = "parts";
  }
  if (["C16", "C17", "C18"].includes(prop) && r.p(0.04)) {
    c.gap = r.pick([2 ** 31 - 4096 * r.in(2, 12), 2 ** 32 - 4096 * r.in(2, 12), 5 * 2 ** 30, 2 ** 40]);
    if (s.multi === "full") s.multi = "parts";
  }
  c.mode = r.weighted([45, 15, 30, 10]); // default config, explicit multipart, individual, resolver functions
  c.sched = { style: r.weighted([2, 5, 2, 2]), seed: r.n(1e9) };

  // ---------------------------------------------------------------- queries
  if ((prop === "C16" && r.p(big ? 0.02 : 0.006)) || (prop === "C24" && r.p(0.05))) {
    // enough records for a tree of three levels, or for many leaves
    c.bulk = { n: r.pick([3000, 12000, 50000, 65000]), seed: r.n(1e9), kind: r.pick([0, 0, 1, 2, 3, 4]) };
    if (c.bulk.kind === 4) c.bulk.n = r.pick([2000, 5000]);
    recs.length = Math.min(recs.length, 5);
    fields.unshift({ name: "a", kind: "n" });
    fields.length = 1;
  }
  const parsed = recordsOf(c).map((x) => JSON.parse(x));
  n = parsed.length;
  const lanes = (c.lanes = []);
  const laneN = prop === "C24" && r.p(0.7) ? 1 : r.weighted([5, 3, 2, 1]) + 1;
  const query = () => {
    if (searching && (prop === "C18" || r.p(0.7))) return genSearch(r, text, parsed, n);
    return genWhere(r, fields, parsed, n);
  };
  for (let i = 0; i < (c.bulk || texts ? 1 : laneN); i++) {
    const lane = [];
    for (let k = c.bulk || texts ? 2 : 1 + r.skew(4); k > 0; k--) lane.push(query());
    if (prop === "C18" && r.p(0.4)) lane.push({ ...lane[r.n(lane.length)], take: undefined });
    lanes.push(lane);
  }
  if (c.bulk && c.bulk.n >= 50000) {
    // a long walk, mostly backwards, across the borders of inner nodes
    const all = parsed.map((x) => x.a).filter((v) => typeof v === "number").sort((a, b) => a - b);
    const back = c.bulk.seed % 4 > 0;
    const v = all[Math.floor(all.length * (back ? 1 - (c.bulk.seed % 7) / 14 : (c.bulk.seed % 7) / 14))] ?? all[all.length - 1];
    lanes[0][0] = { path: ["a"], where: [{ op: back ? "<=" : ">=", v: wrap(v) }], dir: back ? "DESC" : "ASC", limit: 25000, select: ["a"], raw: lanes[0][0].raw };
  }
  if (prop === "C18" && lanes.length > 1 && r.p(0.4)) lanes[1][0] = { ...lanes[0][0] };
  if (r.p(0.15)) lanes[r.n(lanes.length)].splice(r.n(2), 0, { fields: true });

  // ---------------------------------------------------------------- faults
  c.faults = [];
  if (prop === "C17") {
    const subset = r.p(0.5) ? r.shuffle([...kinds]).slice(0, r.in(1, 4)) : kinds;
    // early requests are the shared ones; later ones are spread
    const span = r.pick([4, 8, 20, 60, 200]);
    for (let k = r.pick([1, 1, 2, 3, 8]); k > 0; k--) {
      c.faults.push({ at: r.skew(span), kind: r.pick(subset), arg: r.n(4096) });
    }
    c.after = [query()];
    if (r.p(0.7)) c.after.push({ fields: true });
    for (const l of lanes) if (r.p(0.6)) c.after.push({ ...l[0], take: undefined });
  }
  if (prop === "C29") {
    if (r.p(0.75)) {
      // further records, not in the index; the first line may end one that is
      let tail = c.newline || !recs.length ? "" : r.pick(["\n", "\n", "  \n", "\r\n"]);
      for (let k = r.in(1, 6); k > 0; k--) tail += (r.p(0.7) && recs.length ? r.pick(recs) : '{"new":1}') + "\n";
      if (r.p(0.3)) tail += '{"cut":';
      const len = Buffer.byteLength(tail);
      const steps = [];
      for (let k = r.in(1, 5), at = r.skew(8); k > 0; k--, at += 1 + r.skew(30)) steps.push([at, k === 1 ? len : r.n(len + 1)]);
      c.growth = { tail, steps };
    }
    if (!c.growth || r.p(0.5)) {
      const span = r.pick([4, 8, 20, 60, 200]);
      for (let k = r.pick([1, 1, 2, 3, 8, 30]); k > 0; k--) c.faults.push({ at: r.skew(span), kind: "stale", arg: r.p(0.2) ? r.n(20) : r.n(4096) });
    }
    c.after = [query()];
    if (r.p(0.5)) c.after.push({ fields: true });
    for (const l of lanes) if (r.p(0.6)) c.after.push({ ...l[0], take: undefined });
  }
  return sc;
}

function at(rec, path) {
  let v = rec;
  for (const k of path) {
    if (v === null || typeof v !== "object" || Array.isArray(v) || !Object.hasOwn(v, k)) return undefined;
    v = v[k];
  }
  return v;
}

function genWhere(r, fields, parsed, n) {
  let path, vals;
  for (let tries = 0; tries < 4; tries++) {
    const f = r.p(0.1) ? { name: "id" } : r.pick(fields);
    path = f.kind === "o" && r.p(0.9) ? [f.name, f.sub] : [f.name];
    vals = parsed.map((x) => at(x, path)).filter((v) => v === null || ["string", "number", "boolean"].includes(typeof v));
    if (vals.length) break;
  }
  const value = () => {
    if (vals.length && r.p(0.9)) {
      const v = r.pick(vals);
      if (Number.isInteger(v) && !Object.is(v, -0) && r.p(0.1)) return { i: String(BigInt(v)) };
      if (typeof v === "number" && r.p(0.25)) return { n: r.pick([v + 1, v - 1, -v, v + 0.5]) };
      if (typeof v === "string" && r.p(0.2)) return { s: r.pick([v + "a", v.slice(0, -1), v.toUpperCase()]).replace(/[\ud800-\udbff]$/, "") };
      return wrap(v);
    }
    switch (r.n(6)) {
      case 0:
        return { s: str(r, 5) };
      case 1:
        return { b: r.p(0.5) };
      case 2:
        return { z: 1 };
      case 3:
        return { i: r.p(0.6) ? String(r.in(-3, 100)) : r.pick(["9223372036854775807", "9223372036854775808", "18446744073709551616", "-9223372036854775809", "-73786976294838206464", "1" + "0".repeat(30), "1" + "0".repeat(400)]) };
      case 4:
        return { n: r.pick([0, "-0", 1, -1, "Infinity", "-Infinity", "NaN", 1e308]) };
      default:
        return { n: Number(numText(r)) };
    }
  };
  const ops = ["<", "<=", "==", ">=", ">"];
  const q = { path, where: [{ op: r.pick(ops), v: value() }] };
  for (let k = r.weighted([80, 15, 5]); k > 0; k--) q.where.push({ op: r.pick(ops), v: value() });
  if (r.p(0.65)) q.dir = r.pick(["ASC", "DESC"]);
  if (r.p(0.45)) q.limit = r.pick([0, 1, 1, 2, 3, 5, r.in(1, 20), r.in(1, n + 2), n + 10]);
  if (n > 150 && q.limit === undefined && r.p(0.7)) q.limit = r.in(1, 60);
  if (n > 2500 && !(q.limit < 3000)) q.limit = r.p(0.5) ? r.in(1, 3000) : 25000;
  if (r.p(0.3)) {
    const tops = [...new Set([...fields.map((x) => x.name), "id"])];
    q.select = r.shuffle(tops).slice(0, r.in(1, 3));
  }
  if (r.p(0.12)) q.take = r.n(5);
  if (r.p(0.5)) q.raw = true;
  else if (r.p(0.4)) q.fork = true;
  return q;
}

function wrap(v) {
  if (v === null) return { z: 1 };
  if (typeof v === "string") return { s: v };
  if (typeof v === "boolean") return { b: v };
  return { n: Object.is(v, -0) ? "-0" : v };
}

function genSearch(r, text, parsed, n) {
  const field = r.pick(text);
  const path = field.split(".");
  const docs = parsed.map((x) => at(x, path)).filter((v) => typeof v === "string" && v !== "");
  let like;
  switch (r.n(5)) {
    case 0:
    case 1: {
      if (docs.length === 0) {
        like = phrase(r, 3);
        break;
      }
      const d = Array.from(r.pick(docs));
      const s = r.n(d.length);
      like = d.slice(s, s + 1 + r.skew(12)).join("");
      break;
    }
    case 2:
      like = r.pick(words);
      break;
    case 3:
      like = phrase(r, 3);
      break;
    default:
      like = str(r, 4);
  }
  const q = { path, like };
  if (r.p(0.7)) {
    q.min = r.in(1, 3);
    q.max = r.in(q.min, 3);
  }
  if (r.p(0.4)) q.limit = r.pick([0, 1, 2, 3, r.in(1, n + 2)]);
  if (r.p(0.1)) q.take = r.n(4);
  return q;
}
