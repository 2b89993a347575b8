// What a query has to answer, stated over the records themselves.
const bytes = (s) => Buffer.from(s, "utf8");

export function valueOf(v) {
  if (v.s !== undefined) return v.s;
  if (v.b !== undefined) return v.b;
  if (v.z !== undefined) return null;
  if (v.i !== undefined) return BigInt(v.i);
  return typeof v.n === "string" ? Number(v.n) : v.n;
}

function kindOf(v) {
  if (v === null) return "null";
  const t = typeof v;
  if (t === "bigint") return "number";
  return t === "string" || t === "number" || t === "boolean" ? t : null;
}

function compare(a, b) {
  if (a === null) return 0;
  if (typeof a === "string") return Buffer.compare(bytes(a), bytes(b));
  a = Number(a);
  b = Number(b);
  return a < b ? -1 : a > b ? 1 : 0;
}

const holds = { "<": (c) => c < 0, "<=": (c) => c <= 0, "==": (c) => c === 0, ">=": (c) => c >= 0, ">": (c) => c > 0 };

export function at(rec, path) {
  let v = rec;
  for (const k of path) {
    if (v === null || typeof v !== "object" || Array.isArray(v) || !Object.hasOwn(v, k)) return undefined;
    v = v[k];
  }
  return v;
}

// canonical text of a result, independent of the order of members
export function canon(v) {
  if (v === null || typeof v !== "object") return Object.is(v, -0) ? "-0" : JSON.stringify(v) ?? "undefined";
  if (Array.isArray(v)) return "[" + v.map(canon).join(",") + "]";
  return "{" + Object.keys(v).sort().map((k) => JSON.stringify(k) + ":" + canon(v[k])).join(",") + "}";
}

function project(rec, select) {
  if (!select) return rec;
  return Object.fromEntries(select.filter((f) => Object.hasOwn(rec, f)).map((f) => [f, rec[f]]));
}

// expectWhere returns the groups of records with equal values, in order.
export function expectWhere(recs, q) {
  const conds = q.where.map(({ op, v }) => ({ op, v: valueOf(v) }));
  const hits = [];
  for (const rec of recs) {
    const v = at(rec, q.path);
    const k = v === undefined ? null : kindOf(v);
    if (k === null) continue;
    if (conds.every((c) => kindOf(c.v) === k && !Number.isNaN(c.v) && holds[c.op](compare(v, c.v)))) hits.push([v, rec]);
  }
  const sign = q.dir === "DESC" ? -1 : 1;
  hits.sort((a, b) => sign * compare(a[0], b[0]));
  const groups = [];
  for (const [v, rec] of hits) {
    const g = groups[groups.length - 1];
    const text = canon(project(rec, q.select));
    if (g && compare(g.value, v) === 0) g.items.push(text);
    else groups.push({ value: v, items: [text] });
  }
  return groups;
}

// known reports whether every condition is on a type the field occurs with; a
// client may refuse other conditions.
export function answerable(recs, q) {
  return q.where.every(({ v }) => {
    const k = kindOf(valueOf(v));
    return recs.some((rec) => {
      const x = at(rec, q.path);
      return x !== undefined && kindOf(x) === k;
    });
  });
}

// checkWhere compares the yielded records with the groups. complete: nothing
// may be missing up to the limit.
export function checkWhere(groups, got, q, complete) {
  const total = groups.reduce((n, g) => n + g.items.length, 0);
  const limit = q.limit === undefined ? total : Math.min(q.limit, total);
  if (got.length > limit) {
    return ["too-many", `${got.length} records, ${total} match and the limit is ${q.limit}`];
  }
  let i = 0;
  for (const g of groups) {
    if (i >= got.length) break;
    const left = new Map();
    for (const t of g.items) left.set(t, (left.get(t) ?? 0) + 1);
    for (let k = 0; k < g.items.length && i < got.length; k++, i++) {
      const t = canon(got[i]);
      const c = left.get(t) ?? 0;
      if (c === 0) {
        const where = groups.findIndex((x) => x.items.includes(t));
        const why = where < 0 ? "does not match" : groups[where] === g ? "was yielded before" : "is out of order";
        return [where < 0 ? "wrong-record" : "order", `result ${i} ${why}: ${t.slice(0, 300)}, expected one with value ${String(g.value).slice(0, 100)}`];
      }
      left.set(t, c - 1);
    }
  }
  if (complete && got.length < limit) {
    return ["missing", `${got.length} of ${limit} records`];
  }
  return null;
}

// ------------------------------------------------------------------ search

// grams is an independent statement of the tokenizer.
export function grams(text, min, max) {
  const out = new Set();
  for (const word of words(text)) {
    if (word.length < min) continue;
    for (let n = min; n <= max; n++) {
      for (let i = 0; i + n <= word.length; i++) out.add(word.slice(i, i + n).join(""));
    }
  }
  return out;
}

function words(text) {
  const out = [];
  let word = [];
  const flush = () => {
    if (word.length) out.push(word);
    word = [];
  };
  for (const c of text.normalize("NFKD")) {
    if (/^[a-z0-9]$/i.test(c) && c.charCodeAt(0) < 128) word.push(c.toLowerCase());
    else if (" \t\n\v\f\r".includes(c)) flush();
  }
  flush();
  return out;
}

// gramCounts counts the n-grams of length n of the words of at least min.
export function gramCounts(text, min, n) {
  const out = new Map();
  for (const word of words(text)) {
    if (word.length < min) continue;
    for (let i = 0; i + n <= word.length; i++) {
      const g = word.slice(i, i + n).join("");
      out.set(g, (out.get(g) ?? 0) + 1);
    }
  }
  return out;
}

export function expectSearch(recs, q) {
  const want = grams(q.like, q.min ?? 1, q.max ?? 2);
  const hits = new Map();
  for (const rec of recs) {
    const v = at(rec, q.path);
    if (typeof v !== "string") continue;
    const have = grams(v, 1, 3);
    for (const t of want) {
      if (have.has(t)) {
        const k = canon(rec);
        hits.set(k, (hits.get(k) ?? 0) + 1);
        break;
      }
    }
  }
  return hits;
}

export function checkSearch(hits, got, q, complete) {
  const left = new Map(hits);
  let total = 0;
  for (const n of hits.values()) total += n;
  let prev = Infinity;
  for (let i = 0; i < got.length; i++) {
    const { data, score } = got[i];
    let rec;
    try {
      rec = canon(typeof data === "string" ? JSON.parse(data) : data);
    } catch (e) {
      return ["wrong-record", `result ${i} is no record: ${String(data).slice(0, 200)}`];
    }
    const c = left.get(rec) ?? 0;
    if (c === 0) return [hits.has(rec) ? "repeated" : "wrong-record", `result ${i} ${hits.has(rec) ? "was yielded before" : "shares no token with the phrase"}: ${rec.slice(0, 300)}`];
    left.set(rec, c - 1);
    if (typeof score !== "number" || Number.isNaN(score)) return ["score", `result ${i} has score ${score}`];
    if (score > prev) return ["order", `result ${i} has score ${score} after ${prev}`];
    prev = score;
  }
  const limit = q.limit === undefined ? total : Math.min(q.limit, total);
  if (got.length > limit) return ["too-many", `${got.length} records, ${total} match and the limit is ${q.limit}`];
  if (complete && got.length < limit) return ["missing", `${got.length} of ${limit} records`];
  return null;
}

// headersOf is the set of fields and types the client has to list.
export function headersOf(recs) {
  const out = new Map();
  const add = (name, type) => {
    if (!out.has(name)) out.set(name, new Set());
    out.get(name).add(type);
  };
  const walk = (o, prefix) => {
    for (const [k, v] of Object.entries(o)) {
      const name = prefix === null ? k : prefix + "." + k;
      if (v === null) add(name, "Null");
      else if (Array.isArray(v)) add(name, "Array");
      else if (typeof v === "object") {
        add(name, "Object");
        walk(v, name);
      } else add(name, { string: "String", number: "Float64", boolean: "Boolean" }[typeof v]);
    }
  };
  for (const r of recs) walk(r, null);
  return out;
}
