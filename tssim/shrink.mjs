// Minimises a failing scenario: schedule, faults, queries, records, habits of
// the server, as long as a violation of the same class remains.
export async function shrink(sc, v, res, test, ms) {
  const deadline = performance.now() + ms;
  let best = structuredClone(sc);
  let bestV = v;
  let tries = 0;
  let decisions = res.decisions;
  const out = () => performance.now() > deadline;
  const attempt = async (c) => {
    if (out()) return false;
    tries++;
    let r;
    try {
      r = await test(c);
    } catch {
      return false;
    }
    if (r.violation && r.violation.class === v.class && r.violation.sig === v.sig) {
      best = c;
      bestV = r.violation;
      decisions = r.decisions;
      return true;
    }
    return false;
  };
  const edit = async (f) => {
    const c = structuredClone(best);
    if (f(c) === false) return false;
    return attempt(c);
  };
  // list returns an array inside the scenario; it is cut down piece by piece
  const reduce = async (list) => {
    let any = false;
    for (let size = Math.ceil(list(best)?.length / 2); size >= 1; size = size === 1 ? 0 : Math.ceil(size / 2)) {
      for (let i = 0; list(best) && i + size <= list(best).length && !out(); ) {
        if (await edit((c) => void list(c).splice(i, size))) any = true;
        else i += size;
      }
    }
    return any;
  };
  // first come, first served, or else an explicit list of decisions
  if (!(await edit((c) => void (c.client.sched = { style: 0, seed: 0 })))) {
    if (decisions.length < 20000) await edit((c) => void (c.client.sched = { decisions: [...decisions] }));
  }
  for (let round = 0; round < 6 && !out(); round++) {
    let changed = false;
    if (best.client.after) changed = (await reduce((c) => c.client.after)) || changed;
    changed = (await reduce((c) => c.client.faults)) || changed;
    if (best.client.growth) changed = (await edit((c) => void delete c.client.growth)) || changed;
    if (best.client.growth) changed = (await reduce((c) => c.client.growth.steps)) || changed;
    changed = (await reduce((c) => c.client.lanes)) || changed;
    for (let i = 0; i < best.client.lanes.length; i++) changed = (await reduce((c) => c.client.lanes[i])) || changed;
    changed = (await reduce((c) => c.client.recs)) || changed;
    changed = (await reduce((c) => c.client.cuts)) || changed;
    changed = (await reduce((c) => c.client.search)) || changed;
    for (const k of Object.keys(best.client.server)) {
      if (k === "seed") continue;
      changed = (await edit((c) => void delete c.client.server[k])) || changed;
    }
    while (best.client.bulk && (await edit((c) => void (c.client.bulk.n = Math.floor(c.client.bulk.n * 0.7))))) changed = true;
    if (best.client.gap) changed = (await edit((c) => void delete c.client.gap)) || changed;
    if (best.client.base) changed = (await edit((c) => void delete c.client.base)) || changed;
    if (best.client.mode !== 0) changed = (await edit((c) => void (c.client.mode = 0))) || changed;
    if (!best.client.newline) changed = (await edit((c) => void (c.client.newline = true))) || changed;
    for (const q of ["lanes", "after"]) {
      const qs = (c) => (q === "lanes" ? c.client.lanes.flat() : c.client.after ?? []);
      for (let i = 0; i < qs(best).length; i++) {
        for (const k of ["take", "select", "limit", "dir", "raw"]) {
          if (qs(best)[i][k] !== undefined) changed = (await edit((c) => void delete qs(c)[i][k])) || changed;
        }
        if (qs(best)[i].where?.length > 1) changed = (await reduce((c) => qs(c)[i].where)) || changed;
        if (qs(best)[i].ranges?.length > 1) changed = (await reduce((c) => qs(c)[i].ranges)) || changed;
        for (let j = 0; j < (qs(best)[i].ranges?.length ?? 0); j++) {
          if (qs(best)[i].ranges[j].expectedLength !== undefined) changed = (await edit((c) => void delete qs(c)[i].ranges[j].expectedLength)) || changed;
        }
        if (qs(best)[i].scribble) changed = (await edit((c) => void delete qs(c)[i].scribble)) || changed;
        const like = qs(best)[i].like;
        if (like) {
          for (let j = 0; j < Array.from(qs(best)[i].like).length && !out(); ) {
            if (!(await edit((c) => void (qs(c)[i].like = Array.from(qs(c)[i].like).filter((_, x) => x !== j).join(""))))) j++;
            else changed = true;
          }
        }
      }
    }
    for (let i = 0; i < (best.client.faults ?? []).length; i++) {
      for (const a of [0, 1, 2, 3, 8]) {
        if ((best.client.faults[i].arg ?? 0) <= a) break;
        if (await edit((c) => void (c.client.faults[i].arg = a))) {
          changed = true;
          break;
        }
      }
    }
    // members of records
    for (let i = 0; i < best.client.recs.length && best.client.recs.length < 40; i++) {
      let o;
      try {
        o = JSON.parse(best.client.recs[i]);
      } catch {
        continue;
      }
      for (const k of Object.keys(o)) {
        if (
          await edit((c) => {
            const x = JSON.parse(c.client.recs[i]);
            delete x[k];
            c.client.recs[i] = JSON.stringify(x);
          })
        ) {
          changed = true;
        }
      }
    }
    // decisions
    if (best.client.sched.decisions) {
      const ds = best.client.sched.decisions;
      const cut = ds.length;
      for (let n = 0; n < cut; n = n === 0 ? 1 : n * 2) {
        if (await edit((c) => void (c.client.sched.decisions.length = Math.min(n, cut)))) {
          changed = true;
          break;
        }
      }
      for (let size = Math.ceil(best.client.sched.decisions.length / 2); size >= 1; size = size === 1 ? 0 : Math.ceil(size / 2)) {
        for (let i = 0; i < best.client.sched.decisions.length && !out(); i += size) {
          if (best.client.sched.decisions.slice(i, i + size).every((x) => x === 0)) continue;
          if (await edit((c) => void c.client.sched.decisions.fill(0, i, i + size))) changed = true;
        }
      }
    }
    if (!changed) break;
  }
  return { scenario: best, violation: bestV, tries };
}
