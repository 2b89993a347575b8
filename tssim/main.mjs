// Worker side of the client checks; the Go simulator starts it and reports.
//   worker -prop P -tier T -seed S -from I -step K -runs N -secs X -status F -out F [-noshrink]
//   replay -root DIR FILE | gen -prop P -seed S -from I
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath, pathToFileURL } from "node:url";
import { Worker } from "node:worker_threads";
import { install } from "./sim.mjs";
import { generate } from "./gen.mjs";
import { run, prepare, Stats, startIndexer, stopIndexer } from "./run.mjs";
import { shrink } from "./shrink.mjs";

const here = path.dirname(fileURLToPath(import.meta.url));
const log = console.log.bind(console);
const args = { tier: "quick", seed: "1", from: "0", step: "1", runs: "0", secs: "0", root: path.join(here, "..") };
const rest = [];
for (let i = 3; i < process.argv.length; i++) {
  const m = /^--?(\w+)(?:=(.*))?$/.exec(process.argv[i]);
  if (!m) rest.push(process.argv[i]);
  else if (m[1] === "noshrink") args.noshrink = true;
  else args[m[1]] = m[2] ?? process.argv[++i];
}
const build = process.env.VERIF_BUILD ?? path.join(here, "..", "build");
const hangAfter = Number(process.env.VERIF_HANG_MS ?? 60000);

// A run that never comes back to the event loop is ended from outside.
const beat = new Int32Array(new SharedArrayBuffer(8));
function watchdog(marker) {
  new Worker(
    `const { workerData: { beat, marker, ms } } = require("worker_threads");
     let last = -1, since = 0;
     setInterval(() => {
       const n = Atomics.load(beat, 0), on = Atomics.load(beat, 1);
       if (n !== last || !on) { last = n; since = Date.now(); return; }
       if (Date.now() - since > ms) {
         if (marker) require("fs").writeFileSync(marker, "hang");
         process.kill(process.pid, "SIGKILL");
       }
     }, 500);`,
    { eval: true, workerData: { beat, marker, ms: hangAfter } },
  ).unref();
}
async function guarded(sc, stats, init) {
  Atomics.add(beat, 0, 1);
  Atomics.store(beat, 1, 1);
  try {
    return await run(sc, stats, init);
  } finally {
    Atomics.store(beat, 1, 0);
  }
}

let lost = null;
process.on("unhandledRejection", (e) => {
  // a rejection nobody handles is no violation by itself
  lost = e;
});

async function client() {
  install();
  if (args.prop === "C26" || rest.length) {
    globalThis.Resolvers = await import(pathToFileURL(path.join(build, "resolvers.mjs"))).catch(() => null);
  }
  await import(pathToFileURL(path.join(build, "client.mjs")));
  startIndexer(process.env.VERIF_SIM ?? path.join(build, "sim"));
  return globalThis.Appendable.init;
}

function loadKnown() {
  try {
    return JSON.parse(fs.readFileSync(path.join(args.root, "known_findings.json"), "utf8")).findings ?? [];
  } catch {
    return [];
  }
}

async function worker() {
  const init = await client();
  if (args.out) watchdog(args.out + ".hang");
  const known = loadKnown();
  const stats = new Stats();
  const wo = { stats, run: -1, tries: 0, samples: [] };
  const seen = new Set();
  const hashes = [];
  const t0 = performance.now();
  const runs = Number(args.runs);
  const make = (i) => {
    if (i >= runs) return null;
    const sc = generate(args.prop, Number(args.seed), i, args.tier === "thorough");
    prepare(sc);
    return sc;
  };
  let next = make(Number(args.from));
  for (let i = Number(args.from); i < runs; i += Number(args.step)) {
    if (Number(args.secs) > 0 && performance.now() - t0 > Number(args.secs) * 1000) break;
    if (args.status) fs.writeFileSync(args.status, String(i).padEnd(20));
    const sc = next;
    next = make(i + Number(args.step));
    stats.runs++;
    const r0 = performance.now();
    const res = await guarded(sc, stats, init);
    const d = (performance.now() - r0) / 1000;
    if (d > (wo.slowest ?? 0)) {
      wo.slowest = d;
      wo.slow_run = i;
    }
    const h = res.trace.hex();
    if (res.nontrivial && !seen.has(h)) {
      seen.add(h);
      stats.nontrivial++;
      hashes.push(res.trace.bytes());
      if (wo.samples.length < 2) {
        const s = JSON.stringify(sc);
        if (s.length < 3000) wo.samples.push(sc);
      }
    }
    if (i % 53 === 0) {
      const again = await guarded(sc, new Stats(), init);
      stats.redone++;
      if (again.trace.hex() !== h || (again.violation === null) !== (res.violation === null)) stats.diverged++;
    }
    const v = res.violation;
    if (!v) continue;
    const f = known.find((k) => k.property === args.prop && v.sig && k.signature === v.sig);
    if (f) {
      stats.known[f.id] = (stats.known[f.id] ?? 0) + 1;
      continue;
    }
    if (!args.out) {
      log(`run ${i} seed ${sc.seed}: step ${v.step} ${v.class}: ${v.msg.slice(0, 400)}`);
      if (args.noshrink) continue;
    }
    wo.run = i;
    wo.original = sc;
    const s = await shrink(sc, v, res, (x) => guarded(x, new Stats(), init), 25000);
    wo.scenario = s.scenario;
    wo.violation = s.violation;
    wo.tries = s.tries;
    break;
  }
  wo.secs = (performance.now() - t0) / 1000;
  if (!args.out) {
    if (wo.original && JSON.stringify(wo.original).length > 10000) delete wo.original;
    log(JSON.stringify(wo, null, 1));
  } else {
    fs.writeFileSync(args.out + ".hashes", Buffer.concat(hashes));
    fs.writeFileSync(args.out, JSON.stringify(wo));
  }
  stopIndexer();
  process.exit(0);
}

async function replay() {
  const r = JSON.parse(fs.readFileSync(rest[0], "utf8"));
  const init = await client();
  watchdog(null);
  const res = await guarded(r.scenario, new Stats(), init);
  log(`property ${r.property}, ${res.decisions.length} scheduling decisions, ${res.requests} requests, trace ${res.trace.hex()}`);
  const v = res.violation;
  let code = 0;
  if (!v) log("no violation");
  else {
    const f = loadKnown().find((k) => k.property === r.property && v.sig && k.signature === v.sig);
    if (f) log(`KNOWN-FINDING: property=${r.property} ${f.what}`);
    else {
      log(`step ${v.step}: ${v.class}: ${v.msg}`);
      log(`VIOLATION property=${r.property} replay=${rest[0]}`);
      code = 1;
    }
  }
  stopIndexer();
  process.exit(code);
}

try {
  switch (process.argv[2]) {
    case "worker":
      await worker();
      break;
    case "replay":
      await replay();
      break;
    case "gen":
      log(JSON.stringify(generate(args.prop, Number(args.seed), Number(args.from), args.tier === "thorough"), null, 1));
      break;
    default:
      log("usage: main.mjs worker|replay|gen");
      process.exit(2);
  }
} catch (e) {
  process.stderr.write(`HARNESS: ${e?.stack ?? e}\n`);
  process.exit(2);
}
