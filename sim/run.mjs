// Check one property:   node sim/run.mjs --property C01
// Replay a violation:   node sim/run.mjs --replay evidence/replays/C01.json
import { mkdirSync, readFileSync, writeFileSync } from "node:fs";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { Worker } from "node:worker_threads";
import { buildAll } from "./build.mjs";
import { CHECKS, COMPONENTS, RULE } from "./checks.mjs";

const HERE = path.dirname(fileURLToPath(import.meta.url));
const VERIF = path.dirname(HERE);
const args = process.argv.slice(2);
const opt = (name, dflt) => {
	const i = args.indexOf(`--${name}`);
	return i >= 0 ? args[i + 1] : dflt;
};
const HANG_S = 40;
const t0 = Date.now();

process.on("uncaughtException", (e) => {
	console.error("ERROR", e);
	process.exit(3);
});

function startWorker(code, heart, slot) {
	const worker = new Worker(new URL("./worker.mjs", import.meta.url), {
		workerData: { code, heart, slot },
		resourceLimits: { maxOldGenerationSizeMb: 2500 },
	});
	let waiting = null;
	let dead = null;
	const fail = (e) => {
		dead = e;
		waiting?.reject(e);
	};
	const ready = new Promise((resolve, reject) => {
		worker.on("message", (m) => {
			if (m.ready) return resolve();
			const w = waiting;
			waiting = null;
			if (m.ok) w.resolve(m.result);
			else w.reject(new Error(m.error));
		});
		worker.on("error", (e) => {
			reject(e);
			fail(e);
		});
		worker.on("exit", () => fail(new Error("worker exited")));
	});
	return {
		ready,
		ask: (job, timeoutMs) =>
			new Promise((resolve, reject) => {
				if (dead) return reject(dead);
				let timer;
				const done = (f) => (x) => {
					clearTimeout(timer);
					f(x);
				};
				waiting = { resolve: done(resolve), reject: done(reject) };
				if (timeoutMs) timer = setTimeout(() => reject(Object.assign(new Error("timeout"), { timeout: true })), timeoutMs);
				worker.postMessage(job);
			}),
		stop: () => worker.terminate(),
	};
}

async function runFresh(code, plan, property, timeoutMs = HANG_S * 1000) {
	const w = startWorker(code, new SharedArrayBuffer(64), 1);
	try {
		await w.ready;
		return await w.ask({ kind: "run", plan, property }, timeoutMs);
	} catch (e) {
		if (e.timeout) return { hang: true, violations: [{ property, kind: "no-progress", detail: `the run did not finish within ${timeoutMs / 1000} s` }], digest: "hang" };
		// the thread ran out of memory or died
		return { hang: true, violations: [{ property, kind: "no-progress", detail: `the run ended its thread: ${e.message}` }], digest: "hang" };
	} finally {
		await w.stop();
	}
}

async function replay(file) {
	const rec = JSON.parse(readFileSync(file, "utf8"));
	const code = await buildAll();
	const r = await runFresh(code, rec.plan, rec.property);
	for (const line of r.lines ?? []) console.log(`  ${line}`);
	const hit = r.violations.find((v) => v.property === rec.property);
	console.log(`replay: ${hit ? `${hit.kind}: ${hit.detail}` : "the violation did not occur"}; digest ${r.digest} (recorded ${rec.digest}, ${r.digest === rec.digest ? "identical execution" : "different execution"})`);
	if (hit) {
		console.log(`VIOLATION property=${rec.property} replay=${file}`);
		process.exit(1);
	}
	process.exit(0);
}

async function check(property) {
	const spec = CHECKS[property];
	if (!spec) throw new Error(`no check for ${property}`);
	const tier = process.env.VERIF_TIER === "thorough" || args.includes("--thorough") ? "thorough" : "quick";
	const seed = Number.parseInt(process.env.VERIF_SEED ?? "1", 10) || 1;
	const runs = Number(opt("runs", tier === "thorough" ? spec.thorough : spec.quick));
	const capS = Number(opt("cap", tier === "thorough" ? 3000 : 300));
	const code = await buildAll();
	const n = Math.max(1, Math.min(8, os.availableParallelism?.() ?? os.cpus().length));
	const heart = new SharedArrayBuffer(4 * (2 + 2 * n));
	const beat = new Int32Array(heart);
	const workers = [];
	for (let i = 0; i < n; i++) workers.push(startWorker(code, heart, 2 + 2 * i));
	await Promise.all(workers.map((w) => w.ready));
	const deadline = t0 + capS * 1000;
	let hang = null;
	const results = [];
	await Promise.all(
		workers.map(async (w, i) => {
			const job = { kind: "search", property, parts: spec.parts, seed: `v${seed}`, first: i, stride: n, runs, deadline };
			let stopWatch;
			const watch = new Promise((resolve) => {
				stopWatch = setInterval(() => {
					const at = Atomics.load(beat, 2 + 2 * i);
					const since = Atomics.load(beat, 3 + 2 * i);
					if (at && Date.now() / 1000 - since > HANG_S) resolve({ hang: at - 1 });
				}, 500);
			});
			const died = (e) => {
				const at = Atomics.load(beat, 2 + 2 * i);
				if (!at) throw e;
				return { hang: at - 1 };
			};
			const r = await Promise.race([w.ask(job).catch(died), watch]);
			clearInterval(stopWatch);
			if (r.hang !== undefined) {
				if (hang === null || r.hang < hang) hang = r.hang;
				await w.stop();
			} else results.push(r);
		}),
	);
	const searchS = (Date.now() - t0) / 1000;

	// ---- aggregate
	const sum = (k) => results.reduce((a, r) => a + r[k], 0);
	const merge = (k) => {
		const out = {};
		for (const r of results) for (const [x, v] of Object.entries(r[k])) out[x] = (out[x] ?? 0) + v;
		return Object.fromEntries(Object.entries(out).sort());
	};
	const distinct = new Set(results.flatMap((r) => r.digests));
	const nontrivial = new Set(results.flatMap((r) => r.nontrivial));
	let found = results.map((r) => r.violation).filter(Boolean).sort((a, b) => a.index - b.index)[0] ?? null;
	if (hang !== null && (!found || hang < found.index)) {
		const { makePlan } = await import("./engine.mjs");
		const part = spec.parts[pickPart(spec.parts, hang)];
		const plan = makePlan(part.world, `v${seed}/${part.world}/${hang}`, part.profile);
		const r = await runFresh(code, plan, property);
		if (r.hang) found = { index: hang, plan, violation: r.violations[0], digest: "hang", hang: true };
	}

	// ---- known findings (dedicated probes, listed in known-findings.json)
	const listed = JSON.parse(readFileSync(path.join(VERIF, "known-findings.json"), "utf8"));
	for (const f of listed.findings.filter((f) => f.property === property)) {
		const r = await runFresh(code, f.plan, property);
		if (r.violations.some((v) => v.property === property && v.kind === f.kind)) {
			console.log(`KNOWN-FINDING: property=${property} ${f.what}`);
		}
	}

	let replayFile = null;
	let confirmed = null;
	if (found) {
		let plan = found.plan;
		let minRuns = 0;
		if (!found.hang) {
			const w = startWorker(code, new SharedArrayBuffer(64), 1);
			try {
				await w.ready;
				const m = await w.ask({ kind: "minimise", plan, violation: found.violation, options: { budgetMs: 15000, maxRuns: 500 } }, 90000);
				plan = m.plan;
				minRuns = m.runs;
			} catch {
				/* keep the original plan */
			} finally {
				await w.stop();
			}
		}
		let r = await runFresh(code, plan, property);
		confirmed = r.violations.find((v) => v.property === property) ?? null;
		if (!confirmed && plan !== found.plan) {
			plan = found.plan;
			r = await runFresh(code, plan, property);
			confirmed = r.violations.find((v) => v.property === property) ?? null;
		}
		if (!confirmed) {
			console.log(`note: a violation at index ${found.index} (${found.violation.kind}: ${found.violation.detail}) did not reproduce in a fresh process`);
			confirmed = found.violation;
		}
		mkdirSync(path.join(VERIF, "evidence", "replays"), { recursive: true });
		replayFile = path.join("evidence", "replays", `${property}.json`);
		writeFileSync(
			path.join(VERIF, replayFile),
			`${JSON.stringify({ property, seed: found.plan.seed, index: found.index, violation: confirmed, digest: r.digest, original_steps: found.plan.steps.length, minimised_steps: plan.steps.length, minimiser_runs: minRuns, plan, trace: r.lines ?? [] }, null, 1)}\n`,
		);
	}

	for (const w of workers) await w.stop();
	const wall = (Date.now() - t0) / 1000;
	const total = sum("runs");
	const evidence = {
		property,
		tier,
		seed,
		level: "exploration",
		coverage: {
			evaluations: total,
			distinct_nontrivial: nontrivial.size,
			rule: RULE,
			samples: results.flatMap((r) => r.samples).sort((a, b) => a.index - b.index).slice(0, 2),
			exhaustive: false,
			runs_requested: runs,
			stopped_by_wall_cap: results.some((r) => r.capped),
			runs_per_hour: Math.round((total / Math.max(0.001, searchS)) * 3600),
			seeds_per_hour: Math.round((total / Math.max(0.001, searchS)) * 3600),
			runs_by_world: merge("byWorld"),
			simulated_time_ms: Math.round(sum("simTime")),
			scheduled_steps: sum("steps"),
			recorded_events: sum("events"),
			faults_injected: merge("faults"),
			operations_and_checks: merge("counts"),
			distinct_executions: distinct.size,
			distinct_measure: "SHA-256 over the complete recorded history of a run (every scheduling decision, lifecycle callback, render, delivery, fault and error)",
			determinism: { seeds_run_twice: sum("reruns"), digests_that_differed: sum("mismatches") },
			components: COMPONENTS(spec.parts.map((p) => p.world)),
			violation: found ? { ...confirmed, replay: replayFile } : null,
		},
		assumptions: spec.assumptions ?? [],
		wall_s: wall,
		violations: found ? 1 : 0,
	};
	mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
	writeFileSync(path.join(VERIF, "evidence", `${property}.json`), `${JSON.stringify(evidence, null, 1)}\n`);
	console.log(`${property} ${tier}: ${total} simulated runs (${distinct.size} distinct), ${sum("events")} events, ${wall.toFixed(1)} s, seeds run twice ${sum("reruns")} (${sum("mismatches")} differed)`);
	if (found) {
		console.log(`${confirmed.kind}: ${confirmed.detail}`);
		console.log(`VIOLATION property=${property} replay=${replayFile}`);
		process.exit(1);
	}
	process.exit(0);
}

function pickPart(parts, i) {
	const total = parts.reduce((n, p) => n + p.share, 0);
	let k = i % total;
	for (let j = 0; j < parts.length; j++) {
		k -= parts[j].share;
		if (k < 0) return j;
	}
	return 0;
}

const file = opt("replay", null);
if (file) await replay(file);
else await check(opt("property", null));
