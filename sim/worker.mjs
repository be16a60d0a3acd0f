// Runs plans inside one thread.  Index i of the search is run by worker
// (i mod workers), so the set of runs does not depend on timing.
import { parentPort, workerData } from "node:worker_threads";
import { prepare } from "./env.mjs";
import { loadWorlds, makePlan, minimise, runPlan } from "./engine.mjs";

const { code, heart, slot } = workerData;
const beat = new Int32Array(heart);
await loadWorlds();
prepare(code);

async function search(job) {
	const { property, parts, seed, first, stride, runs, deadline } = job;
	const wanted = new Set([property]);
	const stats = {
		runs: 0, faults: {}, counts: {}, events: 0, simTime: 0, steps: 0, digests: new Set(), nontrivial: new Set(),
		reruns: 0, mismatches: 0, byWorld: {}, violation: null, capped: false, samples: [],
	};
	const add = (into, from) => {
		for (const [k, v] of Object.entries(from)) into[k] = (into[k] ?? 0) + v;
	};
	for (let i = first; i < runs; i += stride) {
		if (Date.now() > deadline) {
			stats.capped = true;
			break;
		}
		if (Atomics.load(beat, 0) !== 0 && i > Atomics.load(beat, 0) - 1) break; // a lower index already failed
		Atomics.store(beat, slot, i + 1);
		Atomics.store(beat, slot + 1, Math.floor(Date.now() / 1000));
		const part = parts[pickPart(parts, i)];
		const plan = makePlan(part.world, `${seed}/${part.world}/${i}`, part.profile);
		const r = await runPlan(plan, { wanted });
		stats.runs++;
		stats.byWorld[part.world] = (stats.byWorld[part.world] ?? 0) + 1;
		stats.events += r.events;
		stats.simTime += r.simTime;
		stats.steps += plan.steps.length;
		add(stats.faults, r.faults);
		add(stats.counts, r.counts);
		stats.digests.add(r.digest);
		if (r.events > 4 && Object.keys(r.counts).length > 1) stats.nontrivial.add(r.digest);
		if (stats.samples.length < 1 && r.events > 12) stats.samples.push({ index: i, seed: plan.seed, world: part.world, cfg: plan.cfg, steps: plan.steps.slice(0, 8) });
		const bad = r.violations.find((v) => v.property === property);
		if (bad) {
			stats.violation = { index: i, plan, violation: bad, digest: r.digest };
			// let the others stop at this index
			for (;;) {
				const cur = Atomics.load(beat, 0);
				if (cur !== 0 && cur <= i + 1) break;
				if (Atomics.compareExchange(beat, 0, cur, i + 1) === cur) break;
			}
			break;
		}
		if (stats.runs % 40 === 1) {
			const again = await runPlan(makePlan(part.world, `${seed}/${part.world}/${i}`, part.profile), { wanted });
			stats.reruns++;
			if (again.digest !== r.digest) stats.mismatches++;
		}
	}
	Atomics.store(beat, slot, 0);
	return { ...stats, digests: [...stats.digests], nontrivial: [...stats.nontrivial] };
}

function pickPart(parts, i) {
	const total = parts.reduce((n, p) => n + p.share, 0);
	let k = i % total;
	for (let j = 0; j < parts.length; j++) {
		k -= parts[j].share;
		if (k < 0) return j;
	}
	return 0;
}

parentPort.on("message", async (job) => {
	try {
		if (job.kind === "search") parentPort.postMessage({ ok: true, result: await search(job) });
		else if (job.kind === "minimise") {
			const m = await minimise(job.plan, job.violation, job.options);
			parentPort.postMessage({ ok: true, result: m });
		} else if (job.kind === "run") {
			const r = await runPlan(job.plan, { wanted: job.property ? new Set([job.property]) : null, keepLog: true });
			parentPort.postMessage({ ok: true, result: r });
		}
	} catch (e) {
		parentPort.postMessage({ ok: false, error: String(e?.stack ?? e) });
	}
});
parentPort.postMessage({ ready: true });
