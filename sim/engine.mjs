// Run one plan, generate plans from seeds, minimise failing plans.
import { createHash } from "node:crypto";
import { Rng } from "./prng.mjs";
import * as adapters from "./worlds/adapters.mjs";
import * as app from "./worlds/app.mjs";
import * as boot from "./worlds/boot.mjs";
import * as tools from "./worlds/tools.mjs";
import * as values from "./worlds/values.mjs";
import * as view from "./worlds/view.mjs";

export const WORLDS = { app, view, boot, adapters, values, tools };
export async function loadWorlds() {}

export function makePlan(worldName, seedText, profile) {
	const rng = new Rng(seedText);
	const plan = WORLDS[worldName].generate(rng, profile);
	plan.seed = seedText;
	return plan;
}

export async function runPlan(plan, { wanted = null, keepLog = false } = {}) {
	const hash = createHash("sha256");
	const violations = [];
	const seen = new Set();
	const faults = {};
	const counts = {};
	const lines = keepLog ? [] : null;
	let events = 0;
	let simTime = 0;
	const ctx = {
		log(line) {
			events++;
			hash.update(line);
			hash.update("\n");
			lines?.push(line);
		},
		violate(property, kind, detail, step) {
			const key = `${property}/${kind}`;
			if (seen.has(key)) return;
			seen.add(key);
			violations.push({ property, kind, detail, step });
			ctx.log(`VIOLATION ${key} ${detail}`);
		},
		fault(kind) {
			faults[kind] = (faults[kind] ?? 0) + 1;
		},
		count(kind, n = 1) {
			counts[kind] = (counts[kind] ?? 0) + n;
		},
		time(ms) {
			simTime = ms;
		},
		done: () => (wanted ? violations.some((v) => wanted.has(v.property)) : violations.length > 0),
	};
	try {
		await WORLDS[plan.world].execute(plan, ctx);
	} catch (error) {
		// The worlds expect and record every error the code is allowed to raise.
		const where = String(error?.stack ?? error).split("\n").slice(0, 3).join(" | ");
		for (const p of wanted ?? [WORLDS[plan.world].name]) ctx.violate(p, "run-aborted", `the run ended with ${where}`);
	}
	return { violations, digest: hash.digest("hex").slice(0, 24), faults, counts, events, simTime, lines };
}

const classOf = (v) => `${v.property}/${v.kind.split(":")[0]}`;

export async function minimise(plan, violation, { budgetMs = 15000, maxRuns = 600 } = {}) {
	const target = classOf(violation);
	const wanted = new Set([violation.property]);
	const t0 = Date.now();
	let runs = 0;
	const fails = async (p) => {
		if (runs >= maxRuns || Date.now() - t0 > budgetMs) return false;
		runs++;
		try {
			const r = await runPlan(p, { wanted });
			return r.violations.some((v) => classOf(v) === target);
		} catch {
			return false;
		}
	};
	let best = plan;
	const world = WORLDS[plan.world];
	let improved = true;
	while (improved && runs < maxRuns && Date.now() - t0 < budgetMs) {
		improved = false;
		// ddmin over the steps
		let chunk = Math.max(1, Math.floor(best.steps.length / 2));
		while (chunk >= 1) {
			for (let i = 0; i < best.steps.length; ) {
				const cand = { ...best, steps: [...best.steps.slice(0, i), ...best.steps.slice(i + chunk)] };
				if (cand.steps.length < best.steps.length && (await fails(cand))) {
					best = cand;
					improved = true;
				} else i += chunk;
			}
			if (chunk === 1) break;
			chunk = Math.floor(chunk / 2);
		}
		// simpler configuration
		let again = true;
		while (again) {
			again = false;
			for (const cfg of world.shrinkCfg?.(best.cfg) ?? []) {
				const cand = { ...best, cfg };
				if (await fails(cand)) {
					best = cand;
					improved = true;
					again = true;
					break;
				}
			}
		}
		// simpler steps
		if (world.shrinkStep) {
			for (let i = 0; i < best.steps.length; i++) {
				for (const st of world.shrinkStep(best.steps[i]) ?? []) {
					const cand = { ...best, steps: best.steps.map((s, j) => (j === i ? st : s)) };
					if (await fails(cand)) {
						best = cand;
						improved = true;
						break;
					}
				}
			}
		}
	}
	return { plan: best, runs };
}
