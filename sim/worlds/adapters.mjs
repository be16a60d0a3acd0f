// World "adapters": the adapters on their own.  Many subscribers come and go, at
// rest and from inside deliveries, while the source changes through the adapter,
// a command actor, a timer or behind the adapter's back, and adapters are stopped
// and created again.
import { createEnv, drainMicrotasks } from "../env.mjs";
import { flipText, flipValue } from "./domain.mjs";
import { makeSource, resetIds } from "./sources.mjs";

export const name = "adapters";

export const KINDS = ["xstate-machine", "xstate-actor", "redux-slice", "redux-factory", "redux-store", "mobx-factory", "mobx-store"];

function genEvent(rng, g, timers) {
	const id = `e${g.n++}`;
	const type = rng.weighted([["ADD", 5], ["BUMP", 2], ["ROT", 1], ["MODE", 2], ["TAG", 1], ["FLIP", 2], ["BATCH", 1.5], ["NOPE", 0.6], ["LATER", timers ? 1.2 : 0], ["END", g.end ? 0.5 : 0]]);
	if (type === "BATCH") return { type, id, subs: [{ type: "ADD", id: `e${g.n++}` }, { type: "MODE", id: `e${g.n++}`, m: rng.int(3) }] };
	if (type === "MODE") return { type, id, m: rng.int(4) };
	if (type === "TAG") return { type, id, k: rng.pick(["x", "y"]) };
	if (type === "LATER") return { type, id, d: rng.pick([0, 5, 20]) };
	return { type, id };
}

function genAct(rng, g, weights, timers) {
	const op = rng.weighted(weights);
	const k = rng.int(32);
	switch (op) {
		case "send":
			return { op, k, via: rng.weighted([["adapter", 5], ["actor", 3]]), ev: genEvent(rng, g, timers) };
		case "ext":
			return { op, k, ev: genEvent(rng, g, timers) };
		case "tick":
			return { op, dt: rng.pick([0, 1, 5, 30]) };
		case "sub":
			return { op, k, reuse: rng.bool(0.3) };
		default:
			return { op, k };
	}
}

export function generate(rng, profile = {}) {
	const kind = rng.pick(profile.kinds ?? KINDS);
	const timers = kind.startsWith("xstate");
	const cfg = { kind, reentrancy: profile.reentrancy ?? rng.bool(0.6), reads: rng.pick(["each", "each", "rare"]), nodeEnv: rng.pick(["development", "development", "production", "page"]) };
	const g = { n: 1, end: timers && rng.bool(0.25) };
	const base = { make: 1.5, sub: 6, unsub: 4, again: 1, send: 8, ext: 6, stop: 1.2, get: 2, tick: timers ? 2 : 0.2 };
	const weights = [];
	for (const [k, w] of Object.entries(base)) {
		if (["stop", "again", "make", "unsub"].includes(k) && rng.bool(0.15)) continue;
		weights.push([k, w * (0.3 + 1.4 * rng.float())]);
	}
	const inner = weights.filter(([k]) => k !== "tick");
	const steps = [{ op: "make", k: 0 }, { op: "sub", k: 0 }];
	const n = rng.range(5, profile.maxSteps ?? 30);
	for (let i = 0; i < n; i++) {
		// several operations in one MobX action: notifications wait for its end
		if (kind.startsWith("mobx") && cfg.reentrancy && rng.bool(0.12)) {
			steps.push({ op: "wrap", acts: Array.from({ length: rng.range(2, 4) }, () => genAct(rng, g, inner, false)) });
			continue;
		}
		if (cfg.reentrancy && rng.bool(0.25)) steps.push({ op: "arm", ...(rng.bool(0.25) ? { at: "source" } : {}), k: rng.bool(0.6) ? rng.int(16) : null, skip: rng.int(3), first: rng.bool(0.2), act: genAct(rng, g, inner, false), then: rng.bool(0.3) ? genAct(rng, g, inner, false) : null });
		steps.push(genAct(rng, g, weights, timers));
	}
	return { world: name, cfg, steps };
}
export function shrinkCfg(cfg) {
	return cfg.nodeEnv === "development" ? [] : [{ ...cfg, nodeEnv: "development" }];
}

const canon = (x) => JSON.stringify(x, (k, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort()) : v));

class Adapters {
	constructor(plan, env, ctx) {
		Object.assign(this, { plan, env, ctx, cfg: plan.cfg });
		this.instances = [];
		this.actorInst = new Map();
		this.tasks = [];
		this.adapters = [];
		this.subs = [];
		this.arms = [];
		this.depth = 0;
		this.nestedSends = 0;
		this.deferred = [];
	}
	// what makeSource expects of a world
	maybeFault() {}
	async() {}
	selfSend() {}
	log(...a) {
		this.ctx.log(a.join(" "));
	}
	violate(kind, detail, props = ["C15"]) {
		for (const p of props) this.ctx.violate(p, kind, detail, this.step);
	}
	init() {
		resetIds();
		this.ig = this.env.loadIgnite();
		this.src = makeSource(this, this.cfg.kind);
		const { ig, src } = this;
		const create = src.adapter === "xstate" ? ig.xstateAdapter.default : src.adapter === "redux" ? ig.reduxAdapter.default : ig.mobxAdapter.default;
		this.factory = create(src.source);
		this.shared = src.scope === "shared";
		if (this.shared) this.watch(src.inst);
		if (this.factory.scope !== src.scope) this.violate("scope", `the adapter of a ${src.kind} source is ${this.factory.scope}`);
	}
	// The application observes its source too, and hears of a change before the
	// adapter's subscribers do.
	watch(inst) {
		if (!inst || !this.cfg.reentrancy || this.src.adapter === "mobx") return;
		const subs = inst.subs;
		inst.raw.subscribe(() => this.fire((a) => a.at === "source"));
		inst.subs = subs;
	}
	pick(list, k) {
		return list.length ? list[k % list.length] : null;
	}
	strip(state) {
		const s = this.src.pick(state);
		return { v: s.v, log: s.log, items: s.items, mode: s.mode, tags: s.tags };
	}
	truth(inst) {
		return this.strip(this.src.adapter === "redux" ? inst.raw.getState() : inst.get());
	}

	apply(inst, ev) {
		// the model: what the source has accepted, in order
		const one = (e) => {
			if (e.type === "BATCH") e.subs.forEach(one);
			else if (!["NOPE", "FLIP", "END"].includes(e.type)) inst.expected.push(e.id);
		};
		one(ev);
		if (ev.type === "END") inst.ended = true;
		if (ev.type === "LATER") inst.timers.push({ id: `${ev.id}t`, at: this.env.clock.now + ev.d });
	}

	act(a) {
		const { env } = this;
		this.ctx.count(`op:${a.op}`);
		if (this.depth > 0) this.ctx.fault(`reenter:${a.op}`);
		switch (a.op) {
			case "make": {
				if (this.adapters.length >= 6) return;
				this.lastCreated = null;
				const adapter = this.factory();
				const known = this.adapters.find((r) => r.adapter === adapter);
				if (known) {
					if (!this.shared) this.violate("shared-adapter", "two isolated elements were given the same adapter");
					if (known.stopped) this.violate("dead-adapter", "a stopped adapter was handed out again");
					return;
				}
				const inst = this.shared ? this.src.inst : this.lastCreated;
				if (!this.shared) this.watch(inst);
				this.adapters.push({ id: this.adapters.length, adapter, inst, stopped: false });
				this.log("make", this.adapters.length - 1);
				return;
			}
			case "sub": {
				const rec = this.pick(this.adapters, a.k);
				if (!rec || this.subs.filter((s) => s.open).length >= 8) return;
				const sub = { id: this.subs.length, rec, open: true, got: [], opened: false };
				// a function that was subscribed before may be subscribed again
				const earlier = a.reuse ? this.subs.findLast((s) => s.rec === rec && !s.open && s.listener.sub === s) : null;
				this.subs.push(sub);
				const listener = earlier?.listener ?? ((state) => this.delivered(listener.sub, state));
				sub.listener = listener;
				listener.sub = sub;
				sub.before = this.truth(rec.inst);
				let threw = null;
				sub.initial = true;
				const stoppedBefore = rec.stopped;
				try {
					sub.handle = rec.adapter.subscribe(listener);
				} catch (e) {
					threw = e;
				}
				sub.initial = false;
				if (stoppedBefore) {
					sub.open = false;
					if (sub.got.length) this.violate("delivery-after-stop", "a subscriber of a stopped adapter was given a state");
					return;
				}
				if (threw) {
					this.violate("subscribe-failed", `subscribing failed: ${threw.message}`);
					return;
				}
				sub.opened = true;
				// inside a MobX reaction the first delivery has to wait for that reaction
				if (!sub.got.length && !(this.depth > 0 && this.src.adapter === "mobx")) this.violate("no-initial-state", `subscriber ${sub.id} was not given the current state`);
				if (rec.stopped) sub.open = false;
				this.log("sub", sub.id, "of", rec.id);
				return;
			}
			case "unsub":
			case "again": {
				const list = this.subs.filter((s) => s.opened && (a.op === "again" ? !s.open : s.open));
				const sub = this.pick(list, a.k);
				if (!sub) return;
				sub.open = false;
				this.log("unsub", sub.id);
				sub.handle.unsubscribe();
				return;
			}
			case "send": {
				const rec = this.pick(this.adapters, a.k);
				if (!rec) return;
				const ev = this.src.toEvent(a.ev);
				const warned = env.console.length;
				const raw = a.via === "actor" && this.src.adapter !== "xstate";
				const accepted = !rec.stopped || raw;
				const before = canon(this.truth(rec.inst));
				if (accepted) this.change(rec.inst, a.ev, () => {
					if (a.via === "adapter") return rec.adapter.send(ev);
					const actor = this.factory.resolveCommandActor(rec.adapter);
					if (this.src.adapter === "xstate") return actor.send(ev);
					if (this.src.adapter === "redux") return actor.dispatch(ev);
					return actor[a.ev.type]?.(a.ev);
				});
				else {
					if (a.via === "adapter") rec.adapter.send(ev);
					else {
						if (this.shared) return; // resolves to the adapter in use
						this.factory.resolveCommandActor(rec.adapter).send(ev);
					}
					if (canon(this.truth(rec.inst)) !== before) this.violate("send-after-stop", "an event sent through a stopped adapter changed the source");
					else if (!env.console.slice(warned).some(([l]) => l === "warn")) this.violate("silent-drop", "an event was dropped by a stopped adapter without a warning");
				}
				return;
			}
			case "ext": {
				const inst = this.shared ? this.src.inst : this.pick(this.adapters, a.k)?.inst;
				if (!inst || !inst.alive()) return;
				this.change(inst, a.ev, () => inst.send(a.ev));
				return;
			}
			case "stop": {
				const rec = this.pick(this.adapters, a.k);
				if (!rec) return;
				const first = !rec.stopped;
				if (first) rec.frozen = canon(this.truth(rec.inst));
				rec.stopped = true;
				for (const s of this.subs) if (s.rec === rec) s.open = false;
				this.log("stop", rec.id);
				rec.adapter.stop();
				return;
			}
			case "wrap":
				this.fired = (this.fired ?? 0) + 1;
				this.depth++;
				try {
					env.peers.mobx.runInAction(() => a.acts.forEach((x) => this.act(x)));
				} finally {
					this.depth--;
				}
				return;
			case "get":
				this.checkGet(this.pick(this.adapters, a.k));
				return;
			default:
		}
	}

	// A change of a source: everyone subscribed gets it (exactly once when nothing
	// happens in between).
	change(inst, ev, run) {
		if (!inst.alive()) {
			run();
			return;
		}
		const quiet = this.depth === 0;
		this.apply(inst, ev);
		const live = this.subs.filter((s) => s.open && s.opened && s.rec.inst === inst);
		const before = live.map((s) => s.got.length);
		const v0 = this.truth(inst).v;
		const f0 = inst.flip();
		const fired = this.fired;
		this.log("change", inst.id, ev.type);
		run();
		if (!quiet || this.fired !== fired) return;
		const v = this.truth(inst).v;
		const changed = v !== v0 || inst.flip() !== f0;
		live.forEach((s, i) => {
			const got = s.got.slice(before[i]);
			this.ctx.count("delivery-checks");
			if (changed && (got.length !== 1 || got[0] !== v)) this.violate("delivery", `subscriber ${s.id} (${this.cfg.kind}) was given versions [${got}] for the change to ${v}`);
			if (!changed && got.some((x) => x !== v)) this.violate("delivery", `subscriber ${s.id} was given versions [${got}] while the source stayed at ${v}`);
		});
	}

	delivered(sub, state) {
		const st = this.strip(state);
		this.log("deliver", sub.id, st.v);
		this.ctx.count("deliveries");
		if (!sub.open) {
			this.violate(sub.rec.stopped ? "delivery-after-stop" : "delivery-after-unsubscribe", `subscriber ${sub.id} (${this.cfg.kind}) was given a state after it ${sub.rec.stopped ? "was stopped" : "unsubscribed"}`);
			return;
		}
		const last = sub.got.at(-1);
		if (last !== undefined && st.v < last) this.violate("went-back", `subscriber ${sub.id} (${this.cfg.kind}) was given version ${st.v} after ${last}`, ["C15", "C02"]);
		if (!sub.got.length && st.v < sub.before.v) this.violate("old-initial-state", `subscriber ${sub.id} was first given version ${st.v}, the source was at ${sub.before.v}`);
		if (st.log.length !== st.v) this.violate("torn-state", `version ${st.v} was delivered with ${st.log.length} log entries`, ["C15", "C02"]);
		const log = sub.rec.inst.get().log;
		if (st.log.join() !== log.slice(0, st.v).join()) this.violate("foreign-state", `subscriber ${sub.id} was given the history [${st.log}], its source has [${log}]`, ["C15", "C05"]);
		sub.got.push(st.v);
		sub.flip = this.src.adapter === "xstate" ? flipValue(state.value) : flipText(this.src.pick(state));
		this.fire((a) => a.at !== "source" && (a.k === null || sub.id === a.k % Math.max(1, this.subs.length)) && (a.first ? sub.initial : !sub.initial));
	}

	fire(match) {
		if (this.depth >= 3) return;
		const i = this.arms.findIndex(match);
		if (i < 0) return;
		const arm = this.arms[i];
		if (arm.skip > 0) {
			arm.skip--;
			return;
		}
		this.arms.splice(i, 1);
		this.fired = (this.fired ?? 0) + 1;
		this.depth++;
		try {
			this.act(arm.act);
			if (arm.then) this.act(arm.then);
		} finally {
			this.depth--;
		}
	}

	checkGet(rec) {
		if (!rec) return;
		const got = canon(this.strip(rec.adapter.getState()));
		this.ctx.count("state-reads");
		const want = rec.stopped ? rec.frozen : canon(this.truth(rec.inst));
		if (got !== want) this.violate(rec.stopped ? "stopped-state" : "get-state", `adapter ${rec.id} (${this.cfg.kind}${rec.stopped ? ", stopped" : ""}) reports ${got}, expected ${want}`);
		if (rec.stopped) return;
		const raw = this.factory.resolveStateSnapshot(rec.adapter);
		const snap = canon(this.strip(this.src.adapter === "xstate" ? raw.context : raw));
		if (snap !== want) this.violate("get-snapshot", `the snapshot of adapter ${rec.id} is ${snap}, expected ${want}`);
	}

	check() {
		const { env } = this;
		for (const inst of this.instances) {
			const log = inst.get().log;
			const timers = new Set(inst.timers.map((t) => t.id));
			const main = log.filter((x) => !timers.has(x));
			// an actor stopped while it works off its mailbox drops what is left in it
			const expected = !inst.alive() && this.fired ? inst.expected.slice(0, main.length) : inst.expected;
			if (main.join() !== expected.join()) this.violate("history", `source ${inst.id} has [${main}], expected [${inst.expected}]`, ["C15", "C05"]);
			const open = this.subs.filter((s) => s.open && s.opened && s.rec.inst === inst);
			// What is read inside a MobX reaction is observed by that reaction until its
			// next run; with re-entrant operations only the final tear-down is exact.
			const held = inst.observers ? (this.fired && !this.final ? 0 : inst.observers()) : inst.subs;
			this.ctx.count("hold-checks");
			if (held > open.length) this.violate("held", `${held} subscriptions on the ${this.cfg.kind} source for ${open.length} subscribers`, ["C15", "C07"]);
			const recs = this.adapters.filter((r) => r.inst === inst);
			if (this.src.adapter === "xstate") {
				const should = this.shared || recs.some((r) => !r.stopped);
				if (recs.length && !inst.ended && inst.alive() !== should) this.violate("ownership", `the ${this.cfg.kind} source is ${inst.alive() ? "running" : "stopped"} while its adapter is ${should ? "in use" : "stopped"}`, ["C15", "C04"]);
			}
			for (const t of inst.timers) {
				const n = log.filter((x) => x === t.id).length;
				if (n > 1 || (inst.alive() && t.at < env.clock.now && n === 0)) this.violate("timer", `timer event ${t.id} was applied ${n} times`);
			}
		}
		for (const s of this.subs) {
			if (!s.open || !s.opened) continue;
			const v = this.truth(s.rec.inst).v;
			this.ctx.count("rest-checks");
			if (s.flip !== s.rec.inst.flip()) this.violate("missed", `subscriber ${s.id} (${this.cfg.kind}) does not have the last change of the source, at version ${v}`);
			if (s.got.at(-1) !== v) this.violate("missed", `subscriber ${s.id} (${this.cfg.kind}) last received version ${s.got.at(-1)}, the source is at ${v}`);
		}
		// reading may itself refresh what an adapter remembers
		for (const r of this.adapters) if (this.cfg.reads !== "rare" || r.stopped || this.final) this.checkGet(r);
		for (; (this.errSeen ?? 0) < env.errors.length; ) {
			const { where, error } = env.errors[this.errSeen ?? 0];
			this.errSeen = (this.errSeen ?? 0) + 1;
			this.violate("unexpected-error", `${where}: ${error?.stack?.slice(0, 300) ?? error}`);
		}
	}

	async run() {
		this.init();
		for (let i = 0; i < this.plan.steps.length; i++) {
			this.step = i;
			const a = this.plan.steps[i];
			this.log("step", i, a.op);
			if (a.op === "tick") await this.env.clock.advance(a.dt);
			else if (a.op === "arm") this.arms.push({ ...a });
			else {
				try {
					this.act(a);
				} catch (error) {
					this.env.errors.push({ where: a.op, error });
				}
			}
			await drainMicrotasks();
			this.check();
			if (this.ctx.done()) return;
		}
		this.step = this.plan.steps.length;
		this.log("finish");
		this.arms = [];
		this.final = true;
		for (let i = 0; i < this.adapters.length; i++) this.act({ op: "stop", k: i });
		await this.env.clock.advance(100);
		await drainMicrotasks();
		this.check();
	}
}

export async function execute(plan, ctx) {
	const env = createEnv({ seed: plan.seed, nodeEnv: plan.cfg.nodeEnv });
	try {
		const w = new Adapters(plan, env, ctx);
		await w.run();
		ctx.time(env.clock.now);
	} finally {
		env.dispose();
	}
}
