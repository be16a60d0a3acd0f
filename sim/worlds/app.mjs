// World "app": whole pages.  Real element/factory/facade/adapter/renderer code
// and the real xstate, redux, mobx and lit-html run against a simulated page;
// the plan decides every creation, (dis)connection, move, event, timer, promise
// settlement, delivery, re-entrant action and fault.
import { createEnv, drainMicrotasks } from "../env.mjs";
import { entry, expectedView, flipText, flipValue, tagText } from "./domain.mjs";
import { makeSource, resetIds } from "./sources.mjs";

export const name = "app";

const KINDS = [
	"xstate-machine", "xstate-actor", "redux-slice", "redux-factory", "redux-store",
	"mobx-factory", "mobx-store", "custom-shared", "custom-isolated",
];
const SHARED = new Set(["xstate-actor", "redux-store", "mobx-store", "custom-shared"]);

export class InjectedFault extends Error {}

// ---------------------------------------------------------------- generation
function genEvent(rng, ctx) {
	const id = `e${ctx.nextId++}`;
	const type = rng.weighted([
		["ADD", 8], ["DROP", 2], ["ROT", 2], ["BUMP", 4], ["MODE", 5], ["TAG", 3], ["FLIP", 3], ["THUNK", ctx.redux ? 2 : 0],
		["BATCH", 2], ["LATER", 2], ["ASYNC", 2], ["NOOP", 1], ["LAZY", ctx.lazy ? 2 : 0],
		["CHAIN", ctx.xstate ? 2 : 0], ["END", ctx.xstate && rng.bool(0.2) ? 1 : 0],
	]);
	switch (type) {
		case "MODE":
			return { type, id, m: rng.int(4) };
		case "BUMP":
			return { type, id, i: rng.int(4) };
		case "TAG":
			return { type, id, k: rng.pick(["x", "y", "z"]) };
		case "LATER":
			return { type, id, d: rng.pick([0, 1, 5, 20, 100, 1000]) };
		case "BATCH": {
			const subs = [];
			const n = rng.range(2, 3);
			for (let i = 0; i < n; i++) {
				const sid = `e${ctx.nextId++}`;
				subs.push(rng.pick([
					{ type: "ADD", id: sid },
					{ type: "BUMP", id: sid, i: rng.int(3) },
					{ type: "MODE", id: sid, m: rng.int(4) },
					{ type: "TAG", id: sid, k: rng.pick(["x", "y"]) },
				]));
			}
			return { type, id, subs };
		}
		case "ADD":
		case "DROP":
		case "ROT":
			return rng.bool(0.12) ? { type, id, detail: rng.pick([{ type: "ADD", id: "inner" }, { a: [1, { b: 2 }] }, "text", 7, 0, "", null]) } : { type, id };
		default:
			return { type, id };
	}
}

// events that may be issued again
const PLAIN = new Set(["ADD", "DROP", "ROT", "BUMP", "MODE", "TAG", "FLIP"]);
function genAct(rng, ctx, weights) {
	const op = rng.weighted(weights);
	const k = rng.int(64);
	switch (op) {
		case "create":
			return { op, g: rng.int(8), t: rng.int(8), how: rng.pick(["createElement", "createElement", "new", "html", "fragment", "clone"]), from: rng.int(16), c: rng.int(4), attr: rng.bool(0.1) ? rng.pick(["data-ignite-nodiff", "data-ignite-hydrated"]) : undefined };
		case "mount":
			return { op, g: rng.int(8), t: rng.int(8), c: rng.int(4), attr: rng.bool(0.1) ? rng.pick(["data-ignite-nodiff", "data-ignite-hydrated"]) : undefined };
		case "connect":
			return { op, k, c: rng.int(4), how: rng.weighted([["append", 4], ["prepend", 2], ["replace", 2], ["into", 1.5]]), into: rng.int(16) };
		case "disconnect":
			return { op, k };
		case "clear":
			return { op, c: rng.int(4) };
		case "box":
			return { op, c: rng.int(4) };
		case "send":
			return { op, k, via: rng.weighted([["args", 4], ["stale", 2], ["dom", 3], ["inner", 2], ["click", 4]]), ev: genEvent(rng, ctx), ...(rng.bool(0.12) ? { twice: true } : {}) };
		case "cmd":
			return { op, k, name: rng.weighted([["add", 4], ["shout", 2], ["both", 2], ["secret", 1], ["peek", 2]]), payload: rng.pick(["obj", "obj", "zero", "empty", "null", "text", "false"]), ev: genEvent(rng, ctx), ...(rng.bool(0.12) ? { twice: true } : {}) };
		case "ext":
			return { op, s: rng.int(16), ev: genEvent(rng, ctx) };
		case "tick":
			return { op, dt: rng.pick([0, 1, 4, 16, 40, 150, 2000]) };
		case "resolve":
			return { op, i: rng.int(8), ok: rng.bool(0.7) };
		case "deliver":
			return { op, i: rng.int(8), n: rng.range(1, 6) };
		case "force":
			return { op, k };
		case "define":
			return { op, t: rng.int(8) };
		case "storm":
			return { op, k, by: rng.pick(["send", "force", "ext"]), ...(rng.bool(0.5) ? { until: rng.pick([2, 5, 12, 25, 40]) } : {}) };
		default:
			return { op, k };
	}
}

export function generate(rng, profile = {}) {
	const cfg = {};
	cfg.nodeEnv = rng.weighted([["development", 6], ["production", 2.5], ["page", 1.5]]);
	cfg.renderer = rng.weighted(profile.renderers ?? [["jsx", 6], ["lit", 4], ["replace", 1], ["nodiff", 1]]);
	const kinds = profile.kinds ?? KINDS;
	const nSources = rng.weighted([[1, 6], [2, 3]]);
	cfg.sources = [];
	for (let i = 0; i < nSources; i++) cfg.sources.push(rng.pick(kinds));
	cfg.delivery = rng.pick(profile.delivery ?? ["sync", "async", "late", "dup", "noinitial"]);
	cfg.mobxShape = rng.pick(["object", "class"]);
	cfg.scopeOn = rng.pick(["factory", "options", "adapter"]);
	const nGroups = rng.weighted([[1, 4], [2, 4], [3, 1]]);
	cfg.groups = [];
	for (let i = 0; i < nGroups; i++) {
		cfg.groups.push({
			src: i === 0 ? 0 : rng.int(nSources),
			tags: rng.range(1, 2),
			cleanup: rng.weighted([[null, 3], [true, 2], [false, 3]]),
			states: rng.bool(0.8),
			shape: rng.pick(["fn", "object", "class"]),
			entry: rng.pick(["core", "specific"]),
			variant: rng.int(4),
			listener: rng.bool(0.3),
			extras: rng.bool(0.4),
		});
	}
	cfg.faults = profile.faults ?? rng.bool(0.3);
	cfg.reentrancy = profile.reentrancy ?? rng.bool(0.4);
	cfg.late = rng.bool(0.15); // first tag defined late (upgrade path)

	const ctx = {
		nextId: 1,
		xstate: cfg.sources.every((s) => s.startsWith("xstate")),
		redux: cfg.sources.every((s) => s.startsWith("redux")),
		lazy: cfg.sources.some((s) => s === "redux-store" || s === "redux-factory"),
	};
	const base = {
		create: 2, mount: 4, connect: 5, disconnect: 4, clear: 1, box: 1.5, send: 8, cmd: 4, ext: 6,
		tick: 3, resolve: 1.5, deliver: 0, force: 0.5, define: 0, redefine: 0.3, storm: 0.25,
		...(profile.weights ?? {}),
	};
	if (cfg.sources.some((s) => s.startsWith("custom"))) base.deliver = 5;
	if (cfg.late) base.define = 1.5;
	// swarm: drop some operation kinds for this run
	const weights = [];
	for (const [k, w] of Object.entries(base)) {
		if (!["mount", "send", "ext"].includes(k) && rng.bool(0.15)) continue;
		weights.push([k, w * (0.3 + rng.float() * 1.4)]);
	}
	if (cfg.nodeEnv === "page" && cfg.renderer === "nodiff") cfg.nodeEnv = "production";
	const armActs = weights.filter(([k]) => !["tick", "resolve", "deliver", "define", "force", "storm"].includes(k));
	const steps = [];
	const n = rng.range(profile.minSteps ?? 6, profile.maxSteps ?? 34);
	steps.push(genAct(rng, ctx, [["mount", 1]]));
	for (let i = 0; i < n; i++) {
		if (cfg.reentrancy && rng.bool(0.18)) {
			steps.push({
				op: "arm",
				at: rng.weighted([["view", 4], ["probe", 3], ["listener", 2], ["emit", 1.5]]),
				k: rng.bool(0.5) ? rng.int(16) : null,
				act: genAct(rng, ctx, armActs),
				...(rng.bool(0.35) ? { self: true } : {}),
				...(rng.bool(0.3) ? { then: genAct(rng, ctx, armActs) } : {}),
			});
		}
		if (cfg.faults && rng.bool(0.15)) {
			steps.push({ op: "fault", at: rng.weighted([["view", 6], ["states", 2], ["factory", 1.5], ["setup", 1.5], ["renderer", cfg.groups.some((g) => g.shape === "class") ? 1 : 0], ["handler", 1.5]]), k: rng.int(16) });
		}
		steps.push(genAct(rng, ctx, weights));
	}
	return { world: name, cfg, steps };
}

export function shrinkCfg(cfg) {
	const out = [];
	const put = (patch) => out.push({ ...cfg, ...patch });
	if (cfg.groups.length > 1) {
		for (let i = 0; i < cfg.groups.length; i++) put({ groups: cfg.groups.filter((_, j) => j !== i) });
	}
	if (cfg.sources.length > 1) {
		put({ sources: cfg.sources.slice(0, 1), groups: cfg.groups.map((g) => ({ ...g, src: 0 })) });
		put({ sources: cfg.sources.slice(1), groups: cfg.groups.map((g) => ({ ...g, src: 0 })) });
	}
	if (cfg.renderer !== "jsx") put({ renderer: "jsx" });
	if (cfg.nodeEnv !== "development") put({ nodeEnv: "development" });
	if (cfg.late) put({ late: false });
	if (cfg.delivery !== "sync") put({ delivery: "sync" });
	cfg.groups.forEach((g, i) => {
		const rep = (patch) => put({ groups: cfg.groups.map((x, j) => (j === i ? { ...x, ...patch } : x)) });
		if (g.tags > 1) rep({ tags: 1 });
		if (g.variant !== 0) rep({ variant: 0 });
		if (g.shape !== "fn") rep({ shape: "fn" });
		if (g.listener) rep({ listener: false });
		if (g.cleanup !== null) rep({ cleanup: null });
		if (!g.states) rep({ states: true });
	});
	return out;
}

// ----------------------------------------------------------------- execution
class World {
	constructor(plan, env, ctx) {
		this.plan = plan;
		this.cfg = plan.cfg;
		this.env = env;
		this.ctx = ctx;
		this.instances = [];
		this.actorInst = new Map();
		this.tasks = [];
		this.deferred = [];
		this.hosts = [];
		this.hostOf = new Map();
		this.slots = [];
		this.arms = [];
		this.faults = [];
		this.injected = [];
		this.surfaced = new Set();
		this.step = -1;
		this.depth = 0;
		this._seq = 0;
		this.lastCreated = null;
		this.events = [];
		this.handlerCalls = 0;
		this.viewDepth = new Map();
	}
	seq() {
		return this._seq++;
	}
	log(...a) {
		this.ctx.log(a.join(" "));
	}
	violate(props, kind, detail) {
		for (const p of props) this.ctx.violate(p, kind, detail, this.step);
	}

	// ---- asynchronous completions owned by the scheduler
	async(id, settle) {
		this.deferred.push({ id, settle });
	}
	selfSend(actor, ev) {
		const inst = this.actorInst.get(actor);
		this.dispatch(inst, ev, () => actor.send(ev), inst.alive());
	}

	// ---- event delivery and the expected history
	dispatch(inst, ev, fn, accepted) {
		if (accepted && inst.kind === "xstate" && (inst.done || !inst.alive())) accepted = false;
		if (accepted) {
			const subs = ev.type === "BATCH" ? ev.subs : [ev];
			if (ev.type === "BATCH") {
				for (const sub of ev.subs.slice(0, -1)) inst.holes.add(sub.id);
			}
			for (const s of subs) {
				if (s.type === "NOOP" || s.type === "END") continue;
				if (s.type === "CHAIN" && inst.kind !== "xstate") continue;
				if (s.type === "FLIP") {
					inst.flips++;
					continue;
				}
				inst.expected.push(entry(s));
				if (s.type === "CHAIN") {
					inst.holes.add(s.id);
					inst.expected.push(`${s.id}c`);
				}
			}
			if (ev.type === "END") inst.done = true;
			if (ev.type === "LAZY" && inst.kind === "redux") inst.lazyUntil = this.env.clock.now + 40;
			if (ev.type === "LATER") {
				if (inst.kind === "xstate") {
					inst.timers.push({ id: `${ev.id}t`, at: this.env.clock.now + ev.d, free: false });
				} else {
					const later = { type: "ADD", id: `${ev.id}t` };
					this.harnessTimers.add(
						this.env.clock.set(() => {
							this.dispatch(inst, later, () => inst.send(later), true);
						}, ev.d, false, []),
					);
				}
			}
			if (ev.type === "ASYNC" && inst.kind !== "xstate") {
				this.async(ev.id, (ok) => {
					const e2 = { type: "ADD", id: `${ev.id}${ok ? "ok" : "err"}` };
					this.dispatch(inst, e2, () => inst.send(e2), true);
				});
			}
		}
		if (!accepted) inst.rejected.add(entry(ev));
		this.log("dispatch", inst.id, ev.type, ev.id, accepted ? "acc" : "rej");
		this.call(fn);
	}
	// Calls into the library; anything it throws at its caller is kept.
	call(fn) {
		try {
			return fn();
		} catch (error) {
			this.env.errors.push({ where: "caller", error });
			return undefined;
		}
	}

	// ---- faults and re-entrant actions
	maybeFault(at, rec, v) {
		if (!this.faults.length) return;
		if (at === "states" && this.viewNesting > 0) return;
		const i = this.faults.findIndex((f) => f.at === at && (!rec || !this.hosts.length || this.hosts[f.k % this.hosts.length] === rec));
		if (i < 0) return;
		if (this.setup && ["factory", "setup", "renderer"].includes(at)) return;
		this.faults.splice(i, 1);
		const error = new InjectedFault(`injected:${at}:${this.injected.length}`);
		this.injected.push(error);
		this.ctx.fault(`throw:${at}`);
		this.log("fault", at, rec ? rec.id : "-");
		if (rec && ["view", "states", "setup"].includes(at)) {
			rec.faultV = v ?? rec.inst.get().v;
			rec.faultSeq = this.seq();
		}
		throw error;
	}
	fireArms(at, rec) {
		if (this.depth > 3 || !this.arms.length) return;
		const i = this.arms.findIndex((a) => a.at === at && (a.k === null || !rec || this.hosts[a.k % this.hosts.length] === rec));
		if (i < 0) return;
		const [arm] = this.arms.splice(i, 1);
		this.ctx.fault(`reenter:${at}`);
		this.log("arm", at, arm.act.op, arm.then?.op ?? "");
		// the callback of an element often acts on that very element
		const own = arm.self && rec ? this.hosts.indexOf(rec) : -1;
		const aim = (act) => (own >= 0 && "k" in act ? { ...act, k: own } : act);
		this.depth++;
		try {
			this.act(aim(arm.act));
			if (arm.then) this.act(aim(arm.then));
		} finally {
			this.depth--;
		}
	}

	// ---- set-up
	async init() {
		const { env, cfg } = this;
		const { document, window } = env;
		this.setup = true;
		this.nestingPossible = cfg.reentrancy || cfg.groups.some((g) => g.variant === 3);
		this.harnessTimers = new Set();
		this.busyConnecting = 0;
		this.viewNesting = 0;
		resetIds();
		const ig = env.loadIgnite();
		this.ig = ig;
		const conf = {};
		if (cfg.renderer === "lit") conf.renderer = "lit";
		if (cfg.renderer === "replace") conf.strategy = "replace";
		if (Object.keys(conf).length) await ig.index.loadIgniteConfig(async () => ({ default: conf }));
		if (cfg.renderer === "nodiff") env.process.env.IGNITE_DIFF_ENABLED = "false";

		const define = window.customElements.define.bind(window.customElements);
		const world = this;
		window.customElements.define = (tag, ctor, o) => {
			if (tag.startsWith("ig-")) {
				for (const cb of ["connectedCallback", "disconnectedCallback"]) {
					const original = ctor.prototype[cb];
					Object.defineProperty(ctor.prototype, cb, {
						configurable: true,
						writable: true,
						value(...a) {
							world.lifecycle(this, cb, true);
							try {
								return original?.apply(this, a);
							} finally {
								world.lifecycle(this, cb, false);
							}
						},
					});
				}
				const Base = ctor;
				ctor = class extends Base {
					constructor(...a) {
						const prev = world.constructing;
						world.constructing = true;
						try {
							super(...a);
						} finally {
							world.constructing = prev;
						}
					}
				};
			}
			return define(tag, ctor, o);
		};
		define(
			"sim-probe",
			class extends window.HTMLElement {
				connectedCallback() {
					world.fireArms("probe");
				}
			},
		);

		this.boxes = [];
		for (let i = 0; i < 3; i++) {
			const b = document.createElement("div");
			b.id = `box${i}`;
			document.body.appendChild(b);
			this.boxes.push(b);
		}
		// the last box lives inside another component's shadow tree
		const shell = document.createElement("div");
		document.body.appendChild(shell);
		const inner = document.createElement("div");
		shell.attachShadow({ mode: "open" }).appendChild(inner);
		this.boxes.push(inner);
		this.shell = shell;

		document.addEventListener("shout", (e) => {
			this.events.push({ detail: e.detail, path0: e.composedPath()[0], bubbles: e.bubbles, composed: e.composed });
			this.fireArms("emit");
		});
		document.addEventListener("secret", (e) => {
			this.events.push({ secret: true, detail: e.detail, path0: e.composedPath()[0], bubbles: e.bubbles, composed: e.composed });
		});

		this.sources = cfg.sources.map((k) => makeSource(this, k));
		for (const inst of this.instances) inst.holes ??= new Set();
		this.groups = cfg.groups.map((g, i) => this.makeGroup(g, i));
		this.setup = false;
	}

	makeGroup(gcfg, i) {
		const src = this.sources[gcfg.src % this.sources.length];
		const group = { i, cfg: gcfg, src, tags: [], releases: 0, active: 0, defined: new Set(), createdBefore: 0 };
		const world = this;
		const ig = this.ig;
		const states = gcfg.states
			? (snap) => {
					const s = world.domainOf(src, snap);
					world.maybeFaultStates(group);
					return { fv: s.v, flog: s.log.join(","), ftags: tagText(s.tags), fflip: world.flipOf(src, snap), ffn: () => s.v };
				}
			: undefined;
		const commands = ({ actor, emit, host }) => {
			world.maybeFaultSetup(host, group);
			world.register(host, group);
			return {
				me: () => host,
				add: (ev) => world.commandSend(src, actor, ev),
				peek: () => world.commandRead(src, actor),
				shout: (x) => emit("shout", x),
				secret: (x) => (x === undefined ? emit("secret") : emit("secret", { x })),
			};
		};
		const options = { source: src.source, states, commands, events: (event) => ({ shout: event() }) };
		if (gcfg.cleanup !== null) options.cleanup = gcfg.cleanup;
		let factory;
		if (src.adapter === "custom") {
			const create = () => src.createAdapter();
			const o = { states, commands, events: { shout: ig.index.event() } };
			if (gcfg.cleanup !== null) o.cleanup = gcfg.cleanup;
			if (gcfg.extras) {
				o.createAdditionalArgs = (adapter, host) => ({
					owner: host,
					get live() {
						return adapter.getState().v;
					},
				});
			}
			if (src.scope === "shared") {
				if (this.cfg.scopeOn === "options") o.scope = "shared";
				else create.scope = "shared";
			}
			src.adapterMark = src.adapters.length;
			factory = ig.factory.createComponentFactory(create, o);
		} else if (gcfg.entry === "core") {
			factory = ig.core.igniteCore(options);
		} else {
			factory = ig[src.adapter].igniteCore(options);
		}
		if (src.scope === "shared" && gcfg.listener) this.attachListener(src);
		group.factory = factory;
		for (let t = 0; t < gcfg.tags; t++) {
			const tag = `ig-g${i}-t${t}`;
			group.tags.push(tag);
			if (this.cfg.late && i === 0 && t === 0) continue;
			this.defineTag(group, tag);
		}
		return group;
	}

	attachListener(src) {
		const { inst } = src;
		const fire = () => this.fireArms("listener");
		if (inst.kind === "xstate") inst.raw.subscribe(fire);
		else if (inst.kind === "redux") inst.raw.subscribe(fire);
		else if (inst.kind === "mobx") {
			this.env.peers.mobx.autorun(() => {
				inst.raw.v;
				this.env.peers.mobx.untracked(fire);
			});
		} else inst.hubListeners.add(fire);
		inst.ownSubs = (inst.ownSubs ?? 0) + 1;
	}

	defineTag(group, tag) {
		if (group.defined.has(tag)) return;
		group.defined.add(tag);
		const world = this;
		const view = (args) => world.view(group, args);
		let renderer = view;
		if (group.cfg.shape === "object") {
			renderer = {
				secretField: 7,
				render(args) {
					if (this.secretField !== 7) throw new Error("renderer lost its receiver");
					return view(args);
				},
			};
		} else if (group.cfg.shape === "class") {
			renderer = class {
				field = 7;
				owner = null;
				constructor() {
					world.maybeFaultRenderer(group);
				}
				render(args) {
					if (this.field !== 7) throw new Error("renderer lost its receiver");
					const me = args.me();
					this.owner ??= me;
					if (group.src.scope === "isolated" && this.owner !== me) {
						world.violate(["C05"], "shared-renderer", "two isolated elements render through one renderer object");
					}
					return view(args);
				}
			};
		}
		this.call(() => group.factory(tag, renderer));
	}

	domainOf(src, snap) {
		if (src.adapter === "xstate") return snap.context ?? snap;
		return src.pick(snap);
	}
	flipOf(src, snap) {
		return src.adapter === "xstate" ? flipValue(snap.value) : flipText(src.pick(snap));
	}
	maybeFaultStates(group) {
		if (!this.faults.length || this.setup) return;
		// Only while an already mounted element re-reads its facade.
		if (this.viewNesting || this.constructing) return;
		const mounted = this.hosts.filter((h) => h.group === group && h.active);
		if (mounted.length !== 1) return;
		this.maybeFault("states", mounted[0]);
	}
	// The set-up of an element fails: a new one never comes to life and must leave
	// nothing behind; one that is bound again has failed to render.
	maybeFaultSetup(host, group) {
		const rec = this.hostOf.get(host);
		const { length } = this.injected;
		try {
			this.maybeFault("setup", rec);
		} finally {
			if (this.injected.length > length && !rec && group.src.scope === "isolated") this.lastCreated.orphan = true;
		}
	}
	maybeFaultRenderer(group) {
		if (group.src.scope !== "isolated") return;
		const { length } = this.injected;
		try {
			this.maybeFault("renderer");
		} finally {
			if (this.injected.length > length) {
				const inst = this.lastCreated;
				inst.orphan = true;
				const rec = this.hosts.find((h) => h.inst === inst);
				if (rec) {
					this.hosts.splice(this.hosts.indexOf(rec), 1);
					this.hostOf.delete(rec.el);
				}
			}
		}
	}
	register(host, group) {
		if (this.hostOf.has(host)) return this.hostOf.get(host);
		const rec = {
			id: this.hosts.length,
			el: host,
			group,
			src: group.src,
			inst: group.src.scope === "shared" ? group.src.inst : this.lastCreated,
			active: false,
			everConnected: false,
			discEver: false,
			shouts: [],
			lastV: -1,
			lastDomV: -1,
			renders: 0,
			bornRelease: group.releases,
		};
		rec.inst.holes ??= new Set();
		rec.inst.owner = group.src.scope === "isolated" ? rec : null;
		this.hosts.push(rec);
		this.hostOf.set(host, rec);
		host.addEventListener("shout", (e) => {
			if (e.composedPath()[0] === host) rec.shouts.push(e.detail);
		});
		this.log("register", rec.id, group.i, rec.inst.id);
		return rec;
	}

	lifecycle(el, cb, begin) {
		const rec = this.hostOf.get(el);
		if (begin) this.busyConnecting++;
		else this.busyConnecting--;
		if (!rec) return;
		if (cb === "connectedCallback" && begin) {
			rec.active = true;
			rec.silentHtml = undefined;
			rec.everConnected = true;
			rec.group.active++;
			this.log("connected", rec.id);
		}
		if (cb === "disconnectedCallback") {
			if (begin) {
				// from here on the element must not accept events
				rec.active = false;
				rec.discEver = true;
				rec.group.active--;
				if (rec.inst.owner) {
					const log = rec.inst.get().log;
					for (const t of rec.inst.timers) if (!log.includes(t.id)) t.dead = true;
				}
				if (rec.src.scope === "shared" && rec.group.active === 0 && rec.group.cfg.cleanup !== false) rec.group.releases++;
				this.log("disconnected", rec.id);
			}
		}
	}

	commandSend(src, actor, ev) {
		if (src.adapter === "xstate") actor.send(ev);
		else if (src.adapter === "redux") actor.dispatch(src.toEvent(ev));
		else if (src.adapter === "mobx") actor[ev.type]?.(ev);
		else actor.send(ev);
	}

	commandRead(src, actor) {
		if (src.adapter === "xstate") return actor.state.v === actor.state.context.v ? actor.state.context : { v: "torn", log: [] };
		if (src.adapter === "redux") return src.pick(actor.getState());
		if (src.adapter === "mobx") return this.env.peers.mobx.untracked(() => this.env.peers.mobx.toJS(actor));
		return actor.getState();
	}

	// ---- the application's view
	view(group, args) {
		const rec = this.hostOf.get(args.me());
		const state = this.domainOf(group.src, args.state);
		const { inst } = rec;
		rec.renders++;
		this.ctx.count("renders");
		this.log("view", rec.id, state.v);
		if (!rec.active) {
			this.violate(["C03"], "render-while-disconnected", `element ${rec.id} rendered v${state.v} after it was disconnected`);
		}
		// An adapter that delivers after unsubscribe breaks its own contract; only
		// silence is required of its elements.
		if (!this.frozen(rec) && !(rec.src.adapter === "custom" && this.cfg.delivery === "late")) {
			if (state.v < rec.lastV) {
				this.violate(["C02"], "time-travel", `element ${rec.id} rendered v${state.v} after v${rec.lastV}`);
			}
			if (inst.holes.has(state.log[state.log.length - 1])) {
				this.violate(["C02"], "torn-batch", `element ${rec.id} rendered v${state.v}, half of an atomic change`);
			}
			if (state.v !== state.log.length) {
				this.violate(["C02"], "torn-state", `element ${rec.id} saw v${state.v} with ${state.log.length} log entries`);
			}
			if (args.owner !== undefined && args.owner !== rec.el) {
				this.violate(["C05"], "foreign-args", `element ${rec.id} was given the additional arguments of another element`);
			}
			if (args.live !== undefined && args.live < state.v) {
				this.violate(["C02"], "old-args", `element ${rec.id} saw v${args.live} in its additional arguments beside state v${state.v}`);
			}
			if (args.fv !== undefined && args.fv < state.v) {
				this.violate(["C02"], "old-facade", `element ${rec.id} saw facade v${args.fv} beside state v${state.v}`);
			}
			if (typeof args.ffn === "function" && args.ffn() < state.v) {
				this.violate(["C02"], "old-facade", `element ${rec.id} saw a derived function of v${args.ffn()} beside state v${state.v}`);
			}
		}
		rec.lastV = Math.max(rec.lastV, state.v);
		rec.args = args;
		rec.argsRelease = rec.group.releases;
		rec.stale ??= args.send;
		this.viewNesting++;
		try {
			this.fireArms("view", rec);
			// what the failing view was given; anything newer must still be shown
			this.maybeFault("view", rec, state.v);
		} finally {
			this.viewNesting--;
		}
		// Reads after the re-entrant action must still be coherent.
		const m = {
			v: state.v,
			log: state.log.join(","),
			items: state.items.map((i) => `${i.id}:${i.n}`),
			mode: state.mode,
			tags: tagText(state.tags),
			flip: this.flipOf(group.src, args.state),
			fv: args.fv,
			flog: args.flog,
			ftags: args.ftags,
			fflip: args.fflip,
		};
		const click = () => {
			this.handlerCalls++;
			if (this.clickEv) {
				const ev = this.clickEv;
				this.maybeFault("handler");
				this.dispatch(inst, ev, () => args.send(group.src.toEvent(ev)), this.accepts(rec));
			}
		};
		rec.okSeq = this.seq();
		rec.faultV = undefined;
		if (this.storm?.rec === rec) this.blow(rec, args);
		return this.cfg.renderer === "lit" ? this.litView(group, m, click) : this.jsxView(group, m, click);
	}

	// A view that changes the state in every render.
	blow(rec, args) {
		const { storm } = this;
		if (storm.n >= storm.until) return;
		storm.n++;
		if (storm.n > 2000) {
			this.storm = null;
			this.violate(["C12"], "endless-render", `element ${rec.id} (${rec.src.kind}) rendered ${storm.n} times in one go while its view kept changing the state`);
			return;
		}
		const ev = { type: "ADD", id: `s${this.step}x${storm.n}` };
		this.dispatch(rec.inst, ev, () => args.send(rec.src.toEvent(ev)), this.accepts(rec));
	}
	async opStorm(a) {
		const rec = this.pickConnected(a.k);
		if (!rec?.args || this.frozen(rec) || this.arms.length || this.faults.length) return;
		const { inst } = rec;
		// An asynchronous source never hangs; XState is a known finding.
		if (rec.src.adapter === "custom" && !["sync", "dup"].includes(this.cfg.delivery)) return;
		if (!a.until) {
			if (inst.kind === "xstate" && this.cfg.probe !== "storm") return;
			// MobX has a limit of its own, after which it never runs the reactions again.
			if (inst.kind === "mobx") return;
		}
		if (inst.lazyUntil > this.env.clock.now) return;
		this.ctx.fault(a.until ? "long-cascade" : "endless-view");
		const errors = this.env.errors.length;
		const logged = this.env.console.length;
		const ev = { type: "ADD", id: `s${this.step}` };
		this.storm = { rec, n: 0, until: a.until ?? Number.POSITIVE_INFINITY };
		if (a.by === "force") this.call(() => rec.el.forceRender());
		else if (a.by === "ext") this.dispatch(inst, ev, () => inst.send(ev), true);
		else this.dispatch(inst, ev, () => rec.args.send(rec.src.toEvent(ev)), true);
		await drainMicrotasks();
		if (!this.storm) return;
		const { n } = this.storm;
		this.storm = null;
		this.log("storm", rec.id, n);
		const reported = this.env.errors.length > errors || this.env.console.slice(logged).some(([level]) => level === "error");
		if (a.until) {
			if (reported) this.violate(["C12"], "cascade-cut", `the view of element ${rec.id} changed the state ${n} times and then let it rest, but an error was reported: ${this.env.errors.at(-1)?.error}`);
			return;
		}
		if (n > 1 && !reported) this.violate(["C12"], "endless-render", `the view of element ${rec.id} changed the state ${n} times in a row and stopped without an error`);
		this.env.errors.splice(errors);
		// what was given up on may be behind until the next change
		for (const h of this.hosts) if (h === rec) h.faultV = inst.get().v;
	}

	nestedTag(group) {
		// nested component: a tag of the next group, one level only
		const g = this.groups?.[group.i + 1];
		return g ? g.tags[0] : null;
	}

	jsxView(group, m, click) {
		const { jsx, Fragment } = this.ig.jsxRuntime;
		const variant = group.cfg.variant;
		const kids = [
			jsx("span", { class: "v", children: m.v }),
			jsx("span", { className: "log", children: m.log }),
			jsx("span", { class: "mode", children: String(m.mode) }),
			jsx("i", { class: "flip", title: m.flip, children: m.flip }),
			m.tags ? jsx("em", { class: "tags", children: m.tags }) : null,
			jsx("ul", { children: m.items.map((t) => jsx("li", { children: t })) }),
			m.fv !== undefined ? jsx("span", { class: "fv", children: `${m.fv}|${m.flog}|${m.ftags}|${m.fflip}` }) : false,
			jsx("button", { onClick: click, disabled: m.mode === 9, children: "go" }),
		];
		if (m.mode > 0 && variant >= 1) kids.splice(m.mode % 3, 0, jsx("p", { style: { color: m.mode === 1 ? "red" : undefined }, children: `m${m.mode}` }));
		if (m.mode === 2 && variant >= 2) kids.push(jsx("sim-probe", {}));
		const nested = variant === 3 && m.mode === 1 ? this.nestedTag(group) : null;
		if (nested) kids.push(jsx(nested, {}));
		if (m.mode === 3 && variant >= 1) return jsx("section", { children: jsx(Fragment, { children: kids }) });
		if (m.mode === 2 && variant === 1) return kids;
		return jsx("div", { "data-v": m.v, children: kids });
	}

	litView(group, m, click) {
		const { html } = this.env.peers["lit-html"];
		const variant = group.cfg.variant;
		const body = html`<span class="v">${m.v}</span><span class="log">${m.log}</span><span class="mode">${m.mode}</span><i class="flip">${m.flip}</i>${
			m.tags ? html`<em class="tags">${m.tags}</em>` : null
		}<ul>${m.items.map((t) => html`<li>${t}</li>`)}</ul>${
			m.fv !== undefined ? html`<span class="fv">${`${m.fv}|${m.flog}|${m.ftags}|${m.fflip}`}</span>` : ""
		}<button @click=${click}>go</button>`;
		const nested = variant === 3 && m.mode === 1 ? this.nestedTag(group) : null;
		const extra = m.mode === 2 && variant >= 2 ? html`<sim-probe></sim-probe>` : nested ? this.litNested(nested) : null;
		if (m.mode === 3 && variant >= 1) return html`<section>${body}${extra}</section>`;
		if (m.mode === 2 && variant === 1) return body;
		return html`<div data-v=${m.v}>${body}${extra}</div>`;
	}
	litNested(tag) {
		this.litStatics ??= new Map();
		if (!this.litStatics.has(tag)) {
			const s = [`<${tag}></${tag}>`];
			s.raw = [`<${tag}></${tag}>`];
			this.litStatics.set(tag, s);
		}
		return this.env.peers["lit-html"].html(this.litStatics.get(tag));
	}

	extract(rec) {
		const root = rec.el.shadowRoot;
		const one = (sel) => {
			const l = root.querySelectorAll(sel);
			return l.length === 1 ? l[0].textContent : `<${l.length} nodes>`;
		};
		const tags = root.querySelectorAll(".tags");
		const out = {
			v: one(".v"),
			log: one(".log"),
			items: [...root.querySelectorAll("li")].map((n) => n.textContent).join(","),
			mode: one(".mode"),
			flip: one(".flip"),
			tags: tags.length === 0 ? "" : tags.length === 1 ? tags[0].textContent : `<${tags.length} nodes>`,
		};
		if (rec.group.cfg.states) out.f = one(".fv");
		const uls = root.querySelectorAll("ul").length;
		if (uls !== 1) out.items = `<${uls} lists>${out.items}`;
		return out;
	}

	// An isolated element that was disconnected has given up its source
	// (recorded as a known finding when it is connected again).
	frozen(rec) {
		return rec.src.scope === "isolated" && rec.discEver;
	}
	accepts(rec) {
		return rec.active && !this.frozen(rec);
	}

	// ---- operations
	pickSlot(k) {
		const live = this.slots;
		return live.length ? live[k % live.length] : null;
	}
	pickHost(k) {
		return this.hosts.length ? this.hosts[k % this.hosts.length] : null;
	}
	pickConnected(k) {
		const l = this.hosts.filter((h) => h.active);
		return l.length ? l[k % l.length] : null;
	}
	makeElement(a) {
		const { document, window } = this.env;
		const g = this.groups[a.g % this.groups.length];
		const tag = g.tags[a.t % g.tags.length];
		let el;
		const prev = this.constructing;
		this.constructing = true;
		try {
			if (a.how === "clone" && this.slots.length) {
				el = this.call(() => this.pickSlot(a.from).el.cloneNode(false));
			} else if (a.how === "new" && g.defined.has(tag)) {
				el = this.call(() => new (window.customElements.get(tag))());
			} else if (a.how === "fragment") {
				const tpl = document.createElement("div");
				this.call(() => {
					tpl.innerHTML = `<${tag}></${tag}>`;
				});
				el = tpl.firstElementChild;
				el?.remove();
			} else el = this.call(() => document.createElement(tag));
		} finally {
			this.constructing = prev;
		}
		if (el && a.attr) el.setAttribute(a.attr, "");
		return el;
	}

	act(a) {
		const { env } = this;
		const { document } = env;
		this.ctx.count(`op:${a.op}`);
		switch (a.op) {
			case "create": {
				if (this.slots.length >= 12) return;
				if (a.how === "html") {
					const g = this.groups[a.g % this.groups.length];
					const tag = g.tags[a.t % g.tags.length];
					const box = this.boxes[a.c % this.boxes.length];
					const prev = this.constructing;
					this.call(() => box.insertAdjacentHTML("beforeend", `<${tag}${a.attr ? ` ${a.attr}` : ""}></${tag}>`));
					this.constructing = prev;
					const el = box.lastElementChild;
					if (el) this.slots.push({ el });
					return;
				}
				const el = this.makeElement(a);
				if (el) this.slots.push({ el });
				return;
			}
			case "mount": {
				if (this.slots.length >= 12) return;
				const el = this.makeElement(a);
				if (!el) return;
				this.slots.push({ el });
				this.call(() => this.boxes[a.c % this.boxes.length].appendChild(el));
				return;
			}
			case "connect": {
				const slot = this.pickSlot(a.k);
				if (!slot) return;
				const box = this.boxes[a.c % this.boxes.length];
				this.call(() => {
					if (a.how === "prepend") box.prepend(slot.el);
					else if (a.how === "replace") box.replaceChildren(slot.el);
					else if (a.how === "into") {
						// as a light-DOM child of another element
						const target = this.pickSlot(a.into).el;
						if (!slot.el.contains(target)) target.appendChild(slot.el);
					}
					else box.appendChild(slot.el);
				});
				return;
			}
			case "disconnect": {
				const slot = this.pickSlot(a.k);
				if (slot) this.call(() => slot.el.remove());
				return;
			}
			case "clear": {
				const box = this.boxes[a.c % this.boxes.length];
				this.call(() => {
					box.textContent = "";
				});
				return;
			}
			case "box": {
				const box = this.boxes[a.c % this.boxes.length];
				this.call(() => {
					if (box.isConnected) box.remove();
					else document.body.appendChild(box);
				});
				return;
			}
			case "send":
				this.opSend(a);
				return;
			case "cmd":
				this.opCommand(a);
				return;
			case "ext": {
				const live = this.instances.filter((i) => i.owner === null || i.owner || i.kind !== "none");
				if (!live.length) return;
				const inst = live[a.s % live.length];
				this.dispatch(inst, a.ev, () => inst.send(a.ev), true);
				return;
			}
			case "force": {
				const rec = this.pickHost(a.k);
				if (rec) this.call(() => rec.el.forceRender());
				return;
			}
			case "redefine": {
				const g = this.groups.find((x) => x.defined.size > 0);
				if (!g) return;
				let threw = false;
				try {
					g.factory([...g.defined][0], () => null);
				} catch {
					threw = true;
				}
				if (!threw) this.violate(["C05"], "redefined", "an element name could be defined twice");
				return;
			}
			case "define": {
				const g = this.groups[0];
				const tag = g.tags[0];
				this.defineTag(g, tag);
				return;
			}
			default:
		}
	}

	opSend(a) {
		const { window } = this.env;
		const ev = a.ev;
		if (a.via === "click") {
			const rec = this.pickConnected(a.k);
			const b = rec?.el.shadowRoot.querySelector("button");
			if (!b) return;
			const before = this.handlerCalls;
			const prevEv = this.clickEv;
			const nested = this.depth > 0;
			this.clickEv = ev;
			try {
				this.call(() => b.click());
			} finally {
				this.clickEv = prevEv;
			}
			if (!nested && !this.armedDuring && this.handlerCalls !== before + 1) {
				this.violate(["C06", "C10"], "handler-count", `one click ran ${this.handlerCalls - before} handlers`);
			}
			return;
		}
		const rec = this.pickHost(a.k);
		if (!rec) return;
		const payload = rec.src.toEvent(ev);
		if (a.via === "dom" || a.via === "inner") {
			const origin = a.via === "inner" ? (rec.el.shadowRoot.querySelector("button") ?? rec.el) : rec.el;
			if (this.arms.length || ev.type === "ASYNC" || ev.type === "LATER" || ev.type === "BATCH" || ev.type === "CHAIN" || ev.type === "END") return;
			const composed = a.via === "inner";
			for (let times = a.twice && PLAIN.has(ev.type) ? 2 : 1; times > 0; times--) {
				const path = [];
				for (let n = origin; n; n = n.parentNode ?? n.host) {
					const r = this.hostOf.get(n);
					if (r) path.push(r);
					if (!composed) break; // it does not bubble either
				}
				const hit = path.filter((r) => this.accepts(r));
				// every element on the path speaks its own source's dialect
				if (hit.some((r) => r.src !== rec.src)) return;
				// the outermost one may replace those between it and the sender on its way
				if (hit.length > 2) return;
				for (const r of hit) this.dispatch(r.inst, ev, () => {}, true);
				if (!hit.length) this.log("dom-send rejected", rec.id);
				this.call(() => origin.dispatchEvent(new window.CustomEvent("send", { detail: payload, bubbles: composed, composed })));
			}
			return;
		}
		const send = a.via === "stale" ? rec.stale : rec.args?.send;
		if (!send) return;
		const silent = !rec.active;
		const warned = this.env.console.length;
		this.dispatch(rec.inst, ev, () => send(payload), this.accepts(rec));
		// the very same event object once more
		if (a.twice && PLAIN.has(ev.type)) this.dispatch(rec.inst, ev, () => send(payload), this.accepts(rec));
		if (silent && !rec.active && !this.env.console.slice(warned).some(([level]) => level === "warn" || level === "error")) {
			this.violate(["C03"], "silent-drop", `an event sent through disconnected element ${rec.id} was dropped without a warning`);
		}
	}

	opCommand(a) {
		const rec = this.pickConnected(a.k);
		if (!rec?.args || this.frozen(rec)) return;
		// commands of the current binding only
		if (rec.argsRelease !== rec.group.releases) return;
		const { args } = rec;
		if (a.name === "add" || a.name === "both") {
			this.dispatch(rec.inst, a.ev, () => args.add(a.ev), true);
			if (a.twice && PLAIN.has(a.ev.type) && this.accepts(rec) && rec.argsRelease === rec.group.releases) this.dispatch(rec.inst, a.ev, () => rec.args.add(a.ev), true);
		}
		if (a.name === "peek") {
			const got = this.call(() => args.peek());
			const want = rec.inst.get();
			this.ctx.count("command-reads");
			if (got && (got.v !== want.v || got.log.join() !== want.log.join())) {
				this.violate(["C06"], "stale-read", `a command of element ${rec.id} read v${got.v}, the source is at v${want.v}`);
			}
		}
		if (a.name === "shout" || a.name === "both") {
			const before = this.events.length;
			const own = rec.shouts.length;
			const inDoc = rec.el.isConnected;
			const plain = { zero: 0, empty: "", null: null, text: "text", false: false };
			const payload = a.payload in plain && !this.arms.length ? plain[a.payload] : { x: `${a.ev.id}!` };
			this.call(() => args.shout(payload));
			const mine = this.events.slice(before).filter((e) => e.detail === payload && !e.secret);
			this.ctx.count("emits");
			if (rec.shouts.slice(own).filter((d) => d === payload).length !== 1) {
				this.violate(["C06"], "emit", `an emitted event was dispatched ${rec.shouts.length - own} times, or with another payload`);
			} else if (inDoc && (mine.length !== 1 || mine[0].path0 !== rec.el || !mine[0].bubbles || !mine[0].composed)) {
				this.violate(["C06"], "emit", `emit reached the document ${mine.length} times${mine.length ? " with a wrong origin" : ""}`);
			}
		}
		if (a.name === "secret") {
			const before = this.events.length;
			let threw = false;
			try {
				if (a.payload === "empty" || a.payload === "null") args.secret();
				else args.secret("x");
			} catch {
				threw = true;
			}
			if (this.cfg.nodeEnv === "development" && (!threw || this.events.length !== before)) {
				this.violate(["C06"], "undeclared-emit", "an undeclared event was emitted in development");
			}
		}
	}

	async run() {
		const { steps } = this.plan;
		for (let i = 0; i < steps.length; i++) {
			const a = steps[i];
			this.step = i;
			this.log("step", i, a.op);
			this.armedDuring = this.arms.length > 0 || this.faults.length > 0;
			if (a.op === "arm") this.arms.push(a);
			else if (a.op === "fault") this.faults.push(a);
			else if (a.op === "tick") {
				await this.env.clock.advance(a.dt);
				this.ctx.count("op:tick");
			} else if (a.op === "resolve") {
				if (this.deferred.length) {
					const [d] = this.deferred.splice(a.i % this.deferred.length, 1);
					this.ctx.fault(a.ok ? "promise:resolve" : "promise:reject");
					const p = a.ok ? Promise.resolve() : Promise.reject(new InjectedFault("rejected"));
					p.then(
						() => d.settle(true),
						() => d.settle(false),
					);
				}
			} else if (a.op === "deliver") {
				for (let n = 0; n < a.n && this.tasks.length; n++) {
					const t = this.tasks.shift();
					this.ctx.fault("delayed-delivery");
					this.call(t.run);
				}
			} else if (a.op === "storm") {
				this.ctx.count("op:storm");
				await this.opStorm(a);
			} else this.act(a);
			await drainMicrotasks();
			this.check(i);
			if (this.ctx.done()) return;
		}
		await this.finish();
	}

	check() {
		const { env } = this;
		const now = env.clock.now;
		// --- elements
		for (const rec of this.hosts) {
			const { inst } = rec;
			if (rec.active !== rec.el.isConnected) continue;
			if (rec.active) {
				rec.silentHtml = undefined;
				if (this.frozen(rec)) {
					if (this.cfg.probe === "isolated-reconnect" && rec.id === 0) this.checkRevived(rec);
					continue;
				}
				const truth = inst.get();
				if (inst.lazyUntil > now) continue;
				if (rec.src.adapter === "custom") {
					if (this.cfg.delivery === "late") continue;
					if (this.tasks.length) continue;
				}
				if (rec.faultV !== undefined && rec.faultV === truth.v) continue;
				const want = expectedView(truth);
				want.flip = inst.flip();
				if (rec.group.cfg.states) want.f = `${truth.v}|${want.log}|${want.tags}|${want.flip}`;
				const got = this.extract(rec);
				this.ctx.count("freshness-checks");
				const bad = Object.keys(want).filter((k) => want[k] !== got[k]);
				if (bad.length) {
					const props = ["C01"];
					if (rec.discEver) props.push("C03");
					if (rec.src.scope === "shared" && this.hosts.some((h) => h.src === rec.src && h.discEver)) props.push("C04");
					if (rec.src.scope === "isolated") props.push("C05");
					if (rec.faultV !== undefined || this.injected.length) props.push("C11");
					if (Number(got.v) < rec.lastDomV || (got.f !== want.f) !== bad.some((k) => k !== "f")) props.push("C02");
					if (this.cfg.reentrancy) props.push("C12");
					this.violate(props, `stale-dom:${bad[0]}`, `element ${rec.id} (${rec.src.kind}, ${this.cfg.renderer}) shows ${bad.map((k) => `${k}=${JSON.stringify(got[k])}`).join(" ")}, source is at ${bad.map((k) => `${k}=${JSON.stringify(want[k])}`).join(" ")}`);
				} else {
					rec.lastDomV = truth.v;
				}
			} else if (rec.everConnected) {
				const html = rec.el.shadowRoot.innerHTML;
				if (rec.silentHtml === undefined) rec.silentHtml = html;
				else if (rec.silentHtml !== html) {
					this.violate(["C03"], "dirty-while-disconnected", `the DOM of element ${rec.id} changed while it was disconnected`);
				}
				this.ctx.count("silence-checks");
			}
		}
		// --- histories
		for (const inst of this.instances) {
			const log = inst.get().log;
			const timerIds = new Set(inst.timers.map((t) => t.id));
			const main = timerIds.size ? log.filter((x) => !timerIds.has(x)) : log;
			this.ctx.count("history-checks");
			// An actor stopped while it works off its mailbox (its element was removed
			// from inside one of its notifications) drops what is sent from then on.
			const cut = this.cfg.reentrancy && inst.kind === "xstate" && !inst.alive();
			const expected = cut ? inst.expected.slice(0, main.length) : inst.expected;
			if (main.join() !== expected.join()) {
				const props = ["C06"];
				if (inst.owner !== null || this.instances.length > 1) props.push("C05");
				if (this.cfg.reentrancy) props.push("C12");
				if (this.injected.length) props.push("C11");
				if (main.some((x) => inst.rejected.has(x))) props.push("C03");
				this.violate(props, "history", `${inst.kind} source ${inst.id} has the history [${main}] but accepted [${inst.expected}]`);
			}
			if (!cut && inst.alive() && inst.flip() !== (inst.flips % 2 ? "b" : "a")) {
				this.violate(["C06", ...(this.cfg.reentrancy ? ["C12"] : [])], "history", `${inst.kind} source ${inst.id} is flipped to ${inst.flip()} after ${inst.flips} FLIP events`);
			}
			for (const t of inst.timers) {
				const n = log.filter((x) => x === t.id).length;
				if (n > 1) this.violate(["C06"], "timer-twice", `timer event ${t.id} applied ${n} times`);
				if (t.dead && n > 0) this.violate(["C04", "C07"], "zombie-timer", `timer event ${t.id} of a torn-down element still fired`);
				if (!t.dead && !inst.done && t.at < now && n === 0) this.violate(["C06", "C04"], "timer-lost", `timer event ${t.id} never fired`);
			}
		}
		this.checkLifecycles();
		this.checkErrors();
	}

	// Only in the dedicated probe of a known finding: an isolated element that is
	// connected again should answer to its events (with its old or a fresh state).
	checkRevived(rec) {
		const before = rec.el.shadowRoot.innerHTML;
		const ev = { type: "ADD", id: "revive", n: 1 };
		this.call(() => rec.args?.send(ev));
		if (rec.el.shadowRoot.innerHTML === before) {
			this.violate(["C03"], "isolated-reconnect-dead", `element ${rec.id} (${rec.src.kind}) was moved and no longer reacts to its own events`);
		}
	}

	checkLifecycles() {
		const bySource = new Map();
		for (const g of this.groups) {
			if (g.src.scope !== "shared") continue;
			let never = 0;
			for (const h of this.hosts) {
				if (h.group !== g || h.everConnected) continue;
				if (g.cfg.cleanup === false || h.bornRelease === g.releases) never++;
			}
			const e = bySource.get(g.src) ?? { bound: 0, connected: 0 };
			e.bound += g.active + never;
			e.connected += g.active;
			bySource.set(g.src, e);
		}
		for (const [src, e] of bySource) {
			const { inst } = src;
			const own = inst.ownSubs ?? 0;
			this.ctx.count("lifecycle-checks");
			if (!inst.done && !inst.alive()) {
				this.violate(["C04"], "user-source-stopped", `a user-owned ${inst.kind} source was stopped`);
			}
			// Inside a running MobX reaction other stores get observed by that reaction
			// until its next run; wait for the final tear-down in such runs.
			const subs = (inst.observers ? (this.nestingPossible && !this.final ? 0 : inst.observers()) : inst.hubListeners ? inst.hubListeners.size : inst.subs) - own;
			if (!inst.done && subs > e.bound) {
				this.violate(["C07", ...(e.connected ? [] : ["C04"])], "subscription-leak", `${subs} subscriptions on a shared ${inst.kind} source with ${e.connected} connected elements`);
			}
			if (src.adapters) {
				const live = src.adapters.filter((r) => r.stops === 0).length;
				for (const r of src.adapters) {
					if (r.stops > 1) this.violate(["C04"], "stopped-twice", "a shared adapter was stopped more than once");
					if (r.sendsAfterStop || r.subsAfterStop) this.violate(["C04"], "used-after-stop", "a stopped shared adapter was used again");
				}
				const groups = this.groups.filter((g) => g.src === src);
				const stops = src.adapters.reduce((n, r) => n + r.stops, 0);
				const releases = groups.reduce((n, g) => n + g.releases, 0);
				if (stops !== releases) {
					this.violate(["C04"], "stop-count", `shared adapters stopped ${stops} times, but the last element left ${releases} times`);
				}
				if (live > groups.length) {
					this.violate(["C04"], "not-shared", `${live} live adapters for ${groups.length} shared components`);
				}
			}
		}
		for (const rec of this.hosts) {
			if (rec.src.scope !== "isolated") continue;
			const { inst } = rec;
			if (rec.active && !rec.discEver && !inst.done && !inst.alive()) {
				this.violate(["C04", "C05"], "stopped-early", `the source of connected element ${rec.id} was stopped`);
			}
			if (rec.discEver) {
				if (inst.kind === "xstate" && !inst.done && inst.alive()) this.violate(["C04", "C07"], "not-stopped", `the actor of disconnected element ${rec.id} is still running`);
				const subs = inst.observers ? (this.nestingPossible && !this.final ? 0 : inst.observers()) : inst.hubListeners ? inst.hubListeners.size : inst.subs;
				if (subs > 0) this.violate(["C07"], "subscription-leak", `${subs} subscriptions remain on the source of disconnected element ${rec.id}`);
			}
		}
		for (const inst of this.instances) {
			if (!inst.orphan) continue;
			this.ctx.count("orphan-checks");
			if (inst.kind === "xstate" && inst.alive()) this.violate(["C07", "C11"], "orphan-running", "an element failed to be constructed, but the actor made for it is still running");
			const subs = inst.observers ? (this.nestingPossible && !this.final ? 0 : inst.observers()) : inst.hubListeners ? inst.hubListeners.size : inst.subs;
			if (subs > 0) this.violate(["C07", "C11"], "subscription-leak", `an element failed to be constructed, but ${subs} subscriptions remain on the ${inst.kind} source made for it`);
		}
		for (const src of this.sources) {
			if (src.scope !== "isolated" || !src.adapters) continue;
			for (const r of src.adapters) {
				if (r.inst.orphan && r.stops !== 1) this.violate(["C04", "C07"], "stop-count", `the adapter of an element that failed to be constructed was stopped ${r.stops} times`);
				const owner = this.hosts.find((h) => h.inst === r.inst);
				if (!owner) continue;
				const want = owner.discEver ? 1 : 0;
				if (r.stops !== want) this.violate(["C04"], "stop-count", `the adapter of element ${owner.id} was stopped ${r.stops} times, expected ${want}`);
			}
		}
		const insts = new Set();
		for (const rec of this.hosts) {
			if (rec.src.scope !== "isolated") continue;
			if (insts.has(rec.inst)) this.violate(["C05"], "shared-instance", "two isolated elements use one source");
			insts.add(rec.inst);
		}
	}

	checkErrors() {
		for (; (this.errSeen ?? 0) < this.env.errors.length; ) {
			const { where, error } = this.env.errors[this.errSeen ?? 0];
			this.errSeen = (this.errSeen ?? 0) + 1;
			this.log("error", where, String(error?.message ?? error).slice(0, 80));
			if (error instanceof InjectedFault) {
				this.surfaced.add(error);
				continue;
			}
			const props = ["C11"];
			if (this.cfg.reentrancy) props.push("C12");
			if (this.hosts.some((h) => h.discEver)) props.push("C03");
			if (this.groups.some((g) => g.releases > 0)) props.push("C04");
			this.violate(props, "unexpected-error", `${where}: ${error?.message ?? error}`);
		}
		for (const [level, args] of this.env.console) {
			if (level !== "error") continue;
			for (const x of args) if (x instanceof InjectedFault) this.surfaced.add(x);
		}
	}

	async finish() {
		// Faults stop; drain everything in flight and require convergence.
		this.step = this.plan.steps.length;
		this.arms = [];
		this.faults = [];
		for (let n = 0; n < 200 && (this.tasks.length || this.deferred.length); n++) {
			if (this.tasks.length) this.call(this.tasks.shift().run);
			else this.deferred.shift().settle(true);
			await drainMicrotasks();
		}
		await this.env.clock.advance(5000);
		await drainMicrotasks();
		this.check();
		if (this.ctx.done()) return;
		// one more event for every live source: everybody must follow
		this.step++;
		let n = 0;
		for (const inst of this.instances) {
			const ev = { type: "ADD", id: `z${n++}` };
			this.dispatch(inst, ev, () => inst.send(ev), true);
		}
		for (let i = 0; i < 200 && this.tasks.length; i++) this.call(this.tasks.shift().run);
		await drainMicrotasks();
		await this.env.clock.advance(100);
		this.check();
		if (this.ctx.done()) return;
		// tear down: nothing may stay behind
		this.step++;
		this.final = true;
		for (const s of this.slots) this.call(() => s.el.remove());
		for (const b of this.boxes) b.textContent = "";
		await drainMicrotasks();
		this.check();
		for (let i = 0; i < 200 && this.tasks.length; i++) this.call(this.tasks.shift().run);
		await this.env.clock.advance(10000);
		await drainMicrotasks();
		this.check();
		for (const e of this.injected) {
			if (!this.surfaced.has(e)) this.violate(["C11"], "swallowed-error", `${e.message} was swallowed`);
		}
		this.ctx.time(this.env.clock.now);
	}
}

export async function execute(plan, ctx) {
	const env = createEnv({ seed: 1, nodeEnv: plan.cfg.nodeEnv });
	const w = new World(plan, env, ctx);
	try {
		await w.init();
		await w.run();
	} finally {
		env.dispose();
	}
}
