// World "values": what the state, the events and the emitted payloads are made
// of.  A source goes back and forth between a few arbitrary values (the very same
// objects again and again, falsy and odd ones included); elements come and go.
import { createEnv, drainMicrotasks } from "../env.mjs";

export const name = "values";

const KINDS = ["redux-store", "redux-factory", "redux-slice", "xstate-machine", "xstate-actor", "mobx-store", "mobx-factory", "custom-shared", "custom-isolated"];
const SHARED = new Set(["redux-store", "xstate-actor", "mobx-store", "custom-shared"]);

// ---------------------------------------------------------------- generation
const STRINGS = ["", " ", "0", "false", "null", "undefined", "a", "<b>&amp;</b>", "é\u0000\u200b\u{1F600}", "line\nbreak", "constructor", "__proto__", "toString"];
function genScalar(rng) {
	return rng.weighted([
		[{ n: rng.pick([0, 1, -1, 0.1, 1e21, 2 ** 53]) }, 4],
		[{ odd: rng.pick(["nan", "negzero", "inf", "undef", "null", "big", "date"]) }, 4],
		[{ s: rng.pick(STRINGS) }, 5],
		[{ b: rng.bool() }, 3],
	]);
}
function genValue(rng, depth) {
	const kind = rng.weighted([["scalar", 4], ["list", depth > 0 ? 3 : 0], ["obj", depth > 0 ? 4 : 0], ["map", depth > 0 ? 0.6 : 0], ["set", depth > 0 ? 0.4 : 0]]);
	if (kind === "scalar") return genScalar(rng);
	const n = rng.int(4);
	const out = [];
	for (let i = 0; i < n; i++) {
		const v = genValue(rng, depth - 1);
		out.push(kind === "list" || kind === "set" ? v : [rng.pick(["a", "b", "c", "length", "value", "type", "state", "render", "then", ""]), v]);
	}
	return { [kind]: out };
}
function near(rng, v) {
	// a value that differs from v as little as possible
	if (v.list) return { list: v.list.length && rng.bool() ? v.list.slice(0, -1) : [...v.list, genScalar(rng)] };
	if (v.obj) return { obj: v.obj.length && rng.bool() ? v.obj.slice(1) : [...v.obj, ["z", genScalar(rng)]] };
	if ("n" in v) return { s: String(v.n) };
	if ("s" in v) return { s: `${v.s} ` };
	if ("b" in v) return { s: String(v.b) };
	return genScalar(rng);
}
const FALSY = [{ n: 0 }, { s: "" }, { b: false }, { odd: "nan" }, { odd: "negzero" }];

export function generate(rng, profile = {}) {
	const kind = rng.pick(profile.kinds ?? KINDS);
	const cfg = { kind, renderer: rng.pick(["jsx", "lit"]), nodeEnv: rng.pick(["development", "development", "production", "page"]), states: rng.bool(0.7), cleanup: rng.pick([null, true, false]), entry: rng.pick(["core", "specific"]) };
	// a Redux store or a custom adapter may have any value as its whole state
	cfg.root = /^(redux-(store|factory)|custom)/.test(kind) && rng.bool(0.5);
	const first = genValue(rng, 3);
	cfg.pool = [first, near(rng, first)];
	const n = rng.range(1, 4);
	for (let i = 0; i < n; i++) cfg.pool.push(cfg.root && rng.bool(0.5) ? rng.pick(FALSY) : genValue(rng, 3));
	const weights = [];
	for (const [k, w] of Object.entries({ set: 8, same: 2, back: 3, mount: 2, disconnect: 2, connect: 3, emit: 2, force: 0.5 })) {
		if (!["set", "mount"].includes(k) && rng.bool(0.15)) continue;
		weights.push([k, w]);
	}
	const steps = [{ op: "mount" }];
	const len = rng.range(4, profile.maxSteps ?? 22);
	for (let i = 0; i < len; i++) {
		const op = rng.weighted(weights);
		const a = { op, k: rng.int(16) };
		if (["set", "same", "back"].includes(op)) Object.assign(a, { i: rng.int(16), via: rng.weighted([["args", 4], ["dom", 2], ["ext", 4], ["cmd", 3]]), payload: rng.bool(0.5) ? genValue(rng, 2) : undefined });
		if (op === "emit") a.payload = rng.bool(0.15) ? undefined : genValue(rng, 2);
		steps.push(a);
	}
	return { world: name, cfg, steps };
}
export function shrinkCfg(cfg) {
	const out = [];
	if (cfg.renderer !== "jsx") out.push({ ...cfg, renderer: "jsx" });
	if (cfg.states) out.push({ ...cfg, states: false });
	cfg.pool.forEach((v, i) => {
		if (JSON.stringify(v) !== '{"n":1}') out.push({ ...cfg, pool: cfg.pool.map((x, j) => (j === i ? { n: 1 } : x)) });
	});
	return out;
}

// ------------------------------------------------------------------- values
const ODD = { nan: Number.NaN, negzero: -0, inf: Number.POSITIVE_INFINITY, undef: undefined, null: null };
function build(spec) {
	if (spec === undefined) return undefined;
	if ("n" in spec) return spec.n;
	if ("s" in spec) return spec.s;
	if ("b" in spec) return spec.b;
	if (spec.odd === "big") return BigInt("12345678901234567890");
	if (spec.odd === "date") return new Date(86400000);
	if ("odd" in spec) return ODD[spec.odd];
	if (spec.list) return Object.freeze(spec.list.map(build));
	if (spec.set) return new Set(spec.set.map(build));
	if (spec.map) return new Map(spec.map.map(([k, v]) => [k, build(v)]));
	const o = {};
	for (const [k, v] of spec.obj) o[k] = build(v);
	return Object.freeze(o);
}
export function canon(v) {
	if (typeof v === "string") return JSON.stringify(v);
	if (typeof v === "number") return Object.is(v, -0) ? "-0" : String(v);
	if (typeof v === "bigint") return `${v}n`;
	if (v === null || typeof v !== "object") return String(v);
	const tag = Object.prototype.toString.call(v);
	if (tag === "[object Date]") return `date ${v.getTime()}`;
	if (Array.isArray(v)) return `[${v.map(canon).join(",")}]`;
	if (tag === "[object Map]") return `map{${[...v].map(([k, x]) => `${canon(k)}:${canon(x)}`).join(",")}}`;
	if (tag === "[object Set]") return `set{${[...v].map(canon).join(",")}}`;
	return `{${Object.keys(v).sort().map((k) => `${JSON.stringify(k)}:${canon(v[k])}`).join(",")}}`;
}

// ---------------------------------------------------------------- execution
class Values {
	constructor(plan, env, ctx) {
		Object.assign(this, { plan, env, ctx, cfg: plan.cfg });
		this.hosts = [];
		this.byEl = new Map();
		this.cells = [];
		this.step = -1;
		this.shared = SHARED.has(this.cfg.kind);
	}
	log(...a) {
		this.ctx.log(a.join(" "));
	}
	violate(props, kind, detail) {
		for (const p of props) this.ctx.violate(p, kind, detail, this.step);
	}
	makeCell(fields) {
		const cell = { id: this.cells.length, i: 0, history: [this.canons[0]], events: [], ...fields };
		this.cells.push(cell);
		this.lastCell = cell;
		return cell;
	}

	// every source: the state is pool[i]; an event names the next i
	makeSource() {
		const { env, pool } = this;
		const { kind, root } = this.cfg;
		const rtk = env.peers["@reduxjs/toolkit"];
		const wrap = root ? (v) => v : null;
		const states = wrap ? pool : pool.map((cell) => Object.freeze({ cell }));
		const got = (ev) => this.current?.push(ev.payload);
		const unwrap = root ? (s) => s : (s) => s.cell;
		if (kind.startsWith("redux") && kind !== "redux-slice") {
			const make = () => {
				const store = rtk.configureStore({
					reducer: (s = states[0], a) => {
						if (a.type !== "SET") return s;
						got(a);
						return states[a.i];
					},
					middleware: (d) => d({ serializableCheck: false, immutableCheck: false }),
				});
				this.makeCell({ ext: (ev) => store.dispatch(ev) });
				return store;
			};
			return { adapter: "redux", source: kind === "redux-store" ? make() : make, event: (ev) => ev, cmd: (actor, ev) => actor.dispatch(ev), read: (actor) => unwrap(actor.getState()), unwrap };
		}
		if (kind === "redux-slice") {
			const slice = rtk.createSlice({
				name: "cells",
				initialState: states[0],
				reducers: {
					SET: (_s, a) => {
						this.current?.push(a.payload.payload);
						return states[a.payload.i];
					},
				},
			});
			env.storeHooks.push((store) => {
				if ("cells" in store.getState()) this.makeCell({ ext: (ev) => store.dispatch({ type: "cells/SET", payload: ev }) });
			});
			const event = (ev) => ({ type: "cells/SET", payload: ev });
			return { adapter: "redux", source: slice, event, cmd: (actor, ev) => actor.dispatch(event(ev)), read: (actor) => unwrap(actor.getState().cells), unwrap: (s) => unwrap(s.cells) };
		}
		if (kind.startsWith("xstate")) {
			const { createMachine, createActor, assign } = env.peers.xstate;
			const machine = createMachine({
				context: { cell: pool[0] },
				on: {
					SET: {
						actions: assign(({ event }) => {
							got(event);
							return { cell: pool[event.i] };
						}),
					},
				},
			});
			const common = { adapter: "xstate", event: (ev) => ev, cmd: (actor, ev) => actor.send(ev), read: (actor) => actor.state.context.cell, unwrap: (s) => s.context.cell };
			if (kind === "xstate-actor") {
				const actor = createActor(machine);
				actor.start();
				this.makeCell({ ext: (ev) => actor.send(ev) });
				return { ...common, source: actor };
			}
			env.actorHooks.push((actor) => {
				if (actor.logic === machine) this.makeCell({ ext: (ev) => actor.send(ev) });
			});
			return { ...common, source: machine };
		}
		if (kind.startsWith("mobx")) {
			const { mobx } = env.peers;
			const world = this;
			const make = () => {
				const store = mobx.observable(
					{
						cell: pool[0],
						SET(payload, ev) {
							world.current?.push(payload);
							this.cell = pool[ev.i];
						},
					},
					{ SET: mobx.action },
				);
				this.makeCell({ ext: (ev) => store.SET(ev.payload, ev) });
				return store;
			};
			const event = (ev) => ({ type: "SET", args: [ev.payload, ev] });
			return { adapter: "mobx", source: kind === "mobx-store" ? make() : make, event, cmd: (actor, ev) => actor.SET(ev.payload, ev), read: (actor) => mobx.untracked(() => mobx.toJS(actor).cell), unwrap };
		}
		// a hand-written adapter; its events may be anything at all
		const hub = () => {
			let state = states[0];
			const listeners = new Set();
			const set = (i) => {
				state = states[i];
				for (const l of [...listeners]) l(state);
			};
			const take = (ev) => {
				if (ev !== null && typeof ev === "object" && ev.type === "SET") {
					got(ev);
					set(ev.i);
				} else this.current?.push(ev);
			};
			const cell = this.makeCell({ ext: (ev) => take(ev) });
			cell.make = () => ({
				subscribe(l) {
					listeners.add(l);
					l(state);
					return { unsubscribe: () => listeners.delete(l) };
				},
				send: take,
				getState: () => state,
				stop: () => listeners.clear(),
			});
			return cell;
		};
		const shared = this.shared ? hub() : null;
		return { adapter: "custom", create: () => (shared ?? hub()).make(), event: (ev) => ev, cmd: (actor, ev) => actor.send(ev), read: (actor) => unwrap(actor.getState()), unwrap };
	}

	async init() {
		const { env, cfg } = this;
		this.pool = cfg.pool.map(build);
		if (cfg.root) this.pool = this.pool.map((v) => v ?? "-"); // null and undefined mean "not initialised"
		this.canons = this.pool.map(canon);
		this.ig = env.loadIgnite();
		const { ig } = this;
		if (cfg.renderer === "lit") await ig.index.loadIgniteConfig(async () => ({ default: { renderer: "lit" } }));
		this.src = this.makeSource();
		const { src } = this;
		const states = cfg.states
			? (snap) => {
					const v = src.adapter === "xstate" ? snap.context.cell : src.unwrap(snap);
					// some derived values exist for some states only
					return Array.isArray(v) ? { derived: canon(v), raw: v, size: v.length } : { derived: canon(v), raw: v };
				}
			: undefined;
		const commands = ({ actor, emit, host }) => {
			this.register(host);
			return { me: () => host, put: (ev) => src.cmd(actor, ev), see: () => src.read(actor), tell: (x) => emit("tell", x) };
		};
		let factory;
		if (src.adapter === "custom") {
			const create = src.create;
			if (this.shared) create.scope = "shared";
			const o = { states, commands, events: { tell: ig.index.event() } };
			if (cfg.cleanup !== null) o.cleanup = cfg.cleanup;
			factory = ig.factory.createComponentFactory(create, o);
		} else {
			const o = { source: src.source, states, commands, events: (event) => ({ tell: event() }) };
			if (cfg.cleanup !== null) o.cleanup = cfg.cleanup;
			factory = (cfg.entry === "core" ? ig.core : ig[src.adapter]).igniteCore(o);
		}
		factory("ig-cell", (args) => this.view(args));
	}

	register(el) {
		if (this.byEl.has(el)) return;
		const rec = { id: this.hosts.length, el, cell: this.shared ? this.cells[0] : this.lastCell, connected: false, dead: false, at: 0, told: [] };
		el.addEventListener("tell", (e) => rec.told.push(e.detail));
		this.hosts.push(rec);
		this.byEl.set(el, rec);
	}

	view(args) {
		const rec = this.byEl.get(args.me());
		const value = this.src.unwrap(args.state);
		const text = canon(value);
		rec.args = args;
		this.ctx.count("renders");
		this.log("view", rec.id, text);
		if (!rec.connected) this.violate(["C03"], "render-while-disconnected", `element ${rec.id} rendered while it was disconnected`);
		// the states rendered are states the source had, in order
		const { history } = rec.cell;
		if (!rec.dead) {
			let at = rec.at;
			while (at < history.length && history[at] !== text) at++;
			if (at === history.length) this.violate(["C02"], "time-travel", `element ${rec.id} (${this.cfg.kind}) rendered ${text}; its source went through ${history.slice(rec.at).join(" ")} since its last render`);
			else rec.at = at;
		}
		if (!rec.dead && "size" in args && args.size !== (Array.isArray(value) ? value.length : undefined)) this.violate(["C02"], "old-facade", `element ${rec.id} (${this.cfg.kind}) saw the derived value ${args.size} beside the state ${text}`);
		const kids = Array.isArray(value) ? value.map(canon) : [];
		const derived = this.cfg.states ? `${args.derived} ${canon(args.raw)}` : "-";
		if (this.cfg.renderer === "lit") {
			const { html } = this.env.peers["lit-html"];
			return html`<div data-c=${text}><b>${text}</b><i>${derived}</i><ul>${kids.map((k) => html`<li>${k}</li>`)}</ul></div>`;
		}
		const { jsx } = this.ig.jsxRuntime;
		return jsx("div", { "data-c": text, children: [jsx("b", { children: text }), jsx("i", { children: derived }), jsx("ul", { children: kids.map((k) => jsx("li", { children: k })) })] });
	}

	pick(k, filter) {
		const list = this.hosts.filter(filter);
		return list.length ? list[k % list.length] : null;
	}
	async act(a) {
		const { env } = this;
		const { document, window } = env;
		this.ctx.count(`op:${a.op}`);
		switch (a.op) {
			case "mount": {
				if (this.hosts.length >= 4) return;
				const el = document.createElement("ig-cell");
				const rec = this.byEl.get(el);
				if (!rec) throw new Error("the element was not created");
				rec.connected = true;
				rec.at = rec.cell.history.length - 1;
				document.body.appendChild(el);
				return;
			}
			case "disconnect": {
				const rec = this.pick(a.k, (h) => h.connected);
				if (!rec) return;
				rec.connected = false;
				if (!this.shared) rec.dead = true; // known finding: it does not resume
				rec.el.remove();
				rec.html = rec.el.shadowRoot.innerHTML;
				return;
			}
			case "connect": {
				const rec = this.pick(a.k, (h) => !h.connected && !h.dead);
				if (!rec) return;
				rec.connected = true;
				rec.html = undefined;
				rec.at = rec.cell.history.length - 1;
				document.body.appendChild(rec.el);
				return;
			}
			case "force": {
				this.pick(a.k, (h) => h.connected)?.el.forceRender();
				return;
			}
			case "set":
			case "same":
			case "back": {
				const rec = this.pick(a.k, (h) => h.connected && !h.dead);
				if (!rec) return;
				const { cell } = rec;
				const i = a.op === "set" ? a.i % this.pool.length : a.op === "same" ? cell.i : 0;
				const payload = build(a.payload);
				const ev = { type: "SET", i, payload };
				this.log("set", cell.id, this.canons[i], a.via);
				cell.i = i;
				cell.history.push(this.canons[i]);
				this.current = [];
				if (a.via === "ext") cell.ext(ev);
				else if (a.via === "cmd") rec.args.put(ev);
				else if (a.via === "dom") rec.el.dispatchEvent(new window.CustomEvent("send", { detail: this.src.event(ev) }));
				else {
					rec.args.send(this.src.event(ev));
					if (this.src.adapter === "custom") {
						// anything can be an event
						rec.args.send(payload);
						if (this.current.length !== 2 || !Object.is(this.current[1], payload)) this.violate(["C06"], "event-changed", `the event ${canon(payload)} sent through element ${rec.id} arrived as [${this.current.slice(1).map(canon)}]`);
						this.current.length = Math.min(this.current.length, 1);
					}
				}
				this.ctx.count("payload-checks");
				if (this.current.length !== 1 || canon(this.current[0]) !== canon(payload)) this.violate(["C06"], "event-changed", `an event with the payload ${canon(payload)} (${this.cfg.kind}, ${a.via}) arrived as [${this.current.map(canon)}]`);
				this.current = null;
				const seen = canon(rec.args.see());
				if (seen !== this.canons[i]) this.violate(["C06"], "command-read", `a command (${this.cfg.kind}) reads ${seen}, the source is at ${this.canons[i]}`);
				return;
			}
			case "emit": {
				const rec = this.pick(a.k, (h) => h.connected && !h.dead);
				if (!rec) return;
				const payload = build(a.payload);
				const before = rec.told.length;
				rec.args.tell(payload);
				const told = rec.told.slice(before);
				this.ctx.count("payload-checks");
				// an absent payload arrives as null, as for every CustomEvent
				const want = payload === undefined ? null : payload;
				if (told.length !== 1 || !Object.is(told[0], want)) this.violate(["C06"], "emit-changed", `the payload ${canon(want)} of an emitted event arrived as [${told.map(canon)}]`);
				return;
			}
			default:
		}
	}
	check() {
		for (const rec of this.hosts) {
			const root = rec.el.shadowRoot;
			if (!rec.connected) {
				if (rec.html !== undefined && root.innerHTML !== rec.html) this.violate(["C03"], "changed-while-disconnected", `element ${rec.id} changed while it was disconnected`);
				continue;
			}
			if (rec.dead) continue;
			this.ctx.count("freshness-checks");
			const i = rec.cell.i;
			const text = this.canons[i];
			const value = this.pool[i];
			const show = (sel) => [...root.querySelectorAll(sel)].map((n) => n.textContent).join(" ");
			const got = [root.querySelector("div")?.getAttribute("data-c"), show("b"), show("i"), show("li")];
			const want = [text, text, this.cfg.states ? `${text} ${text}` : "-", Array.isArray(value) ? value.map(canon).join(" ") : ""];
			if (got.join("\n") !== want.join("\n")) this.violate(["C01"], "stale", `element ${rec.id} (${this.cfg.kind}) shows ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`);
		}
		this.pool.forEach((v, i) => {
			if (canon(v) !== this.canons[i]) this.violate(["C02"], "state-modified", `a state of the source was modified: ${this.canons[i]} became ${canon(v)}`);
		});
		for (; (this.errSeen ?? 0) < this.env.errors.length; ) {
			const { where, error } = this.env.errors[this.errSeen ?? 0];
			this.errSeen = (this.errSeen ?? 0) + 1;
			this.violate(["C01"], "unexpected-error", `${where}: ${error?.stack?.slice(0, 300) ?? error}`);
		}
	}
	async run() {
		await this.init();
		for (let i = 0; i < this.plan.steps.length; i++) {
			this.step = i;
			const a = this.plan.steps[i];
			this.log("step", i, a.op);
			try {
				await this.act(a);
			} catch (error) {
				this.env.errors.push({ where: a.op, error });
			}
			await drainMicrotasks();
			this.check();
			if (this.ctx.done()) return;
		}
	}
}

export async function execute(plan, ctx) {
	const env = createEnv({ seed: plan.seed, nodeEnv: plan.cfg.nodeEnv });
	try {
		const w = new Values(plan, env, ctx);
		await w.run();
		ctx.time(env.clock.now);
	} finally {
		env.dispose();
	}
}
