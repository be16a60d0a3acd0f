// World "boot": how a page comes up.  Configuration modules and renderer chunks
// are requested through simulated loads that arrive late, out of order or not at
// all, while components are registered, elements created, connected, rendered
// and removed, and styles are set directly.  Also run without a DOM (server).
import { createEnv, drainMicrotasks } from "../env.mjs";

export const name = "boot";

const STYLES = [
	"/a.css",
	"https://cdn.test/b.css?v=1#x",
	"./c.scss",
	{ href: "/d.css", integrity: "sha384-x", crossOrigin: "anonymous" },
	{ href: "https://cdn.test/e", crossOrigin: "use-credentials" },
	{ href: "/f.css" },
	"/g.css#part",
	{ href: "/a.css", integrity: "sha256-y" },
	" /h.css ",
	"../Themes/Dark%20Mode.css?v=X1",
	{ href: "./Up/J.scss", integrity: "sha384-Zz==", crossOrigin: "" },
	"not-a-stylesheet",
	"",
	null,
	"/page.html?theme=a.css",
	"/i.css.map#.css",
];
const USABLE = 11;

class InjectedFault extends Error {}

// ---------------------------------------------------------------- generation
function genConfig(rng) {
	const c = {};
	if (rng.bool(0.65)) c.styles = rng.bool(0.85) ? rng.int(USABLE) : rng.range(USABLE, STYLES.length - 1);
	else if (rng.bool(0.2)) c.globalStyles = rng.int(USABLE);
	if (rng.bool(0.05)) c.undef = true; // styles: undefined
	if (rng.bool(0.08)) c.array = true; // unusable styles
	if (rng.bool(0.65)) c.renderer = rng.weighted([["lit", 6], ["ignite-jsx", 3], ["bogus", 1]]);
	if (rng.bool(0.3)) c.strategy = rng.pick(["diff", "replace"]);
	if (rng.bool(0.2)) c.logging = rng.pick(["off", "warn", "debug"]);
	return c;
}

export function generate(rng, profile = {}) {
	const ssr = profile.ssr ?? rng.bool(0.12);
	const cfg = { ssr, faults: profile.faults ?? rng.bool(0.5), nodeEnv: ssr ? rng.pick(["development", "production"]) : rng.pick(["development", "development", "production", "page"]) };
	const n = rng.range(6, profile.maxSteps ?? 30);
	const base = {
		load: 4, arrive: 7, chunk: 6, styles: 1.2, define: 0.8, register: 4, create: 4, mount: 5, connect: 4, disconnect: 3, update: 7, crowd: 0.3, lit: 0.4, tick: 0.3,
		...(profile.weights ?? {}),
	};
	const weights = [];
	for (const [k, w] of Object.entries(base)) {
		if (["styles", "define", "lit", "disconnect", "create"].includes(k) && rng.bool(0.25)) continue;
		weights.push([k, w * (0.3 + 1.4 * rng.float())]);
	}
	const steps = [];
	let waiting = 0;
	let coming = 0;
	if (rng.bool(0.5)) steps.push({ op: "register", kind: 0, how: "default" });
	for (let i = 0; i < n; i++) {
		let op = rng.weighted(weights);
		if (op === "arrive" && waiting <= 0) op = "load";
		if (op === "chunk" && coming <= 0) op = waiting > 0 ? "arrive" : "update";
		if (op === "load") waiting++;
		if (op === "arrive") {
			waiting--;
			coming++;
		}
		if (op === "chunk") coming--;
		switch (op) {
			case "load":
				steps.push({ op, c: genConfig(rng), again: rng.bool(0.2) ? rng.int(8) : null, shape: rng.weighted([["default", 6], ["plain", 2], ["empty", cfg.faults ? 0.8 : 0], ["null", cfg.faults ? 0.6 : 0], ["string", cfg.faults ? 0.4 : 0], ["throw", cfg.faults ? 0.6 : 0]]) });
				break;
			case "arrive":
			case "chunk":
				steps.push({ op, i: rng.int(8), ok: cfg.faults ? rng.bool(op === "chunk" ? 0.6 : 0.75) : true });
				break;
			case "styles":
				steps.push({ op, s: rng.bool(0.8) ? rng.int(USABLE) : rng.range(USABLE, STYLES.length) });
				break;
			case "define":
				steps.push({ op, c: genConfig(rng) });
				break;
			case "register":
				steps.push({ op, kind: rng.int(3), how: rng.weighted([["default", 8], ["lit", 1], ["jsx", 1]]), own: rng.bool(0.2) });
				break;
			case "create":
			case "mount":
				steps.push({ op, k: rng.int(16), html: rng.bool(0.3) });
				break;
			case "crowd":
				steps.push({ op, k: rng.int(16), n: rng.pick([5, 12, 30, 60]) });
				break;
			case "connect":
			case "disconnect":
				steps.push({ op, k: rng.int(16) });
				break;
			case "update":
				steps.push({ op, k: rng.int(16), n: rng.int(4) });
				break;
			default:
				steps.push({ op });
		}
	}
	return { world: name, cfg, steps };
}

export function shrinkCfg(cfg) {
	return cfg.nodeEnv === "development" ? [] : [{ ...cfg, nodeEnv: "development" }];
}
export function shrinkStep(step) {
	const out = [];
	if (step.c) for (const k of Object.keys(step.c)) {
		const c = { ...step.c };
		delete c[k];
		out.push({ ...step, c });
	}
	if (step.shape && step.shape !== "default") out.push({ ...step, shape: "default" });
	return out;
}

const realConfig = (c) => {
	const out = {};
	if ("globalStyles" in c) out.globalStyles = STYLES[c.globalStyles];
	if ("styles" in c) out.styles = STYLES[c.styles];
	if (c.undef) out.styles = undefined;
	if (c.array) out.styles = ["/a.css"];
	for (const k of ["renderer", "strategy", "logging"]) if (k in c) out[k] = c[k];
	return out;
};
// What the documented normalisation makes of it.
const normal = (c) => {
	const out = {};
	const real = realConfig(c);
	const styles = "styles" in real ? real.styles : real.globalStyles;
	if (styles !== undefined) out.styles = styles;
	if ("renderer" in real) out.renderer = ["lit", "ignite-jsx"].includes(real.renderer) ? real.renderer : "lit";
	if ("strategy" in real) out.strategy = real.strategy;
	if ("logging" in real) out.logging = real.logging;
	return out;
};
const stylesheet = (s) => {
	if (!s) return null;
	if (typeof s === "string") return /\.s?css$/.test(s.trim().split("?")[0].split("#")[0]) ? { href: s } : { none: true };
	return s;
};
const canon = (x) => JSON.stringify(x, (k, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort()) : v));

// ----------------------------------------------------------------- execution
class Boot {
	constructor(plan, env, ctx) {
		Object.assign(this, { plan, env, ctx, cfg: plan.cfg });
		this.loads = [];
		this.chunks = [];
		this.components = [];
		this.hosts = [];
		this.active = undefined;
		this.styles = undefined;
		this.usable = new Set(["ignite-jsx"]);
		this.errSeen = 0;
		this.next = 0;
	}
	log(...a) {
		this.ctx.log(a.join(" "));
	}
	violate(props, kind, detail) {
		for (const p of props) this.ctx.violate(p, kind, detail, this.step);
	}
	init() {
		const { env } = this;
		env.importPolicy = (target, load) =>
			new Promise((resolve, reject) => {
				const renderer = /[/\\]lit\b/.test(target) ? "lit" : "ignite-jsx";
				this.log("request", renderer);
				this.chunks.push({ renderer, load, resolve, reject });
			});
		this.ig = env.loadIgnite();
		this.litHtml = this.cfg.ssr ? null : env.peers["lit-html"];
	}

	// ---- model
	applyConfig(c, flush) {
		const n = normal(c);
		this.active = n;
		if ("styles" in n) this.styles = n.styles;
		if (flush) this.flush();
	}
	flush() {
		if (!this.styles) return;
		for (const h of this.hosts) if (h.link === undefined) h.link = stylesheet(this.styles);
	}

	// ---- operations
	call(where, fn) {
		try {
			return fn();
		} catch (error) {
			this.env.errors.push({ where, error });
			return undefined;
		}
	}
	act(a) {
		const { ig, env } = this;
		const { document } = env;
		this.ctx.count(`op:${a.op}`);
		switch (a.op) {
			case "load": {
				if (this.loads.filter((l) => !l.arrived).length >= 5) return;
				const load = { id: this.loads.length, c: a.c, shape: a.shape, state: "pending" };
				load.error = new InjectedFault(`load ${load.id}`);
				let module;
				const conf = realConfig(a.c);
				if (a.shape === "default") module = { default: conf };
				else if (a.shape === "plain") module = conf;
				else if (a.shape === "empty") module = { default: undefined };
				else if (a.shape === "string") module = { default: "config" };
				else module = null;
				load.module = module;
				load.ask = () => {
					load.asked = (load.asked ?? 0) + 1;
					if (a.shape === "throw") {
						this.ctx.fault("loader-throws");
						load.arrived = true;
						load.failed = true;
						throw load.error;
					}
					return new Promise((resolve, reject) => {
						load.settle = (ok) => {
							load.arrived = true;
							if (ok) resolve(module);
							else reject(load.error);
						};
					});
				};
				// the same loader function may be handed in again
				const settled = a.again == null ? [] : this.loads.filter((l) => l.state !== "pending");
				if (settled.length) {
					load.fn = settled[a.again % settled.length].fn;
					load.fn.load = load;
					this.ctx.count("same-loader");
				} else load.fn = Object.assign(() => load.fn.load.ask(), { load });
				const p = ig.index.loadIgniteConfig(load.fn);
				p.then(
					(v) => {
						load.state = "resolved";
						load.value = v;
						this.onResolved(load);
					},
					(e) => {
						load.state = "rejected";
						load.reason = e;
						this.log("load", load.id, "rejected", String(e?.message ?? e).slice(0, 50));
					},
				);
				this.loads.push(load);
				return;
			}
			case "arrive": {
				const open = this.loads.filter((l) => l.settle && !l.arrived);
				if (!open.length) return;
				const load = open[a.i % open.length];
				if (open.length > 1 && load !== open[0]) this.ctx.fault("config-reordered");
				this.log("arrive", load.id, a.ok ? "ok" : "fail");
				if (!a.ok) {
					this.ctx.fault("config-load-fails");
					load.failed = true;
				} else {
					this.ctx.count("config-arrived");
					load.config = load.module && typeof load.module === "object" ? ("default" in load.module ? (typeof load.module.default === "object" ? load.module.default : undefined) : load.module) : undefined;
					if (load.config && load.c.array && !load.c.undef) load.unusable = true;
					if (load.config && Array.isArray(load.config.styles)) load.unusable = true;
					if (!load.config || load.unusable) this.ctx.fault("config-unusable");
					if (load.config && !load.unusable) {
						this.applyConfig(load.c, !this.cfg.ssr);
						load.renderer = this.active.renderer ?? "ignite-jsx";
						load.want = this.active;
					}
				}
				load.settle(a.ok);
				return;
			}
			case "chunk": {
				if (!this.chunks.length) return;
				const i = a.i % this.chunks.length;
				const [ch] = this.chunks.splice(i, 1);
				if (i > 0) this.ctx.fault("chunk-reordered");
				this.log("chunk", ch.renderer, a.ok ? "ok" : "fail");
				if (!a.ok) {
					this.ctx.fault("chunk-load-fails");
					ch.error = new InjectedFault(`chunk ${ch.renderer}`);
					for (const l of this.loads) if (l.want && l.state === "pending" && l.renderer === ch.renderer) (l.chunkErrors ??= []).push(ch.error);
					ch.reject(ch.error);
				} else {
					this.usable.add(ch.renderer);
					for (const l of this.loads) if (l.want && l.state === "pending" && l.renderer === ch.renderer) l.chunkOk = true;
					ch.resolve(this.call("chunk", ch.load));
				}
				return;
			}
			case "lit":
				if (this.cfg.ssr) return;
				this.usable.add("lit");
				this.call("lit", () => ig.__lazy.lit());
				return;
			case "styles": {
				const s = a.s >= STYLES.length ? undefined : STYLES[a.s];
				this.styles = s;
				this.call("setGlobalStyles", () => ig.index.setGlobalStyles(s));
				return;
			}
			case "define": {
				const c = realConfig(a.c);
				if (Array.isArray(c.styles)) {
					let threw = false;
					try {
						ig.index.defineIgniteConfig(c);
					} catch {
						threw = true;
					}
					if (!threw) this.violate(["C14"], "unusable-accepted", "a configuration with an array of styles was accepted");
					this.ctx.fault("config-unusable");
					return;
				}
				this.applyConfig(a.c, false);
				const got = this.call("define", () => ig.index.defineIgniteConfig(c));
				if (canon(got) !== canon(this.active)) this.violate(["C14"], "define-result", `defining a configuration returned ${canon(got)}, expected ${canon(this.active)}`);
				return;
			}
			case "register":
				this.register(a);
				return;
			case "create":
			case "mount": {
				if (this.cfg.ssr || !this.components.length || this.hosts.length >= 10) return;
				const c = this.components[a.k % this.components.length];
				let el;
				if (a.html && a.op === "mount") {
					this.call("html", () => document.body.insertAdjacentHTML("beforeend", `<${c.tag}></${c.tag}>`));
					el = document.body.lastElementChild;
				} else el = this.call("create", () => document.createElement(c.tag));
				if (!el) return;
				this.hosts.push({ id: this.hosts.length, el, c, link: this.styles ? stylesheet(this.styles) : undefined, ever: el.isConnected });
				if (a.op === "mount" && !el.isConnected) this.call("append", () => document.body.append(el));
				if (el.isConnected) this.hosts.at(-1).ever = true;
				return;
			}
			case "crowd": {
				// a page full of elements at once
				if (this.cfg.ssr || !this.components.length || this.hosts.length > 10) return;
				const c = this.components[a.k % this.components.length];
				this.ctx.fault("crowd");
				for (let i = 0; i < a.n; i++) {
					const el = this.call("create", () => document.createElement(c.tag));
					if (!el) return;
					this.hosts.push({ id: this.hosts.length, el, c, link: this.styles ? stylesheet(this.styles) : undefined, ever: true });
					if (i % 3) this.call("append", () => document.body.append(el));
				}
				return;
			}
			case "connect": {
				if (!this.hosts.length) return;
				const h = this.hosts[a.k % this.hosts.length];
				if (h.c.isolated && h.gone) return; // see the known finding of C03
				if (h.el.isConnected && h.c.isolated) return;
				this.call("append", () => document.body.append(h.el));
				h.ever = true;
				return;
			}
			case "disconnect": {
				if (!this.hosts.length) return;
				const h = this.hosts[a.k % this.hosts.length];
				if (h.el.isConnected) h.gone = true;
				this.call("remove", () => h.el.remove());
				return;
			}
			case "update": {
				if (this.cfg.ssr || !this.components.length) return;
				const c = this.components[a.k % this.components.length];
				this.call("update", () => c.update?.(a.n));
				return;
			}
			default:
		}
	}

	register(a) {
		const { ig } = this;
		if (this.components.length >= 5) return;
		const c = { id: this.components.length, tag: `ig-c${this.components.length}`, value: 0, shape: 0 };
		c.own = a.own === true; // its view has a stylesheet link of its own
		const wanted = this.active?.renderer ?? "ignite-jsx";
		c.renderer = this.usable.has(wanted) ? wanted : "ignite-jsx";
		if (!this.usable.has(wanted)) this.ctx.fault("renderer-not-ready");
		// one object that is a valid view for either renderer
		const view = (cls, parts) => {
			const items = parts.items;
			const jsx = ig.jsxRuntime.jsx;
			const node = { type: "p", props: { class: `jsx ${cls}`, children: [parts.v, ...items.map((i) => jsx("b", { children: i })), c.own ? jsx("link", { class: "own", rel: "stylesheet", href: "/own.css" }) : null] } };
			if (!this.litHtml) return node;
			const { html } = this.litHtml;
			const own = c.own ? html`<link class="own" rel="stylesheet" href="/own.css">` : null;
			const t = parts.shape % 2 ? html`<p class="lit ${cls}">${parts.v}${items.map((i) => html`<b>${i}</b>`)}${own}</p>` : html`<p class="lit ${cls}"><!-- x -->${parts.v}${items.map((i) => html`<b>${i}</b>`)}${own}</p>`;
			return Object.assign({}, t, node, { props: node.props });
		};
		const draw = () => view("k", { v: String(c.value), items: Array.from({ length: c.shape }, (_, i) => `i${i}`), shape: c.shape });
		this.components.push(c);
		try {
			if (a.kind === 0) {
				c.isolated = false;
				const listeners = new Set();
				c.update = (n) => {
					c.value++;
					c.shape = n;
					for (const l of [...listeners]) l({ v: c.value });
				};
				const create = () => ({
					subscribe: (l) => {
						listeners.add(l);
						l({ v: c.value });
						return { unsubscribe: () => listeners.delete(l) };
					},
					send: () => {},
					getState: () => ({ v: c.value }),
					stop: () => listeners.clear(),
				});
				const options = { scope: "shared" };
				if (a.how === "lit" && this.usable.has("lit") && !this.cfg.ssr) {
					options.createRenderStrategy = ig.__lazy.lit().createLitRenderStrategy;
					c.renderer = "lit";
				}
				if (a.how === "jsx") {
					options.createRenderStrategy = ig.jsxRenderer.createIgniteJsxRenderStrategy;
					c.renderer = "ignite-jsx";
				}
				ig.factory.createComponentFactory(create, options)(c.tag, draw);
			} else if (a.kind === 1) {
				// no source at all
				c.isolated = true;
				c.update = () => {};
				ig.core.igniteCore()(c.tag, draw);
			} else {
				c.isolated = false;
				const { configureStore, createSlice } = this.env.peers["@reduxjs/toolkit"];
				const slice = createSlice({ name: "n", initialState: { v: 0 }, reducers: { set: (s, { payload }) => { s.v = payload; } } });
				const store = configureStore({ reducer: slice.reducer });
				c.update = (n) => {
					c.value++;
					c.shape = n;
					store.dispatch(slice.actions.set(c.value));
				};
				ig.core.igniteCore({ source: store, cleanup: false })(c.tag, draw);
			}
		} catch (error) {
			this.env.errors.push({ where: "register", error });
		}
		this.log("register", c.tag, c.renderer);
	}

	onResolved(load) {
		this.log("load", load.id, "resolved", canon(load.value) ?? "undefined");
		if (load.failed) return;
		if (!load.want) {
			if (load.value !== undefined) this.violate(["C14"], "load-result", `a load without a usable configuration resolved with ${canon(load.value)}`);
			return;
		}
		if (canon(load.value) !== canon(load.want)) this.violate(["C14"], "load-result", `a load resolved with ${canon(load.value)}, expected ${canon(load.want)}`);
		if (!this.cfg.ssr && !this.usable.has(load.renderer)) this.violate(["C14"], "resolved-early", `a load resolved before its renderer "${load.renderer}" could be used`);
		if (!this.cfg.ssr && load.chunkErrors && !load.chunkOk) this.violate(["C14"], "renderer-failure-swallowed", `a load resolved although its renderer "${load.renderer}" failed to load`);
	}

	check() {
		const { env, ig } = this;
		this.ctx.count("config-checks");
		const got = ig.index.getIgniteConfig();
		if (canon(got) !== canon(this.active)) this.violate(["C14"], "active-config", `the active configuration is ${canon(got)}, expected ${canon(this.active)}`);
		for (const l of this.loads) {
			if (l.asked !== undefined && l.asked > 1) this.violate(["C14"], "asked-twice", `a configuration module was requested ${l.asked} times`);
			if (l.failed) {
				if (l.state === "resolved") this.violate(["C14"], "failure-hidden", `load ${l.id} failed but its promise resolved`);
				if (l.state === "pending") this.violate(["C14"], "never-settled", `load ${l.id} failed but its promise is still pending`);
				if (l.state === "rejected" && l.reason !== l.error) this.violate(["C14"], "wrong-error", `load ${l.id} rejected with another error: ${l.reason?.message ?? l.reason}`);
			} else if (l.unusable) {
				if (l.state !== "rejected") this.violate(["C14"], "unusable-accepted", `load ${l.id} with unusable styles is ${l.state}`);
			} else if (l.arrived) {
				if (!l.want && l.state !== "resolved") this.violate(["C14"], "never-settled", `load ${l.id} without a configuration is ${l.state}`);
				if (l.want && l.state === "rejected" && !(l.chunkErrors ?? []).includes(l.reason)) this.violate(["C14"], "spurious-failure", `load ${l.id} rejected: ${l.reason?.message ?? l.reason}`);
			} else if (l.state !== "pending") this.violate(["C14"], "settled-early", `load ${l.id} is ${l.state} before its module arrived`);
		}
		for (const h of this.hosts) this.checkHost(h);
		for (; this.errSeen < env.errors.length; this.errSeen++) {
			const { where, error } = env.errors[this.errSeen];
			this.log("error", where, String(error?.message ?? error).slice(0, 60));
			this.violate(["C14"], "unexpected-error", `${where}: ${error?.stack?.slice(0, 300) ?? error}`);
		}
	}
	checkHost(h) {
		const root = h.el.shadowRoot;
		if (!root) {
			this.violate(["C14"], "not-upgraded", `<${h.c.tag}> has no shadow root`);
			return;
		}
		const links = [...root.querySelectorAll("link:not(.own)")];
		if (h.el.isConnected && root.querySelectorAll("link.own").length !== (h.c.own ? 1 : 0)) this.violate(["C13", "C14"], "own-link", `element ${h.id} lost or repeated the link of its own view`);
		this.ctx.count("style-checks");
		const want = h.link && !h.link.none ? h.link : null;
		if (links.length !== (want ? 1 : 0)) {
			this.violate(["C13"], links.length > 1 ? "duplicate-link" : want ? "missing-link" : "unexpected-link", `element ${h.id} (${h.c.renderer}) has ${links.length} stylesheet links${links.length ? ` (${links.map((l) => l.getAttribute("href"))})` : ""}, expected ${want ? want.href : "none"}`);
		} else if (want) {
			const l = links[0];
			const got = { href: l.getAttribute("href")?.trim(), rel: l.getAttribute("rel"), integrity: l.getAttribute("integrity") ?? l.integrity ?? null, crossorigin: l.getAttribute("crossorigin") };
			const exp = { href: want.href.trim(), rel: "stylesheet", integrity: want.integrity ?? null, crossorigin: want.crossOrigin ?? null };
			if (canon(got) !== canon(exp)) this.violate(["C13"], "wrong-link", `element ${h.id} links ${canon(got)}, expected ${canon(exp)}`);
			const p = root.querySelector("p");
			if (p && !(l.compareDocumentPosition(p) & 4)) this.violate(["C13"], "link-after-content", `the stylesheet of element ${h.id} follows its content`);
		}
		if (h.el.isConnected) {
			const ps = root.querySelectorAll("p");
			const cls = h.c.renderer === "lit" ? "lit" : "jsx";
			if (ps.length !== 1 || !ps[0].classList.contains(cls)) {
				this.violate(["C14"], "wrong-renderer", `element ${h.id}: ${ps.length} roots (${[...ps].map((p) => p.className)}), expected one rendered by ${h.c.renderer}`);
				return;
			}
			const c = h.c;
			const text = `${c.value}${Array.from({ length: c.shape }, (_, i) => `i${i}`).join("")}`;
			if (ps[0].textContent !== text) this.violate(["C13", "C14"], "stale", `element ${h.id} shows ${JSON.stringify(ps[0].textContent)}, expected ${JSON.stringify(text)}`);
			this.ctx.count("boot-renders-checked");
		}
	}

	async settle() {
		await drainMicrotasks();
	}
	async run() {
		this.init();
		for (let i = 0; i < this.plan.steps.length; i++) {
			this.step = i;
			const a = this.plan.steps[i];
			this.log("step", i, a.op);
			this.act(a);
			await this.settle();
			this.check();
			if (this.ctx.done()) return;
		}
		// ---- faults stop: everything outstanding arrives, a last load works
		this.step = this.plan.steps.length;
		this.log("finish");
		for (let n = 0; n < 50; n++) {
			if (this.loads.some((l) => l.settle && !l.arrived)) this.act({ op: "arrive", i: 0, ok: true });
			else if (this.chunks.length) this.act({ op: "chunk", i: 0, ok: true });
			else break;
			await this.settle();
			this.check();
			if (this.ctx.done()) return;
		}
		for (const l of this.loads) if (l.state === "pending") this.violate(["C14"], "never-settled", `load ${l.id} is still pending after everything it waited for has arrived`);
		if (this.ctx.done()) return;
		const last = { op: "load", shape: "default", c: { renderer: "lit", styles: 0 } };
		this.act(last);
		await this.settle();
		this.act({ op: "arrive", i: 0, ok: true });
		await this.settle();
		while (this.chunks.length) {
			this.act({ op: "chunk", i: 0, ok: true });
			await this.settle();
		}
		this.check();
		if (this.loads.at(-1).state !== "resolved") this.violate(["C14"], "no-recovery", `a load after the faults is ${this.loads.at(-1).state}`);
		const before = this.components.length;
		if (before < 5) {
			this.act({ op: "register", kind: 0, how: "default" });
			this.act({ op: "mount", k: before });
			await this.settle();
			this.check();
			for (const h of this.hosts) if (!this.cfg.ssr && h.link === undefined) this.violate(["C13"], "never-styled", `element ${h.id} never got the stylesheet`);
			this.act({ op: "update", k: before, n: 2 });
			await this.settle();
			this.check();
		}
		if (this.cfg.ssr) this.ctx.count("server-runs");
	}
}

export async function execute(plan, ctx) {
	const env = createEnv({ seed: plan.seed, ssr: plan.cfg.ssr, nodeEnv: plan.cfg.nodeEnv });
	try {
		const w = new Boot(plan, env, ctx);
		await w.run();
		ctx.time(env.clock.now);
	} finally {
		env.dispose();
	}
}
