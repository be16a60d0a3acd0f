// One simulated browser page: a fresh JSDOM window, fresh instances of the
// library under test and of its peers, and simulator-owned seams for every
// source of nondeterminism (clock, timers, microtask errors, randomness,
// dynamic import, console, process.env).
import { createRequire } from "node:module";
import vm from "node:vm";
import { PEERS, REPO } from "./build.mjs";
import { Rng } from "./prng.mjs";

const req = createRequire(`${REPO}/package.json`);
let JSDOM;
let VirtualConsole;
let paramNames = null;
let compiled = null;

const SEAMS = [
	"module", "exports", "require", "__simImport", "process", "console", "globalThis", "global",
	"setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "clearImmediate",
	"queueMicrotask", "requestAnimationFrame", "cancelAnimationFrame", "Date", "Math", "performance",
	"fetch", "crypto", "reportError", "structuredClone", "MessageChannel", "__simNodeEnv",
];

export function prepare(code) {
	({ JSDOM, VirtualConsole } = req("jsdom"));
	const dom = new JSDOM("", { url: "https://sim.test/" });
	const es = new Set(vm.runInNewContext("Object.getOwnPropertyNames(globalThis)"));
	const names = new Set();
	for (const n of Object.getOwnPropertyNames(dom.window)) {
		if (es.has(n) || !/^[A-Za-z_$][\w$]*$/.test(n) || SEAMS.includes(n)) continue;
		names.add(n);
	}
	dom.window.close();
	paramNames = [...names];
	const params = [...paramNames, ...SEAMS];
	compiled = {
		ignite: vm.compileFunction(code.ignite, params, { filename: "ignite.js" }),
		vendor: vm.compileFunction(code.vendor, params, { filename: "vendor.js" }),
		tools: Object.fromEntries(Object.entries(code.tools).map(([k, text]) => [k, vm.compileFunction(text, SEAMS, { filename: `${k}.js` })])),
		source: code,
		dynamicTargets: code.dynamicTargets,
	};
}

const realImmediate = setImmediate;
export const drainMicrotasks = () => new Promise((r) => realImmediate(r));

// Unhandled promise rejections belong to the run in progress.
let currentEnv = null;
process.on("unhandledRejection", (err) => {
	if (currentEnv) currentEnv.errors.push({ where: "unhandledRejection", error: err });
});
process.on("uncaughtException", (err) => {
	if (currentEnv) currentEnv.errors.push({ where: "uncaughtException", error: err });
	else {
		console.error(err);
		process.exit(3);
	}
});

export class Clock {
	constructor(env) {
		this.env = env;
		this.now = 0;
		this.seq = 0;
		this.timers = new Map();
		this.nextId = 1;
		this.fired = 0;
	}
	set(fn, delay, repeat, args) {
		const id = this.nextId++;
		const d = Math.max(repeat ? 1 : 0, Number(delay) || 0);
		this.timers.set(id, { id, at: this.now + d, seq: this.seq++, fn, args, repeat: repeat ? d : 0 });
		return id;
	}
	clear(id) {
		this.timers.delete(id);
	}
	next() {
		let best = null;
		for (const t of this.timers.values()) {
			if (!best || t.at < best.at || (t.at === best.at && t.seq < best.seq)) best = t;
		}
		return best;
	}
	fire(t) {
		this.now = Math.max(this.now, t.at);
		if (t.repeat) {
			t.at += t.repeat;
			t.seq = this.seq++;
		} else this.timers.delete(t.id);
		this.fired++;
		this.env.guard("timer", () => t.fn(...t.args));
	}
	// Fire everything due within dt, draining microtasks between timers.
	async advance(dt, limit = 500) {
		const end = this.now + dt;
		let n = 0;
		for (;;) {
			const t = this.next();
			if (!t || t.at > end || n++ > limit) break;
			this.fire(t);
			await drainMicrotasks();
		}
		this.now = end;
	}
}

// A simulated process without a page, for the build plugins and scripts.
export function createToolEnv({ seed = 0, onConsole = () => {} } = {}) {
	const env = { errors: [], console: [], rng: new Rng(`env:${seed}`) };
	env.guard = (where, fn) => {
		try {
			return fn();
		} catch (error) {
			env.errors.push({ where, error });
			return undefined;
		}
	};
	const clock = new Clock(env);
	env.clock = clock;
	currentEnv = env;
	class SimDate extends Date {
		constructor(...args) {
			if (args.length === 0) super(1.7e12 + clock.now);
			else super(...args);
		}
		static now() {
			return 1.7e12 + clock.now;
		}
	}
	const con = {};
	for (const level of ["log", "info", "warn", "error", "debug", "trace", "dir", "group", "groupEnd", "groupCollapsed", "table", "assert"]) {
		con[level] = (...args) => {
			env.console.push([level, args]);
			onConsole(level, args);
		};
	}
	const base = {
		console: con,
		globalThis,
		global: globalThis,
		setTimeout: (fn, d, ...a) => clock.set(fn, d, false, a),
		clearTimeout: (id) => clock.clear(id),
		setInterval: (fn, d, ...a) => clock.set(fn, d, true, a),
		clearInterval: (id) => clock.clear(id),
		setImmediate: (fn, ...a) => clock.set(fn, 0, false, a),
		clearImmediate: (id) => clock.clear(id),
		queueMicrotask: (fn) => {
			Promise.resolve().then(() => env.guard("microtask", fn));
		},
		Date: SimDate,
		Math,
		performance: { now: () => clock.now },
		structuredClone: globalThis.structuredClone,
	};
	env.evaluate = (name, seams) => {
		const module = { exports: {} };
		const s = { ...base, module, exports: module.exports, ...seams };
		compiled.tools[name].apply(undefined, SEAMS.map((n) => s[n]));
		return module.exports;
	};
	env.dispose = () => {
		if (currentEnv === env) currentEnv = null;
	};
	return env;
}

export function createEnv({ seed = 0, nodeEnv = "development", envVars = {}, ssr = false } = {}) {
	const env = {
		errors: [],
		console: [],
		rng: new Rng(`env:${seed}`),
		importLog: [],
		pendingImports: [],
		importPolicy: null,
	};
	env.guard = (where, fn) => {
		try {
			return fn();
		} catch (error) {
			env.errors.push({ where, error });
			return undefined;
		}
	};
	env.clock = new Clock(env);
	currentEnv = env;
	const clock = env.clock;

	const virtualConsole = new VirtualConsole();
	virtualConsole.on("jsdomError", (e) => {
		env.errors.push({ where: "dom", error: e.cause ?? e.detail ?? e });
	});
	let window = null;
	if (!ssr) {
		const dom = new JSDOM("<!doctype html><html><head></head><body></body></html>", {
			url: "https://sim.test/",
			virtualConsole,
		});
		window = dom.window;
		env.dom = dom;
	}
	env.window = window;
	env.document = window?.document;

	class SimDate extends Date {
		constructor(...args) {
			if (args.length === 0) super(1.7e12 + clock.now);
			else super(...args);
		}
		static now() {
			return 1.7e12 + clock.now;
		}
	}
	const simMath = Object.create(Math);
	for (const k of Object.getOwnPropertyNames(Math)) {
		Object.defineProperty(simMath, k, { value: Math[k], writable: true, configurable: true });
	}
	simMath.random = () => env.rng.float();
	const con = {};
	for (const level of ["log", "info", "warn", "error", "debug", "trace", "dir", "group", "groupEnd", "groupCollapsed", "table", "assert"]) {
		con[level] = (...args) => {
			if (env.console.length < 2000) env.console.push([level, args]);
		};
	}
	// "page": the published build in a browser, where there is no `process` at all
	const proc = nodeEnv === "page" ? undefined : { env: { NODE_ENV: nodeEnv, ...envVars } };
	env.process = proc;
	const queueMicro = (fn) => {
		Promise.resolve().then(() => env.guard("microtask", fn));
	};
	const globalObject = ssr ? vm.createContext({}) : window;

	const seams = {
		process: proc,
		console: con,
		globalThis: globalObject,
		global: globalObject,
		setTimeout: (fn, d, ...a) => clock.set(fn, d, false, a),
		clearTimeout: (id) => clock.clear(id),
		setInterval: (fn, d, ...a) => clock.set(fn, d, true, a),
		clearInterval: (id) => clock.clear(id),
		setImmediate: (fn, ...a) => clock.set(fn, 0, false, a),
		clearImmediate: (id) => clock.clear(id),
		queueMicrotask: queueMicro,
		requestAnimationFrame: (fn) => clock.set(() => fn(clock.now), 16, false, []),
		cancelAnimationFrame: (id) => clock.clear(id),
		Date: SimDate,
		Math: simMath,
		performance: { now: () => clock.now, mark() {}, measure() {} },
		fetch: () => Promise.reject(new Error("sim: no network")),
		crypto: { getRandomValues: (a) => { for (let i = 0; i < a.length; i++) a[i] = env.rng.u32(); return a; } },
		reportError: (error) => env.errors.push({ where: "reportError", error }),
		structuredClone: globalThis.structuredClone,
		MessageChannel: undefined,
		__simNodeEnv: nodeEnv === "page" ? "production" : nodeEnv,
	};
	if (window) {
		// The page's own globals lead to the same seams as the bare identifiers.
		for (const k of ["setTimeout", "clearTimeout", "setInterval", "clearInterval", "queueMicrotask", "requestAnimationFrame", "cancelAnimationFrame", "performance"]) {
			try {
				Object.defineProperty(window, k, { value: seams[k], configurable: true, writable: true });
			} catch {
				/* keep the window's own */
			}
		}
		try {
			Object.defineProperty(window, "reportError", { value: seams.reportError, configurable: true, writable: true });
		} catch {
			/* ignore */
		}
	}
	env.seams = seams;

	if (ssr) {
		// no DOM at all: a bare realm whose only globals are the language's and ours
		for (const [k, v] of Object.entries(seams)) if (k !== "globalThis" && k !== "global") globalObject[k] = v;
	}
	function evaluate(fn, extra) {
		if (ssr) {
			const m = { exports: {} };
			const names = ["module", "exports", "require", "__simImport"];
			const f = vm.compileFunction(compiled.source[fn === compiled.ignite ? "ignite" : "vendor"], names, { filename: "ssr.js", parsingContext: globalObject });
			f(m, m.exports, extra.require, extra.__simImport);
			return m.exports;
		}
		const module = { exports: {} };
		const values = [];
		for (const n of paramNames) values.push(window ? window[n] : undefined);
		const s = { ...seams, module, exports: module.exports, ...extra };
		for (const n of SEAMS) values.push(s[n]);
		fn.apply(undefined, values);
		return module.exports;
	}

	const vendor = evaluate(compiled.vendor, {
		require: (id) => {
			throw new Error(`sim: vendor require ${id}`);
		},
	});
	const peers = {};
	PEERS.forEach((p, i) => {
		Object.defineProperty(peers, p, { enumerable: !ssr, get: () => vendor[`m${i}`] });
	});
	env.peers = peers;
	// Instances the library creates by itself (isolated scope) are recorded so
	// that oracles can ask the real source for the truth.
	env.createdActors = [];
	env.actorHooks = [];
	env.storeHooks = [];
	env.createdStores = [];
	const shim = {
		mobx: peers.mobx,
		redux: peers.redux,
		get "lit-html"() {
			return peers["lit-html"];
		},
		xstate: {
			...peers.xstate,
			createActor: (...a) => {
				const actor = peers.xstate.createActor(...a);
				env.createdActors.push(actor);
				for (const h of env.actorHooks) h(actor);
				return actor;
			},
		},
		"@reduxjs/toolkit": {
			...peers["@reduxjs/toolkit"],
			configureStore: (...a) => {
				const store = peers["@reduxjs/toolkit"].configureStore(...a);
				env.createdStores.push(store);
				for (const h of env.storeHooks) h(store);
				return store;
			},
		},
	};

	env.loadIgnite = (nodeModules = {}) => {
		let ignite;
		const simImport = (spec) => {
			const target = spec.replace(/^sim:/, "");
			env.importLog.push(target);
			const load = () => {
				const f = ignite.__dynamic[target];
				if (!f) throw new Error(`sim: unknown dynamic import ${target}`);
				return f();
			};
			if (env.importPolicy) return env.importPolicy(target, load);
			return Promise.resolve().then(load);
		};
		ignite = evaluate(compiled.ignite, {
			require: (id) => {
				if (shim[id]) return shim[id];
				if (nodeModules[id]) return nodeModules[id];
				if (id === "node:fs" || id === "fs") return { existsSync: () => false };
				if (id === "node:path" || id === "path") return req("node:path");
				throw new Error(`sim: require ${id}`);
			},
			__simImport: simImport,
		});
		return ignite;
	};
	env.dispose = () => {
		if (currentEnv === env) currentEnv = null;
		window?.close();
	};
	return env;
}
