// World "tools": the code around the library that meets a file system, child
// processes, the network, a terminal and asynchronous build tools: the webpack
// and Vite plugins, the release script and the token refresh.
import { createRequire } from "node:module";
import EventEmitter from "node:events";
import path from "node:path";
import { inspect } from "node:util";
import { loadEsbuild } from "../build.mjs";
import { createToolEnv, drainMicrotasks } from "../env.mjs";

// Modules without effects of their own are the real ones.
const PURE = ["path", "url", "util", "assert", "events", "querystring", "string_decoder", "buffer", "os"];
const realRequire = createRequire(import.meta.url);
function pureModule(id) {
	if (PURE.includes(id.replace(/^node:/, "").split("/")[0])) return realRequire(id);
	throw new Error(`sim: require ${id}`);
}

export const name = "tools";
const MODES = ["webpack", "vite", "release", "refresh"];
const NAMES = ["ignite.config.ts", "ignite.config.js", "ignite.config.mjs", "ignite.config.cjs"];

// ---------------------------------------------------------------- generation
const ROOTS = ["/work/app", "/work/lib", "/work/with space/app#1"];
const CUSTOM = ["config/ignite.ts", "../shared/ignite.config.ts", "/etc/ignite/ignite.config.js", "ignite.config.js", ".ignite/config.ts", `it's "our" config/ignite.ts`];

// pages as they are asked for and the files they come from
const PAGES = [
	{ path: "/index.html", file: "index.html" },
	{ path: "/", file: "index.html" },
	{ path: "/users/42", file: "index.html" },
	{ path: "/admin/index.html", file: "admin/index.html" },
	{ path: "/a/b/", file: "a/b/index.html" },
	{ path: "/about.html", file: "about.html" },
	{ path: "/admin/report.html", file: "admin/report.html" },
];

function genFiles(rng) {
	const files = [];
	for (const r of ROOTS) for (const n of NAMES) if (rng.bool(0.3)) files.push(path.resolve(r, n));
	for (const c of CUSTOM) if (rng.bool(0.5)) files.push(path.resolve(rng.pick(ROOTS), c));
	return [...new Set(files)];
}
function genToggle(rng) {
	const root = rng.pick(ROOTS);
	return { op: "fs", file: path.resolve(root, rng.bool(0.7) ? rng.pick(NAMES) : rng.pick(CUSTOM)), on: rng.bool(0.5) };
}
const genOptions = (rng) => (rng.bool(0.5) ? {} : { configPath: rng.pick(CUSTOM) });

// settings that tools tend to react to, none of which changes what is promised
function genEnv(rng) {
	const env = {};
	for (const [k, v] of [["DEBUG", "*"], ["VERBOSE", "1"], ["RUNNER_DEBUG", "1"], ["NODE_ENV", "test"], ["GITHUB_ACTIONS", "true"], ["npm_config_loglevel", "verbose"], ["NO_COLOR", "1"]]) if (rng.bool(0.15)) env[k] = v;
	return env;
}
function genModules(rng, g) {
	const n = rng.weighted([[1, 5], [2, 3], [3, 1]]);
	const out = [];
	for (let i = 0; i < n; i++) out.push(rng.bool(0.15) && out.length ? out[0] : rng.bool(0.12) ? rng.pick(["core-js/stable", "./src/polyfills.ts", "webpack-hot-middleware/client?reload=true", "./src/ignite.ts", "ignite-element", "@acme/ui", "./src/style.css"]) : `./src/m${g.n++}.js`);
	return out;
}
function genDescriptor(rng, g) {
	const mods = genModules(rng, g);
	switch (rng.weighted([["string", 3], ["array", 3], ["object", 4]])) {
		case "string":
			return mods[0];
		case "array":
			return mods;
		default: {
			const d = { import: rng.bool(0.5) ? mods : mods[0] };
			if (rng.bool(0.4)) d.filename = `out${g.n++}.js`;
			if (rng.bool(0.3)) d.dependOn = "shared";
			if (rng.bool(0.2)) d.library = { name: "lib", type: "umd" };
			return d;
		}
	}
}
function genEntry(rng, g, depth = 0) {
	switch (rng.weighted([["none", depth ? 0.4 : 1], ["string", 2], ["array", 2], ["map", 5], ["fn", depth ? 0 : 4]])) {
		case "none":
			return { kind: "none" };
		case "string":
			return { kind: "plain", value: genModules(rng, g)[0] };
		case "array":
			return { kind: "plain", value: genModules(rng, g) };
		case "map": {
			const value = {};
			const n = rng.range(1, 3);
			for (let i = 0; i < n; i++) value[rng.pick(["main", "admin", "import", "shared", "worker", "import2"])] = genDescriptor(rng, g);
			return { kind: "plain", value };
		}
		default: {
			const n = rng.range(1, 3);
			const calls = [];
			for (let i = 0; i < n; i++) calls.push({ fail: rng.weighted([[null, 7], ["throw", 1], ["reject", 1]]), delay: rng.weighted([[null, 4], [0, 2], [10, 2], [50, 1]]), entry: genEntry(rng, g, depth + 1) });
			return { kind: "fn", calls };
		}
	}
}

export function generate(rng, profile = {}) {
	const mode = rng.pick(profile.modes ?? MODES);
	const g = { n: 1 };
	const cfg = { mode };
	const steps = [];
	if (mode === "webpack") {
		cfg.files = genFiles(rng);
		cfg.plugins = Array.from({ length: rng.range(1, 3) }, () => genOptions(rng));
		cfg.entries = Array.from({ length: rng.range(1, 3) }, () => genEntry(rng, g));
		steps.push({ op: "compiler", root: rng.int(3), entry: 0 }, { op: "apply", plugin: rng.int(3), compiler: 0 });
		const n = rng.range(3, 16);
		for (let i = 0; i < n; i++) {
			switch (rng.weighted([["compiler", 2], ["apply", 5], ["call", 5], ["fs", 1.5], ["tick", 2]])) {
				case "compiler":
					steps.push({ op: "compiler", root: rng.int(3), entry: rng.int(4) });
					break;
				case "apply":
					steps.push({ op: "apply", plugin: rng.int(4), compiler: rng.int(6) });
					break;
				case "call":
					steps.push({ op: "call", compiler: rng.int(6) });
					break;
				case "fs":
					steps.push(genToggle(rng));
					break;
				default:
					steps.push({ op: "tick", dt: rng.pick([0, 10, 100]) });
			}
		}
	} else if (mode === "vite") {
		cfg.files = genFiles(rng);
		cfg.options = { ...genOptions(rng), ...(rng.bool(0.4) ? { root: rng.pick(ROOTS) } : {}), ...(rng.bool(0.5) ? { injectTo: rng.pick(["head", "head-prepend", "body", "body-prepend"]) } : {}) };
		cfg.root = rng.pick(ROOTS);
		const n = rng.range(3, 12);
		for (let i = 0; i < n; i++) {
			switch (rng.weighted([["start", 3], ["page", 6], ["fs", 3], ["tick", 1]])) {
				case "start":
					steps.push({ op: "start" });
					break;
				case "page":
					steps.push({ op: "page", ...rng.pick(PAGES), build: rng.bool(0.25), config: rng.weighted([["ok", 6], ["slow", 2], ["reject", 1]]) });
					break;
				case "fs":
					steps.push(genToggle(rng));
					break;
				default:
					steps.push({ op: "tick", dt: 10 });
			}
		}
	} else if (mode === "release") {
		cfg.env = { ...(rng.bool(0.3) ? { CI: "true" } : {}), ...(rng.bool(0.25) ? { NPM_CONFIG_OTP: "771144" } : {}), NPM_TOKEN: "npm_envSecret99", PATH: "/bin", ...genEnv(rng) };
		const n = rng.range(1, 3);
		for (let i = 0; i < n; i++) {
			const args = [];
			if (rng.bool(0.35)) args.push("--dry-run");
			if (rng.bool(0.2)) args.push("--skip-otp");
			if (rng.bool(0.3)) args.push(`--otp=${rng.pick(["123456", " 908070 "])}`);
			if (rng.bool(0.1)) args.push("--yes");
			for (let j = args.length - 1; j > 0; j--) {
				const k = rng.int(j + 1);
				[args[j], args[k]] = [args[k], args[j]];
			}
			const faults = {};
			if (rng.bool(0.6)) faults[rng.pick(RELEASE_STEPS)] = rng.weighted([["exit", 5], ["signal", 0.6], ["SIGINT", 0.5], ["SIGKILL", 0.3], ["value", 0.6], ["kill", 1]]);
			if (rng.bool(0.1)) faults[rng.pick(RELEASE_STEPS)] = "exit";
			steps.push({ op: "release", args, faults, prompt: rng.weighted([["answer", 5], ["blank", 2], ["eof", 1.5], ["error", 1], ["abort", 0.7], ["late", 1]]), dirty: rng.bool(0.12), dirtyText: rng.pick([" M src/index.ts\n", "?? new.txt\n", "A  src/a.ts\n?? b.txt\n", " D package.json\n"]) });
			if (rng.bool(0.6)) steps.push({ op: "commit" });
		}
	} else {
		cfg.env = genEnv(rng);
		const n = rng.range(1, 4);
		for (let i = 0; i < n; i++) {
			steps.push({
				op: "refresh",
				exec: rng.weighted([["ok", 6], ["exit", 1], ["late-exit", 0.6], ["value", 0.5]]),
				delay: rng.weighted([[30, 4], [5000, 1], [45000, 1], [200000, 1]]),
				pad: rng.pick(["", "\n", "  \n"]),
				fetch: rng.weighted([["ok", 6], ["slow", 3], ["reject", 1], ["late-reject", 1], ["302", 0.4], ["304", 0.4], ["401", 1], ["403", 0.5], ["404", 0.7], ["409", 0.4], ["422", 0.5], ["429", 0.4], ["500", 1], ["late-500", 1]]),
				github: rng.bool(0.9),
				pasted: rng.bool(0.07),
				repo: rng.bool(0.9) ? rng.pick(["o/a", "o/b", "Org/My-App.js"]) : null,
			});
			if (rng.bool(0.7)) steps.push({ op: "tick", dt: rng.pick([0, 5, 50]) });
		}
	}
	return { world: name, cfg, steps };
}
export function shrinkCfg() {
	return [];
}

// ---------------------------------------------------------------- snippets
const scripts = new Map();
const AsyncFunction = (async () => {}).constructor;
async function compileModule(text) {
	if (!scripts.has(text)) {
		const p = loadEsbuild()
			.transform(text, { format: "esm", target: "es2022", charset: "utf8" })
			.then(({ code }) => {
				const body = code
					.replace(/^import\s+(?:([\w$]+)\s*,?\s*)?(?:\*\s+as\s+([\w$]+)|\{([^}]*)\})?\s*from\s*("(?:[^"\\]|\\.)*");?$/gm, (_, d, ns, named, spec) => {
						const parts = [];
						if (d) parts.push(`const ${d} = (await __import(${spec})).default;`);
						if (ns) parts.push(`const ${ns} = await __import(${spec});`);
						if (named) parts.push(`const {${named.replace(/\bas\b/g, ":")}} = await __import(${spec});`);
						return parts.join("");
					})
					.replace(/^import\s*("(?:[^"\\]|\\.)*");?$/gm, "await __import($1);")
					.replace(/\bimport\s*\(/g, "__import(")
					.replace(/^export\s*\{[^}]*\};?$/gm, "");
				return new AsyncFunction("__import", body);
			});
		scripts.set(text, p);
	}
	return scripts.get(text);
}
function moduleText(id) {
	const m = /^data:text\/javascript(;[^,]*)?,(.*)$/s.exec(id);
	if (!m) return null;
	try {
		return m[1]?.includes("base64") ? Buffer.from(m[2], "base64").toString("utf8") : decodeURIComponent(m[2]);
	} catch {
		return null;
	}
}
const isHelper = (spec) => /(^|\/)ignite-element(\/|$)/.test(spec) && /\/loadIgniteConfig(\.[\w.]+)?$/.test(spec);

class Exit {
	constructor(code) {
		this.code = code;
	}
}
const RELEASE_STEPS = ["clean", "auth", "status", "test", "build", "version", "install", "publish"];
// a secret, or a telling part of it
function pieces(secret) {
	const out = [secret];
	for (let i = 0; i + 8 <= secret.length; i++) out.push(secret.slice(i, i + 8));
	return out;
}
function stepOf(command) {
	const c = command.trim();
	if (/^git status\b.*--porcelain/.test(c)) return "clean";
	if (/^git\b/.test(c)) return "info";
	if (/^npm whoami/.test(c)) return "auth";
	if (/changeset status/.test(c)) return "status";
	if (/changeset version/.test(c)) return "version";
	if (/\bpublish\b/.test(c)) return "publish";
	if (/^(pnpm|npm)( run)? test\b/.test(c)) return "test";
	if (/^(pnpm|npm)( run)? build\b/.test(c)) return "build";
	if (/^(pnpm|npm) (install|i)\b/.test(c)) return "install";
	return "other";
}

class Tools {
	constructor(plan, env, ctx) {
		Object.assign(this, { plan, env, ctx, cfg: plan.cfg });
		this.files = new Set(plan.cfg.files ?? []);
	}
	log(...a) {
		this.ctx.log(a.join(" "));
	}
	violate(property, kind, detail) {
		this.ctx.violate(property, kind, detail, this.step);
	}
	findConfig(root, options) {
		if (options.configPath) {
			const f = path.isAbsolute(options.configPath) ? options.configPath : path.resolve(root, options.configPath);
			return this.files.has(f) ? f : null;
		}
		return NAMES.map((n) => path.resolve(root, n)).find((f) => this.files.has(f)) ?? null;
	}
	plugins() {
		const stat = (f) => {
			if (!this.files.has(String(f))) throw Object.assign(new Error(`ENOENT: ${f}`), { code: "ENOENT" });
			return { isFile: () => true, isDirectory: () => false };
		};
		const fs = { existsSync: (f) => this.files.has(String(f)), statSync: stat, accessSync: stat, readFileSync: stat };
		return this.env.evaluate("plugins", {
			process: { env: {}, cwd: () => "/work/app", platform: "linux" },
			require: (id) => {
				if (id === "node:fs" || id === "fs") return { ...fs, default: fs };
				if (id === "node:path" || id === "path") return path;
				return pureModule(id);
			},
		});
	}

	// Runs the code a plugin injected, with the helper and the configuration under
	// the simulator's control.
	async runInjected(text, resolve, { outcome = "ok" } = {}) {
		const r = { loads: 0, imports: [], finishedBeforeLoad: false, error: null };
		let run;
		try {
			run = await compileModule(text);
		} catch (error) {
			r.error = error;
			return r;
		}
		let loading = 0;
		const wait = (ms) => new Promise((ok) => this.env.clock.set(ok, ms, false, []));
		const imp = async (spec) => {
			if (isHelper(spec)) {
				return {
					loadIgniteConfig: async (thunk) => {
						r.loads++;
						loading++;
						try {
							const m = await thunk();
							await wait(5);
							return m;
						} finally {
							loading--;
						}
					},
				};
			}
			r.imports.push(resolve(spec));
			if (outcome !== "ok") await wait(20);
			if (outcome === "reject") throw new Error("sim: the configuration module failed");
			return { default: {} };
		};
		let settled = false;
		run(imp).then(
			() => {
				settled = true;
				if (loading) r.finishedBeforeLoad = true;
			},
			(error) => {
				settled = true;
				r.error = error;
			},
		);
		await drainMicrotasks();
		for (let i = 0; i < 5 && (!settled || loading); i++) await this.env.clock.advance(30);
		r.settled = settled;
		return r;
	}

	// -------------------------------------------------------------- webpack
	buildEntry(spec) {
		if (spec.kind === "none") return undefined;
		if (spec.kind === "plain") return structuredClone(spec.value);
		let calls = 0;
		const entry = () => {
			const c = spec.calls[calls % spec.calls.length];
			calls++;
			spec.log?.push(c);
			this.lastCall = c;
			this.ctx.count("entry-calls");
			if (c.fail) this.ctx.fault(`entry:${c.fail}`);
			if (c.fail === "throw") throw new Error("sim: entry failed");
			const value = () => {
				if (c.fail === "reject") throw new Error("sim: entry failed");
				return this.buildEntry(c.entry);
			};
			if (c.delay === null && !c.fail) return value();
			return new Promise((ok, bad) => {
				this.env.clock.set(() => {
					try {
						ok(value());
					} catch (e) {
						bad(e);
					}
				}, c.delay ?? 0, false, []);
			});
		};
		// the tool passes nothing, but a function may declare parameters
		return spec.calls.length % 2 ? entry : (_env) => entry();
	}
	async runWebpack() {
		const mod = this.plugins();
		const plugins = this.cfg.plugins.map((o) => new mod.IgniteConfigWebpackPlugin({ ...o }));
		// entries are objects of the project's configuration and may be shared
		const shared = this.cfg.entries.map((e) => this.buildEntry(e));
		const compilers = [];
		const pending = [];
		for (let i = 0; i < this.plan.steps.length; i++) {
			this.step = i;
			const a = this.plan.steps[i];
			this.log("step", i, JSON.stringify(a));
			this.ctx.count(`op:${a.op}`);
			if (a.op === "fs") {
				this.ctx.fault(a.on ? "config-appears" : "config-disappears");
				if (a.on) this.files.add(a.file);
				else this.files.delete(a.file);
			} else if (a.op === "tick") await this.env.clock.advance(a.dt);
			else if (a.op === "compiler") {
				const k = a.entry % this.cfg.entries.length;
				const c = { compiler: { context: ROOTS[a.root], options: { entry: shared[k], mode: "production" } }, spec: this.cfg.entries[k], loads: [] };
				c.original = shared[k];
				compilers.push(c);
			} else if (a.op === "apply") {
				const c = compilers[a.compiler % compilers.length];
				const k = a.plugin % plugins.length;
				if (!c) continue;
				const file = this.findConfig(c.compiler.context, this.cfg.plugins[k]);
				const before = c.compiler.options.entry;
				try {
					plugins[k].apply(c.compiler);
				} catch (error) {
					this.violate("C16", "apply-failed", `applying the plugin failed: ${error.message}`);
					return;
				}
				if (!file) {
					if (c.compiler.options.entry !== before) this.violate("C16", "touched", "the entries were changed although there is no configuration file");
				} else if (!c.loads.includes(file)) c.loads.unshift(file);
				this.log("applied", file);
				await this.checkWebpack(c);
			} else if (a.op === "call") {
				const c = compilers[a.compiler % compilers.length];
				if (!c) continue;
				const job = await this.callEntry(c);
				if (job) pending.push(job);
			}
			for (const job of pending) {
				if (!job.done || job.judged) continue;
				job.judged = true;
				await this.judgeCall(job);
			}
			if (this.ctx.done()) return;
		}
		this.step = this.plan.steps.length;
		await this.env.clock.advance(1000);
		await drainMicrotasks();
		for (const job of pending) if (job.done && !job.judged) await this.judgeCall(job);
		const left = pending.filter((job) => !job.done).length;
		if (left) this.violate("C16", "stuck", `${left} entry functions never settled`);
		// the project's own objects are never modified
		for (const c of compilers) {
			await this.checkWebpack(c);
			if (c.spec.kind === "plain" && JSON.stringify(c.original) !== JSON.stringify(c.spec.value)) this.violate("C16", "mutated", `the project's entry ${JSON.stringify(c.spec.value)} was changed to ${JSON.stringify(c.original)}`);
		}
		if (this.env.errors.length) this.violate("C16", "unhandled", `an error was left unhandled: ${this.env.errors[0].error?.message}`);
	}
	async callEntry(c) {
		const fn = c.compiler.options.entry;
		if (typeof fn !== "function") return null;
		const job = { loads: [...c.loads], done: false, judged: false };
		this.lastCall = null;
		let p;
		try {
			p = Promise.resolve(fn());
		} catch (error) {
			p = Promise.reject(error);
		}
		p.then(
			(value) => Object.assign(job, { done: true, value }),
			(error) => Object.assign(job, { done: true, failed: true, error }),
		);
		await drainMicrotasks();
		job.call = this.lastCall;
		return job;
	}
	async judgeCall({ call, loads, failed, error, value }) {
		if (!call) this.violate("C16", "entry-not-called", "the project's entry function was not called");
		else if (failed) {
			if (!call.fail || error?.message !== "sim: entry failed") this.violate("C16", "entry-failed", `the entry function failed with ${error?.message}`);
			this.ctx.count("entry-failures-passed-on");
		} else if (call.fail) this.violate("C16", "swallowed", "the failure of the project's entry function was swallowed");
		else await this.checkEntry(value, call.entry, loads);
	}
	async checkWebpack(c) {
		const e = c.compiler.options.entry;
		if (c.spec.kind === "fn") {
			if (typeof e !== "function") this.violate("C16", "entry-shape", "a function entry was replaced by a value");
			return;
		}
		await this.checkEntry(e, c.spec, c.loads);
	}
	async checkEntry(got, spec, loads) {
		this.ctx.count("entry-checks");
		if (spec.kind === "fn") {
			if (typeof got !== "function") this.violate("C16", "entry-shape", "a function entry was replaced by a value");
			return;
		}
		const show = () => `${JSON.stringify(spec.value)} became ${JSON.stringify(got)}`;
		if (!loads.length) {
			if (JSON.stringify(got) !== JSON.stringify(spec.kind === "none" ? undefined : spec.value)) this.violate("C16", "touched", `without a configuration file the entry ${show()}`);
			return;
		}
		if (spec.kind === "none") {
			const main = got?.main ?? got;
			await this.checkModules([].concat(main?.import ?? main ?? []), [], loads, show);
			return;
		}
		const named = (v) => (typeof v === "string" || Array.isArray(v) ? { main: v } : v);
		const a = named(spec.value);
		const b = typeof spec.value === "object" && !Array.isArray(spec.value) ? got : got && typeof got === "object" && !Array.isArray(got) && got.main ? got : named(got);
		if (!b || Object.keys(a).join() !== Object.keys(b).join()) {
			this.violate("C16", "entry-names", `the entries ${show()}`);
			return;
		}
		for (const key of Object.keys(a)) {
			const split = (d) => (d && typeof d === "object" && !Array.isArray(d) ? [[].concat(d.import), { ...d, import: undefined }] : [[].concat(d), {}]);
			const [m0, o0] = split(a[key]);
			const [m1, o1] = split(b[key]);
			if (JSON.stringify(o0) !== JSON.stringify({ ...o1 })) this.violate("C16", "options", `the options of entry ${key} changed: ${show()}`);
			await this.checkModules(m1, m0, loads, show);
		}
	}
	async checkModules(got, originals, loads, show) {
		const tail = got.slice(got.length - originals.length);
		const head = got.slice(0, got.length - originals.length);
		if (JSON.stringify(tail) !== JSON.stringify(originals)) {
			this.violate("C16", "modules", `the modules of an entry were lost, reordered or preceded the configuration: ${show()}`);
			return;
		}
		const seen = [];
		for (const id of head) {
			const text = moduleText(String(id));
			if (text === null) {
				this.violate("C16", "foreign-module", `an entry was given the module ${id}`);
				return;
			}
			const r = await this.runInjected(text, (s) => s);
			this.ctx.count("injected-runs");
			if (r.error || r.loads !== 1 || r.imports.length !== 1) {
				this.violate("C16", "load", `the module of an entry loads the configuration ${r.loads} times (${r.imports.length} imports${r.error ? `, ${r.error.message}` : ""})`);
				return;
			}
			if (r.finishedBeforeLoad || !r.settled) this.violate("C16", "not-awaited", "the application's modules would run before the configuration has been loaded");
			seen.push(r.imports[0]);
		}
		if ([...seen].sort().join() !== [...loads].sort().join()) this.violate("C16", "loads", `an entry loads [${seen}], expected exactly once each of [${loads}]`);
	}

	// ----------------------------------------------------------------- vite
	async runVite() {
		const mod = this.plugins();
		const o = this.cfg.options;
		const root = o.root ?? this.cfg.root;
		let known = o.root ? this.findConfig(o.root, o) : null;
		const plugin = mod.igniteConfigVitePlugin({ ...o });
		let started = false;
		const hook = (h) => (typeof h === "function" ? h : (h?.handler ?? h?.transform));
		for (let i = 0; i < this.plan.steps.length; i++) {
			this.step = i;
			const a = this.plan.steps[i];
			this.log("step", i, JSON.stringify(a));
			this.ctx.count(`op:${a.op}`);
			if (a.op === "fs") {
				this.ctx.fault(a.on ? "config-appears" : "config-disappears");
				if (a.on) this.files.add(a.file);
				else this.files.delete(a.file);
			} else if (a.op === "tick") await this.env.clock.advance(a.dt);
			else if (a.op === "start") {
				// a restart after the file moved may find either one; not judged
				const now = this.findConfig(root, o);
				if (known && now !== known) continue;
				await hook(plugin.configResolved)?.call(plugin, { root: this.cfg.root, command: "serve" });
				known = known ?? now;
				started = true;
			} else if (a.op === "page") {
				if (!started) continue;
				const html = "<!doctype html><html><head></head><body></body></html>";
				const result = await hook(plugin.transformIndexHtml)?.call(plugin, html, { path: `/${a.file}`, filename: path.resolve(this.cfg.root, a.file), originalUrl: a.path });
				await this.checkPage(result, html, known, a, plugin.transformIndexHtml?.order === "pre");
			}
			await drainMicrotasks();
			if (this.ctx.done()) return;
		}
	}
	async checkPage(result, html, known, a, early) {
		this.ctx.count("page-checks");
		const tags = Array.isArray(result) ? result : (result?.tags ?? []);
		const text = typeof result === "string" ? result : (result?.html ?? html);
		this.log("page", known, JSON.stringify(tags));
		if (!known) {
			if (tags.length || text !== html) this.violate("C16", "page-touched", "a page was changed although there is no configuration file");
			return;
		}
		const mods = tags.filter((t) => t.tag === "script");
		if (mods.length !== 1 || tags.length !== 1) {
			this.violate("C16", "page-tags", `a page got ${tags.length} tags for one configuration`);
			return;
		}
		if (mods[0].attrs?.type !== "module") this.violate("C16", "page-script", "the injected script is not a module");
		const where = this.cfg.options.injectTo ?? "head-prepend";
		if ((mods[0].injectTo ?? "head-prepend") !== where) this.violate("C16", "page-place", `the script is injected to ${mods[0].injectTo}, expected ${where}`);
		// What is added before Vite looks at the page is resolved by Vite, from the
		// page's file; what is added later reaches the browser as it is, which
		// resolves it from the page's address.
		const { root } = this.cfg;
		const resolve = (s) => {
			if (!early && a.build) throw new Error(`sim: there is no ${s} in a build`);
			if (s.startsWith("/@fs/")) return `/${decodeURI(s.slice(5))}`;
			if (s.startsWith("/")) return path.resolve(root, `.${s}`);
			if (!/^\.\.?\//.test(s)) throw new Error(`sim: cannot resolve ${s}`);
			if (early) return path.resolve(root, path.dirname(a.file), s);
			return path.resolve(root, `.${path.posix.resolve(path.posix.dirname(`${a.path}x`), s)}`);
		};
		if (a.config !== "ok") this.ctx.fault(`config:${a.config}`);
		const r = await this.runInjected(mods[0].children ?? "", resolve, { outcome: a.config });
		this.ctx.count("injected-runs");
		if (r.loads !== 1 || r.imports.length !== 1 || (r.error && a.config !== "reject")) this.violate("C16", "page-load", `the page loads the configuration ${r.loads} times (${r.imports.length} imports${r.error ? `, ${r.error.message}` : ""})`);
		else if (r.imports[0] !== known) this.violate("C16", "page-config", `the page loads ${r.imports[0]}, the configuration file is ${known}`);
		else if (a.config === "reject" && !r.error) this.violate("C16", "page-swallowed", "the failure of the configuration module is swallowed");
	}

	// -------------------------------------------------------------- scripts
	output(secrets, property, args) {
		const text = args.map((x) => (typeof x === "string" ? x : inspect(x, { depth: 6 }))).join(" ");
		for (const [what, s] of secrets()) if (s && pieces(s).some((x) => text.includes(x))) this.violate(property, "secret-in-output", `${what} was written to the output`);
	}
	async runRelease() {
		const repo = { dirty: "", version: 0, published: 0 };
		for (let i = 0; i < this.plan.steps.length; i++) {
			this.step = i;
			const a = this.plan.steps[i];
			this.log("step", i, JSON.stringify(a));
			this.ctx.count(`op:${a.op}`);
			if (a.op === "commit") repo.dirty = "";
			else await this.release(a, repo);
			if (this.ctx.done()) return;
		}
	}
	async release(a, repo) {
		const { env } = this;
		const typed = "445566";
		const flag = a.args.find((x) => x.startsWith("--otp="))?.slice(6).trim();
		const secrets = () => [["the one-time password", typed], ["the one-time password", flag], ["the one-time password", this.cfg.env.NPM_CONFIG_OTP], ["a token of the environment", this.cfg.env.NPM_TOKEN]];
		const p = { exited: false, code: null, ran: [], publishes: [], asked: 0, open: 0 };
		const exit = (code) => {
			if (!p.exited) {
				p.exited = true;
				p.code = code ?? proc.exitCode ?? 0;
				this.log("exit", p.code);
			}
			throw new Exit(code);
		};
		if (a.dirty) repo.dirty = a.dirtyText;
		const wasDirty = Boolean(repo.dirty);
		const perform = (command, options = {}) => {
			if (p.exited) throw new Exit(p.code);
			const step = stepOf(command);
			const fault = a.faults[step];
			this.log("exec", step, command);
			const envGiven = Object.values(options.env ?? proc.env).join("\n");
			if (step === "publish") p.publishes.push({ command, options });
			else for (const s of [typed, flag]) if (s && (envGiven.includes(s) || command.includes(s))) this.violate("C17", "otp-spread", `the one-time password was given to "${stepOf(command)}"`);
			if (fault) this.ctx.fault(`step:${fault}`);
			if (fault === "kill") {
				p.ran.push({ step, ok: false });
				p.killed = true;
				exit(137);
			}
			if (fault) {
				p.ran.push({ step, ok: false });
				return { failed: fault, command };
			}
			let out = "";
			if (step === "clean") {
				out = repo.dirty;
				if (/(-uno|--untracked-files=no)\b/.test(command)) out = out.split("\n").filter((l) => !l.startsWith("??")).join("\n");
				p.ran.push({ step, ok: !repo.dirty });
				return { out };
			}
			if (step === "auth") out = "someone\n";
			if (step === "version") {
				repo.version++;
				repo.dirty = " M package.json\n";
			}
			if (step === "publish" && !/--dry-run/.test(command)) repo.published++;
			p.ran.push({ step, ok: true });
			return { out };
		};
		const signalOf = (f) => (f === "signal" ? "SIGTERM" : f.startsWith("SIG") ? f : null);
		const fail = (r) => {
			if (r.failed === "value") throw "sim: not an error object";
			throw Object.assign(new Error(`Command failed: ${r.command}`), { status: signalOf(r.failed) ? null : 1, signal: signalOf(r.failed) });
		};
		const join = (file, args) => [file, ...(Array.isArray(args) ? args : [])].join(" ");
		const child = {
			execSync: (command, options) => {
				const r = perform(command, options);
				if (r.failed) fail(r);
				return options?.encoding ? r.out : Buffer.from(r.out);
			},
			execFileSync: (file, args, options) => {
				const r = perform(join(file, args), Array.isArray(args) ? options : args);
				if (r.failed) fail(r);
				return (Array.isArray(args) ? options : args)?.encoding ? r.out : Buffer.from(r.out);
			},
			spawnSync: (file, args, options) => {
				const r = perform(join(file, args), Array.isArray(args) ? options : args);
				return r.failed ? { status: signalOf(r.failed) ? null : 1, signal: signalOf(r.failed), stdout: "", stderr: "" } : { status: 0, signal: null, stdout: r.out, stderr: "" };
			},
		};
		child.default = child;
		const write = (text) => {
			this.output(secrets, "C17", [text]);
			return true;
		};
		const stream = () => Object.assign(new EventEmitter(), { write, isTTY: false, fd: 1 });
		const proc = Object.assign(new EventEmitter(), {
			argv: ["node", "release-beta.mjs", ...a.args],
			env: { ...this.cfg.env },
			exit,
			exitCode: undefined,
			stdin: stream(),
			stdout: stream(),
			stderr: stream(),
			cwd: () => "/work/app",
			platform: "linux",
		});
		proc.default = proc;
		const readline = {
			createInterface: () => {
				if (p.exited) throw new Exit(p.code);
				const rl = new EventEmitter();
				let closed = false;
				p.open++;
				rl.close = () => {
					if (closed) return;
					closed = true;
					p.open--;
					rl.emit("close");
				};
				rl.question = (_q) => {
					if (p.exited) throw new Exit(p.code);
					p.asked++;
					this.log("prompt", a.prompt);
					if (a.prompt !== "answer" && a.prompt !== "blank") this.ctx.fault(`prompt:${a.prompt}`);
					return new Promise((ok, bad) => {
						if (a.prompt === "eof") {
							p.eof = true;
							env.clock.set(() => rl.close(), 5, false, []);
						} else if (a.prompt === "error" || a.prompt === "abort") {
							p.promptFailed = true;
							const error = new Error("Aborted with Ctrl+C");
							if (a.prompt === "abort") Object.assign(error, { name: "AbortError", code: "ABORT_ERR" });
							env.clock.set(() => bad(error), 5, false, []);
						} else env.clock.set(() => !closed && ok(a.prompt === "blank" ? "   " : ` ${typed} `), a.prompt === "late" ? 60000 : 3, false, []);
					});
				};
				return rl;
			},
		};
		readline.default = readline;
		this.onConsole = (_l, args) => {
			if (!p.exited) this.output(secrets, "C17", args);
		};
		const errors0 = env.errors.length;
		let crashed = null;
		try {
			env.evaluate("release", {
				process: proc,
				fetch: () => Promise.reject(new Error("sim: no network")),
				require: (id) => {
					const k = id.replace(/^node:/, "");
					if (k === "child_process") return child;
					if (k === "process") return proc;
					if (k === "readline/promises") return readline;
					return pureModule(id);
				},
			});
		} catch (e) {
			if (!(e instanceof Exit)) crashed = e;
		}
		await drainMicrotasks();
		await env.clock.advance(120000);
		await drainMicrotasks();
		this.onConsole = null;
		const errs = env.errors.splice(errors0).filter((e) => !(e.error instanceof Exit));
		if (crashed || errs.length) this.log("crash", crashed?.message ?? errs[0].error?.message);
		const code = p.exited ? p.code : crashed || errs.length ? 1 : (proc.exitCode ?? 0);

		// ---- oracle
		this.ctx.count("release-checks");
		this.log("result", code, p.ran.map((r) => `${r.step}${r.ok ? "" : "!"}`).join(" "));
		const ran = p.ran.filter((r) => RELEASE_STEPS.includes(r.step));
		const firstBad = ran.findIndex((r) => !r.ok);
		if (firstBad >= 0 && ran.length > firstBad + 1) this.violate("C17", "went-on", `after "${ran[firstBad].step}" failed, "${ran[firstBad + 1].step}" was still run`);
		const pub = ran.findIndex((r) => r.step === "publish");
		if (pub >= 0) {
			const before = ran.slice(0, pub).filter((r) => r.ok).map((r) => r.step);
			let k = 0;
			for (const s of before) if (s === RELEASE_STEPS[k]) k++;
			if (k < RELEASE_STEPS.length - 1) this.violate("C17", "published-early", `published after [${before}], before "${RELEASE_STEPS[k]}" had succeeded in its place`);
			if (p.eof || p.promptFailed) this.violate("C17", "published-unanswered", "published although the prompt failed");
		}
		if (p.publishes.length > 1) this.violate("C17", "published-twice", "published twice in one run");
		for (const { command, options } of p.publishes) {
			if (a.args.includes("--dry-run") && !/--dry-run\b/.test(command)) this.violate("C17", "dry-run", `a dry run executed "${command}"`);
			if (!a.args.includes("--dry-run") && /--dry-run\b/.test(command)) this.violate("C17", "dry-run", `a real run executed "${command}"`);
			if (!/--tag[ =]beta\b/.test(command)) this.violate("C17", "tag", `published with "${command}", not under the beta tag`);
			const want = a.args.includes("--skip-otp") ? null : flag || (this.cfg.env.NPM_CONFIG_OTP ? null : p.asked && (a.prompt === "answer" || a.prompt === "late") ? typed : null);
			const given = options?.env ? options.env.NPM_CONFIG_OTP : proc.env.NPM_CONFIG_OTP;
			if (want && given !== want) this.violate("C17", "otp-lost", `the one-time password did not reach the publish step (${given})`);
		}
		const failed = firstBad >= 0 || p.eof || p.promptFailed || wasDirty;
		if (p.killed) return;
		if (failed && code === 0) this.violate("C17", "reported-success", `the script ended with exit code 0 although ${firstBad >= 0 ? `"${ran[firstBad].step}" failed` : "the prompt failed"}`);
		if (!failed && (code !== 0 || p.publishes.length !== 1)) this.violate("C17", "not-released", `every step succeeded, but the script ended with exit code ${code} after ${p.publishes.length} publish steps`);
	}

	async runRefresh() {
		const { env } = this;
		const store = {};
		const tokens = [];
		const secrets = () => [...tokens.map((t) => ["the npm token", t]), ["the GitHub token", "ghp_sim77secret"]];
		this.onConsole = (_l, args) => this.output(secrets, "C17", args);
		const proc = { env: { ...this.cfg.env }, argv: ["node"], stdout: { write: (t) => this.output(secrets, "C17", [t]) }, stderr: { write: (t) => this.output(secrets, "C17", [t]) }, exit: (c) => { throw new Exit(c); }, cwd: () => "/work/app" };
		proc.default = proc;
		let current = null;
		let n = 0;
		const exec = (command, options) => {
			const { call, a } = current;
			this.log("exec", command.split(" ").slice(0, 3).join(" "));
			call.created++;
			if (a.exec !== "ok") this.ctx.fault(`exec:${a.exec}`);
			if (a.exec === "value") throw "sim: not an error object";
			if (a.exec === "exit") throw Object.assign(new Error(`Command failed: ${command}`), { status: 1 });
			const token = `npm_simTok${n++}xyz`;
			tokens.push(token);
			// npm printed the token before it failed
			if (a.exec === "late-exit") throw Object.assign(new Error(`Command failed: ${command}`), { status: 1, signal: null, output: [null, token, ""], stdout: token, stderr: "" });
			call.token = token;
			const out = `${token}${a.pad}`;
			return options?.encoding ? out : Buffer.from(out);
		};
		const child = { execSync: exec, execFileSync: (f, args, o) => exec([f, ...(Array.isArray(args) ? args : [])].join(" "), Array.isArray(args) ? o : args) };
		child.default = child;
		const fetch = (url, init = {}) => {
			// which call this belongs to is decided by the token it carries
			const body = String(init.body ?? "");
			const call = calls.find((c) => c.token && body.includes(JSON.stringify(c.token))) ?? calls.findLast((c) => !c.done);
			const kind = call.a.fetch;
			this.log("fetch", call.id, kind);
			if (kind !== "ok") this.ctx.fault(`fetch:${kind}`);
			call.requests++;
			const u = new URL(url);
			if (u.protocol !== "https:" || u.hostname !== "api.github.com") this.violate("C17", "foreign-host", `a token was sent to ${u.origin}`);
			const m = /^\/repos\/(.+)\/actions\/secrets\/NPM_TOKEN$/.exec(decodeURIComponent(u.pathname));
			const headers = Object.fromEntries(Object.entries(init.headers ?? {}).map(([k, v]) => [k.toLowerCase(), String(v).trim()]));
			for (const v of Object.values(headers)) if (/[\0\r\n]/.test(v)) return Promise.reject(new TypeError(`Headers.append: "${v}" is an invalid header value.`));
			const slow = kind === "slow" || kind.startsWith("late");
			return new Promise((ok, bad) => {
				const finish = () => {
					if (kind.endsWith("reject")) return bad(new TypeError("fetch failed"));
					const status = kind.endsWith("500") ? 500 : /^[34]\d\d$/.test(kind) ? Number(kind) : !/ghp_sim77secret/.test(headers.authorization ?? "") ? 401 : 204;
					if (status === 204 && m && init.method === "PUT") {
						store[m[1]] = JSON.parse(body);
						call.stored = { repo: m[1], body: JSON.parse(body) };
					}
					ok({ ok: status < 300, status, statusText: status < 300 ? "No Content" : "Failed", json: async () => ({}), text: async () => "" });
				};
				env.clock.set(finish, slow ? (call.a.delay ?? 30) : 1, false, []);
			});
		};
		const mod = env.evaluate("refresh", {
			process: proc,
			fetch,
			require: (id) => {
				const k = id.replace(/^node:/, "");
				if (k === "child_process") return child;
				if (k === "process") return proc;
				return pureModule(id);
			},
		});
		const calls = [];
		for (let i = 0; i < this.plan.steps.length; i++) {
			this.step = i;
			const a = this.plan.steps[i];
			this.log("step", i, JSON.stringify(a));
			this.ctx.count(`op:${a.op}`);
			if (a.op === "tick") {
				await env.clock.advance(a.dt);
				await drainMicrotasks();
				continue;
			}
			const call = { id: calls.length, a, done: false, created: 0, requests: 0, token: null, stored: null };
			calls.push(call);
			if (a.github) proc.env.GITHUB_TOKEN = a.pasted ? "ghp_sim77secret\nghp_sim77secret" : "ghp_sim77secret";
			else delete proc.env.GITHUB_TOKEN;
			if (a.repo) proc.env.REPO_NAME = a.repo;
			else delete proc.env.REPO_NAME;
			if (!a.github || !a.repo) this.ctx.fault("environment-missing");
			if (a.github && a.pasted) this.ctx.fault("environment-malformed");
			current = { call, a };
			const judge = (failure) => {
				call.done = true;
				this.ctx.count("refresh-checks");
				this.log("refresh", call.id, failure ? "failed" : "stored");
				// it may give up on an answer that takes very long
				const clean = a.exec === "ok" && (a.fetch === "ok" || (a.fetch === "slow" && !(a.delay > 5000))) && a.github && a.repo && !a.pasted;
				// whoever runs the tool prints what it fails with
				if (failure && a.exec !== "late-exit") this.output(secrets, "C17", [failure.error]);
				if (!failure) {
					if (!call.stored) this.violate("C17", "not-stored", "the token refresh reported success without having stored the token");
					else if (call.stored.repo !== a.repo) this.violate("C17", "wrong-repo", `the token was stored in ${call.stored.repo}, configured is ${a.repo}`);
					else if (!Object.values(call.stored.body).includes(call.token)) this.violate("C17", "wrong-token", `what was stored is ${JSON.stringify(call.stored.body)}, the new token is ${call.token}`);
				} else if (clean) this.violate("C17", "refresh-failed", `the token refresh failed although nothing did: ${failure.error?.message ?? failure.error}`);
			};
			let p;
			try {
				p = Promise.resolve(mod.default());
			} catch (error) {
				p = Promise.reject(error);
			}
			p.then(
				() => judge(null),
				(error) => judge({ error }),
			);
			await drainMicrotasks();
			if (this.ctx.done()) return;
		}
		this.step = this.plan.steps.length;
		await env.clock.advance(1000);
		await drainMicrotasks();
		await env.clock.advance(600000);
		await drainMicrotasks();
		for (const c of calls) if (!c.done) this.violate("C17", "stuck", "a token refresh never finished");
		if (env.errors.length) this.violate("C17", "unhandled", `an error was left unhandled: ${env.errors[0].error?.message ?? env.errors[0].error}`);
	}

	async run() {
		this.ctx.count(`mode:${this.cfg.mode}`);
		if (this.cfg.mode === "webpack") await this.runWebpack();
		else if (this.cfg.mode === "vite") await this.runVite();
		else if (this.cfg.mode === "release") await this.runRelease();
		else await this.runRefresh();
	}
}

export async function execute(plan, ctx) {
	let world = null;
	const env = createToolEnv({ seed: plan.seed, onConsole: (l, a) => world?.onConsole?.(l, a) });
	try {
		world = new Tools(plan, env, ctx);
		await world.run();
		ctx.time(env.clock.now);
	} finally {
		env.dispose();
	}
}
