// Which worlds decide which property, and how much of them each tier runs.
const part = (world) => (profile = {}, share = 1) => ({ world, profile, share });
const app = part("app");
const view = part("view");
const boot = part("boot");
const adapters = part("adapters");
const values = part("values");
const tools = part("tools");

const SHARED = ["xstate-actor", "redux-store", "mobx-store", "custom-shared"];
const ISOLATED = ["xstate-machine", "redux-slice", "redux-factory", "mobx-factory", "custom-isolated"];
const MOVES = { connect: 8, disconnect: 7, box: 3 };

const PAGE = ["jsdom's DOM and custom-element reactions behave like a browser's where the property depends on them"];
const SRC = [...PAGE, "custom adapters keep the documented contract (a synchronous or later delivery of states in order)"];

export const CHECKS = {
	C01: { quick: 16000, thorough: 120000, parts: [app({}, 4), values()], assumptions: SRC },
	C02: { quick: 16000, thorough: 120000, parts: [app({}, 2), app({ reentrancy: true }, 2), adapters(), values()], assumptions: SRC },
	C03: { quick: 16000, thorough: 120000, parts: [app(), app({ weights: MOVES }), app({ reentrancy: true, weights: MOVES })], assumptions: SRC },
	C04: { quick: 16000, thorough: 120000, parts: [app({ kinds: SHARED, weights: MOVES }, 2), app(), adapters()], assumptions: SRC },
	C05: { quick: 16000, thorough: 120000, parts: [app({ kinds: ISOLATED }, 2), app(), adapters()], assumptions: SRC },
	C06: { quick: 16000, thorough: 120000, parts: [app({ weights: { send: 14, cmd: 10, ext: 8 } }, 2), app(), values()], assumptions: SRC },
	C07: { quick: 16000, thorough: 120000, parts: [app({ weights: MOVES }), app(), adapters()], assumptions: SRC },
	C08: { quick: 22000, thorough: 200000, parts: [view()], assumptions: PAGE },
	C09: { quick: 22000, thorough: 200000, parts: [view({ modes: [["diff", 1]] }, 3), view()], assumptions: PAGE },
	C10: { quick: 22000, thorough: 200000, parts: [view()], assumptions: PAGE },
	C11: { quick: 16000, thorough: 120000, parts: [app({ faults: true }, 2), app({ faults: true, reentrancy: true }), view({ faults: true }, 2)], assumptions: SRC },
	C12: { quick: 16000, thorough: 120000, parts: [app({ reentrancy: true }, 3), view({ nested: true })], assumptions: SRC },
	C13: { quick: 22000, thorough: 150000, parts: [boot()], assumptions: PAGE },
	C14: { quick: 22000, thorough: 150000, parts: [boot()], assumptions: PAGE },
	C15: { quick: 22000, thorough: 200000, parts: [adapters()], assumptions: ["listeners do not throw; one function is subscribed at most once at a time"] },
	C16: { quick: 300000, thorough: 1500000, parts: [tools({ modes: ["webpack", "vite"] })], assumptions: ["webpack and Vite themselves are not run: their calls of the plugins and their treatment of entries and tags are simulated", "POSIX paths"] },
	C17: { quick: 300000, thorough: 1500000, parts: [tools({ modes: ["release", "refresh"] })], assumptions: ["child processes, network, prompt and process exit are simulated; the commands are recognised by their usual names"] },
};

export const RULE =
	"A case is one simulated run: a plan (configuration + scheduled operations + faults) derived from one seed, executed once against the real code. It is non-trivial when its history has more than four recorded events and at least two kinds of operations or oracle evaluations; distinct when the SHA-256 of its complete history differs.";

const LIBS = ["xstate", "@reduxjs/toolkit", "redux", "mobx"];
const SEAMS = "timers, Date, Math.random, microtask errors, dynamic import(), console: simulator";
const PARTS = {
	app: {
		real: ["src/IgniteElement.ts", "src/IgniteElementFactory.ts", "src/createComponentFactory.ts", "src/IgniteCore.ts", "src/igniteCore/*", "src/adapters/*", "src/RenderArgs.ts", "src/events.ts", "src/renderers/**", "src/injectStyles.ts", "src/globalStyles.ts", "src/config.ts", ...LIBS, "lit-html"],
		stub: ["browser: jsdom", SEAMS, "application machines, slices, stores, views: simulator", "custom adapter transport: simulator"],
	},
	view: {
		real: ["src/renderers/jsx/**", "src/jsx/*", "src/IgniteElement.ts", "src/IgniteElementFactory.ts", "src/createComponentFactory.ts", "src/adapters/*", "redux"],
		stub: ["browser and user (typing, focus, composition): jsdom driven by the simulator", SEAMS, "views and nested custom elements: simulator"],
	},
	boot: {
		real: ["src/config/loadIgniteConfig.ts", "src/config.ts", "src/globalStyles.ts", "src/injectStyles.ts", "src/renderers/*", "src/internal/*", "src/IgniteElement.ts", "src/IgniteElementFactory.ts", "redux", "lit-html"],
		stub: ["browser: jsdom, or a realm without a DOM", "network of module and renderer chunks: simulator", SEAMS],
	},
	adapters: {
		real: ["src/adapters/*", "src/utils/*", ...LIBS],
		stub: ["subscribers and applications: simulator", SEAMS],
	},
	values: {
		real: ["src/IgniteElement.ts", "src/IgniteElementFactory.ts", "src/createComponentFactory.ts", "src/IgniteCore.ts", "src/igniteCore/*", "src/adapters/*", "src/renderers/**", ...LIBS, "lit-html"],
		stub: ["browser: jsdom", SEAMS, "sources over generated values, views: simulator"],
	},
	tools: {
		real: ["src/plugins/*", "src/config/vite.ts", "src/config/webpack.ts", "scripts/release-beta.mjs", "scripts/refresh-npm-token.js"],
		stub: ["file system, child processes, network, terminal, process exit, webpack, Vite, the loader helper inside injected code: simulator", SEAMS],
	},
};
export const COMPONENTS = (worlds) => {
	const out = {};
	for (const w of new Set(worlds)) out[w] = PARTS[w];
	return out;
};
