// Source of properties.jsonl and MANIFEST.json (node tools/properties.mjs rewrites both).
import { writeFileSync } from "node:fs";
import { fileURLToPath } from "node:url";

const E = "src/IgniteElement.ts";
const F = "src/IgniteElementFactory.ts";
const CF = "src/createComponentFactory.ts";
const X = "src/adapters/XStateAdapter.ts";
const R = "src/adapters/ReduxAdapter.ts";
const M = "src/adapters/MobxAdapter.ts";
const J = "src/renderers/jsx/renderer.ts";
const JS = "src/renderers/jsx/IgniteJsxRenderStrategy.ts";
const L = "src/renderers/LitRenderStrategy.ts";
const IS = "src/injectStyles.ts";
const LC = "src/config/loadIgniteConfig.ts";

export const PROPERTIES = [
	{
		id: "C01",
		title: "A connected element shows the current state of its source",
		statement:
			"Whenever the system is at rest (no delivery is still pending), the DOM of every connected element whose component is fed by a state source equals the component's view of that source's current state, for every supported kind of source and both renderers. This holds however the state was changed: through the element, a command, another element, the source itself, a timer or a settled promise.",
		over: ["schedules", "histories", "configurations"],
		text: "all interleavings of element creation, upgrade, (dis)connection and moves with state changes from every origin, over all source kinds (XState machine/actor, Redux slice/factory/store, MobX factory/store, hand-written adapters), both renderers and all component options",
		why: "The tests mount one or two elements, send a couple of events and look once; they never combine several sources, elements and lifecycles in an arbitrary order.",
		files: [E, F, X, R, M, JS, L],
		mech: [["subscription started in the constructor, renewed on connect", E], ["render on every delivery while active", E], ["snapshot delivery of the adapters", "src/adapters/*"]],
	},
	{
		id: "C02",
		title: "Renders are never torn and never go back in time",
		statement:
			"Every evaluation of a component's view sees one consistent state: the raw state, the derived values and the rendered fields all belong to the same version of the source. The versions that one connected element renders, and the versions one subscriber receives, never decrease.",
		over: ["schedules", "histories", "configurations"],
		text: "all histories with several elements per source, updates raised during notifications, batches and subscriptions added or dropped in the middle of a notification",
		why: "Tests observe the last rendered value, not the sequence of versions or the agreement of state, derived values and DOM inside one render.",
		files: [E, CF, X, R, M],
		mech: [["derived values resolved from the live snapshot at render time", CF], ["notification over the listeners of the update", "src/adapters/*"], ["single render loop per element", E]],
	},
	{
		id: "C03",
		title: "Disconnected elements are silent; reconnected ones resume",
		statement:
			"While an element is disconnected its view is not evaluated, its DOM does not change and events sent through it are dropped with a warning instead of reaching the source. When it is connected again (moved, or removed and re-inserted) it shows the state of its source at that moment and follows it from then on.",
		over: ["schedules", "histories"],
		text: "all sequences of connect, disconnect, move, bulk removal and re-insertion, including ones performed from inside renders, listeners and nested elements, interleaved with state changes",
		why: "Tests disconnect an element once, at rest; they do not move elements, re-insert them, or do so in the middle of a notification or render.",
		files: [E, F],
		mech: [["active flag checked by render and send", E], ["re-subscription on connect", E], ["send listener added and removed with the connection", E]],
	},
	{
		id: "C04",
		title: "Shared sources live exactly as long as they should",
		statement:
			"A source handed in by the application is never stopped by the library. With automatic clean-up the library's hold on a shared source is released when the last connected element of the component disconnects and taken up again when an element connects later; without clean-up it is kept. All elements of a component share that one source.",
		over: ["schedules", "histories", "configurations"],
		text: "all orders in which elements of one or several components over the same source are created, connected, moved and removed, for every source kind and clean-up option",
		why: "Tests connect and remove one or two elements in one order; reference counting fails in other orders (create without connecting, move, remove all and come back).",
		files: [F, X, R, M],
		mech: [["reference count of connected elements", F], ["ownership flag of the adapters", "src/adapters/*"], ["successor adapter after a release", F]],
	},
	{
		id: "C05",
		title: "Isolated elements share nothing",
		statement:
			"Each element of a component built from a definition or a factory has a state of its own: no event, command, timer, failure or removal of one element ever changes the state or the DOM of another one. Components over different sources never affect each other either.",
		over: ["schedules", "histories", "configurations"],
		text: "all populations of elements and components and all interleavings of their events, commands, timers, faults and removals",
		why: "Tests look at two instances and one event; leaks between instances through caches keyed by the wrong thing need particular populations and orders.",
		files: [F, CF, X, R, M],
		mech: [["one adapter per element", F], ["per-adapter registries", "src/adapters/*"], ["per-host render arguments", CF]],
	},
	{
		id: "C06",
		title: "Events, commands and emitted events act exactly once, in order",
		statement:
			"An event or command issued through a connected element reaches that element's own source exactly once, unmodified and in issue order, whichever way it was issued (argument of the view, DOM event, handler, command), and a command that reads the source sees its current state. An event emitted by a command is dispatched exactly once, with its payload, from the element that owns the command, and bubbles out of shadow roots.",
		over: ["schedules", "histories", "configurations"],
		text: "all interleavings of sends through current and older render arguments, DOM `send` events (also from nested elements), handlers, commands and external dispatches, with re-entrant sends",
		why: "Tests send single events at rest; duplicates and losses appear after reconnects, re-renders, nested components or re-entrant sends.",
		files: [E, CF, X, R, M, "src/igniteCore/*"],
		mech: [["send with payload unwrapping", E], ["command facade bound to host and actor", CF], ["adapter send", "src/adapters/*"]],
	},
	{
		id: "C07",
		title: "Nothing leaks: released elements leave no subscription behind",
		statement:
			"At every moment the subscriptions the library holds on an application's source are at most what its living elements need, and once all elements of a component that cleans up are gone there are none. The per-element source of an isolated element is stopped when the element is removed, so its timers and pending promises no longer take effect.",
		over: ["schedules", "histories", "fault_sequences"],
		text: "all histories of creation, connection, moves and removal, including failing renders and callbacks, ending in a complete tear-down",
		why: "Leaks only show up as counts on the source after long or unusual histories; tests check `stop` was called once.",
		files: [E, F, X, R, M],
		mech: [["unsubscribe on disconnect", E], ["stop of isolated adapters", E], ["subscription dropped with the last listener", "src/adapters/*"]],
	},
	{
		id: "C08",
		title: "After any history of views the DOM equals the last view",
		statement:
			"However a component's view changes from one render to the next (text, attributes, properties, styles, classes, SVG, fragments, lists, conditional parts, order), the resulting DOM is the same as if the last view had been rendered into an empty element. The diffing and the replacing mode, and every opt-out of diffing, give the same DOM.",
		over: ["histories", "inputs", "configurations", "fault_sequences"],
		text: "all sequences of JSX views, with user input, reconnections, forced renders, re-entrant updates and failing renders in between, in all renderer modes",
		why: "Tests patch from one hand-written view to one other; residue of earlier views shows only for particular pairs and longer sequences.",
		files: [J, JS, "src/renderers/jsx/types.ts", "src/renderers/jsx/jsx-runtime.ts", "src/renderers/jsx/noDiffDenylist.ts"],
		mech: [["patchChildren/patchProps/patchStyle", J], ["fallback to replacement", J], ["tree of the last completed render", JS]],
	},
	{
		id: "C09",
		title: "Updates keep nodes, focus and what the user typed",
		statement:
			"In diffing mode an update that keeps the structure of a child list (same kinds and tags in the same places, possibly with new children at the end) keeps those DOM nodes: they stay the same objects, keep focus, nested custom elements are not torn down, and what the user typed stays unless the view itself changes that field's value. A field in the middle of text composition is not overwritten by a changed value.",
		over: ["histories", "schedules", "configurations"],
		text: "all sequences of structure-keeping and other updates interleaved with typing, focus changes and text composition",
		why: "Tests check identity for a few fixed updates; the guarantee is about every update and every moment at which the user interacts.",
		files: [J, JS],
		mech: [["append-compatible child patching", J], ["unchanged props are not reassigned", J], ["composition guard", J]],
	},
	{
		id: "C10",
		title: "Exactly the handlers of the current view run, once",
		statement:
			"After any history of renders, an event on a rendered node runs exactly the handler that the current view binds to that event on that node, once; handlers of earlier views, removed or set to a non-function, never run.",
		over: ["histories", "configurations", "fault_sequences"],
		text: "all sequences in which handlers are added, replaced by new closures, removed, shared between nodes or set to null/false, across patches, replacements, reconnections and failed renders",
		why: "Tests swap one handler once.",
		files: [J],
		mech: [["listener replaced by identity", J], ["listener removed with its prop", J]],
	},
	{
		id: "C11",
		title: "A failing callback is reported, contained and recovered from",
		statement:
			"When application code fails (view, derived values, source factory, event handler, an element's setter), the error is reported and never swallowed, other elements and subscribers still receive and show the same update, and the source keeps what it accepted. A view that throws while it is evaluated leaves the element's DOM as it was, and once the code succeeds again the element shows the current state.",
		over: ["fault_sequences", "schedules", "histories"],
		text: "all placements of failures in views, derived values, factories, handlers, nested components and property setters, within all histories",
		why: "Tests throw in one place once and do not check the other elements, the source and the recovery.",
		files: [E, F, CF, J, JS, X, R, M],
		mech: [["error of a subscribed render reported asynchronously", E], ["render flags reset on failure", E], ["tree forgotten when a patch throws", JS]],
	},
	{
		id: "C12",
		title: "Updates raised during a render or notification are safe",
		statement:
			"A state change, connection, removal or command performed from inside a render, a child element's callback, a subscriber or an emitted event's listener never corrupts the DOM, never loses an event and never nests one render of an element in another. When the cascade ends, every connected element shows the final state; a render that keeps changing the state ends in an error instead of a hang.",
		over: ["schedules", "histories", "configurations"],
		text: "all placements of re-entrant operations of every kind, over several elements and sources, both renderers",
		why: "No test performs a state change from inside a render or notification.",
		files: [E, J, JS, X, R, M],
		mech: [["render loop with a request flag and a bounded number of passes", E], ["notification over a stable listener list", "src/adapters/*"]],
	},
	{
		id: "C13",
		title: "Every element gets the global stylesheet exactly once",
		statement:
			"Every element's shadow root ends up with exactly one link to the global stylesheet: the one configured when the element was created or, if none was, the one configured by the first configuration load after that; it carries the configured integrity and cross-origin attributes. The link survives every later render, reconnection, tear-down and configuration, is never duplicated, and precedes the content; without a configured stylesheet, or with an invalid path, there is none.",
		over: ["schedules", "histories", "configurations"],
		text: "all orders of configuration loads (fast, slow, failing), direct style changes, element creations, connections and renders, with both renderers",
		why: "Tests set styles and then mount, or mount and then flush, with one root and without rendering afterwards.",
		files: [IS, "src/globalStyles.ts", "src/config.ts", LC, JS, L],
		mech: [["pending roots flushed when a configuration arrives", IS], ["processed roots remembered", IS]],
	},
	{
		id: "C14",
		title: "Configuration loads are atomic under any timing and failure",
		statement:
			"A configuration takes effect as a whole at the moment its module arrives, the last one to arrive wins, and the promise of a load resolves with the normalised configuration only once the renderer it names can be used. A module that fails to load, has no configuration or arrives with an unusable one leaves the active configuration untouched and other loads unaffected; a failed load (of the module or of the renderer) rejects with its error, and loading again works.",
		over: ["schedules", "fault_sequences", "configurations"],
		text: "all interleavings of overlapping loads whose module and renderer requests are delayed, reordered or fail, with components registered and mounted before, between and after, in the browser and without a DOM",
		why: "Tests await one load that succeeds immediately.",
		files: [LC, "src/config.ts", "src/renderers/resolveConfiguredRenderStrategy.ts", "src/renderers/lit.ts", "src/renderers/ignite-jsx.ts", "src/internal/setupDomPolyfill.ts"],
		mech: [["define after the module arrived, renderer awaited afterwards", LC], ["fallback renderer with a warning", "src/renderers/resolveConfiguredRenderStrategy.ts"]],
	},
	{
		id: "C15",
		title: "Adapters deliver every state, in order, only while subscribed",
		statement:
			"A subscriber of an adapter is given the current state at once and afterwards every new state of the source, in order, exactly as long as it is subscribed and the adapter is not stopped; unsubscribing and stopping take effect immediately, even during a notification, may be repeated, and never affect other subscribers. A stopped adapter refuses new subscribers, ignores events with a warning and keeps reporting the state it was stopped at; stopping it stops the source only when the adapter created that source.",
		over: ["schedules", "histories", "configurations"],
		text: "all sequences of subscribe, unsubscribe, send, external change, stop and re-creation, performed at rest or from inside listeners, for every kind of source",
		why: "Tests use one listener and perform every step at rest.",
		files: [X, R, M, "src/IgniteAdapter.ts"],
		mech: [["listener sets and lazy source subscription", "src/adapters/*"], ["stopped flag and last known snapshot", "src/adapters/*"]],
	},
	{
		id: "C16",
		title: "Build plugins load the configuration exactly once per entry",
		statement:
			"Whatever the shape of a project's entries (also asynchronous or failing ones) and however often the plugin is applied, every entry that names modules loads the project's configuration file exactly once, to completion, before its own modules, which stay complete and in order with all their options; failures of entry functions are passed on, repeated calls work and the project's own objects are not modified. Every page, wherever it lies, served or built, gets exactly one such load, for the configuration file found at start-up; without a configuration file the build and the pages are left untouched.",
		over: ["histories", "configurations", "fault_sequences", "schedules"],
		text: "all entry shapes and orders of plugin application, entry resolution (delayed, failing, repeated), start-up and page requests, with configuration files present, missing, appearing or disappearing",
		why: "Tests apply a plugin once to a handful of literal entries.",
		files: ["src/plugins/webpackIgniteConfigPlugin.ts", "src/plugins/viteIgniteConfigPlugin.ts", "src/plugins/configFile.ts"],
		mech: [["recursive wrapping of entry functions", "src/plugins/webpackIgniteConfigPlugin.ts"], ["duplicate check by module id", "src/plugins/webpackIgniteConfigPlugin.ts"], ["config resolved once", "src/plugins/viteIgniteConfigPlugin.ts"]],
	},
	{
		id: "C17",
		title: "Release tooling stops at the first failure and leaks no secret",
		statement:
			"The release script publishes only after every earlier step (clean tree, npm login, change status, tests, build, version, install) has succeeded in that order, and any failing step or prompt ends it with a failure and no later step; a dry run never publishes for real, and a one-time password given as an option or at the prompt reaches the publish step only. The token refresh stores the new token in the configured repository or fails; neither tool ever writes a token or password to its output.",
		over: ["fault_sequences", "histories", "configurations"],
		text: "all placements of failures of child processes, network requests and prompts, over all flags and environments",
		why: "Tests mock one failing call at a time for the token refresh; the release script has none.",
		files: ["scripts/release-beta.mjs", "scripts/refresh-npm-token.js"],
		mech: [["synchronous steps whose failure propagates", "scripts/release-beta.mjs"], ["exit code 1 on any error", "scripts/release-beta.mjs"], ["response checked", "scripts/refresh-npm-token.js"]],
	},
	{
		id: "C18",
		title: "The kind of source is recognised for every value",
		statement:
			"For every value passed as a source the library either picks the one matching adapter or throws a descriptive error, and an explicitly named adapter always wins.",
		over: ["inputs"],
		text: "all source values",
		why: "The tests try one value of each kind.",
		files: ["src/IgniteCore.ts", "src/utils/adapterGuards.ts", "src/utils/mobxGuards.ts", "src/utils/igniteRedux.ts"],
		mech: [["guards evaluated in a fixed order", "src/IgniteCore.ts"]],
		na: "A pure function of its input: no schedule, clock, fault or interleaving takes part, so there is nothing for a simulator to decide. (Every simulated component still goes through it, for all seven source kinds.)",
	},
	{
		id: "C19",
		title: "Name normalisation is total",
		statement:
			"Event, style and SVG attribute names, import specifiers and configuration paths are normalised to the documented form for every input.",
		over: ["inputs"],
		text: "all names and paths",
		why: "The tests try a few names.",
		files: [J, "src/plugins/viteIgniteConfigPlugin.ts", "src/plugins/configFile.ts"],
		mech: [["string rewriting", J]],
		na: "Pure string functions: nothing to schedule and no fault to inject. The names the simulated views use are checked through the DOM under C08 and C10.",
	},
];

const WORLD_NOTE = {
	app: "whole components on a simulated page",
	view: "the JSX renderer driven through a real element by generated view histories, a simulated user and faults",
	boot: "page start-up with simulated module and chunk delivery",
	adapters: "the adapters alone under many re-entrant subscribers",
	values: "components over generated values (falsy, odd and repeated ones) as state, event and payload",
	tools: "build plugins and scripts against simulated file system, processes, network and terminal",
};

if (process.argv[1] === fileURLToPath(import.meta.url)) {
	const { CHECKS } = await import("../sim/checks.mjs");
	const root = new URL("../", import.meta.url);
	writeFileSync(
		new URL("properties.jsonl", root),
		PROPERTIES.map((p) =>
			JSON.stringify({
				id: p.id,
				title: p.title,
				statement: p.statement,
				quantifier: { over: p.over, text: p.text },
				why_tests_cant: p.why,
				anchors: { files: p.files, mechanism: p.mech.map(([name, where]) => ({ name, where })), hook_needed: null },
			}),
		).join("\n") + "\n",
	);
	const manifest = {
		version: 1,
		setup_cmd: "node tools/setup.mjs",
		checks: PROPERTIES.filter((p) => !p.na).map((p) => {
			const c = CHECKS[p.id];
			const worlds = [...new Set(c.parts.map((x) => x.world))];
			return {
				property: p.id,
				quick_cmd: `node sim/run.mjs --property ${p.id}`,
				thorough_cmd: `node sim/run.mjs --property ${p.id}`,
				evidence_file: `evidence/${p.id}.json`,
				technique: "deterministic simulation with fault injection: seeded search over schedules and fault sequences, reference-model oracles, minimised replay files",
				level: "exploration",
				level_note: `Real code in ${worlds.map((w) => WORLD_NOTE[w]).join("; ")}. Samples ${c.quick} runs (quick) or up to ${c.thorough} (thorough); a clean result is evidence, not proof. Assumes: ${c.assumptions.join("; ")}.`,
			};
		}),
		not_applicable: PROPERTIES.filter((p) => p.na).map((p) => ({ property: p.id, reason: p.na })),
		notes: "No hooks in /repo: every seam is put in place by the simulator's own bundle of /repo's working tree (see DESIGN.md). Repairs in /repo are the commits starting with fix:, listed in known-findings.json.",
	};
	writeFileSync(new URL("MANIFEST.json", root), `${JSON.stringify(manifest, null, 1)}\n`);
}
