// Builds the code under test from /repo's current working tree, in memory.
//   ignite : every library entry point (plus the modules the repository's own
//            tests import), peers left external
//   vendor : the real xstate / mobx / redux / @reduxjs/toolkit / lit-html
//   tools  : the repository's maintenance scripts
// Every dynamic import() of the library is redirected to a simulator seam.
import { createRequire } from "node:module";
import { existsSync } from "node:fs";
import path from "node:path";

export const REPO = process.env.VERIF_REPO ?? "/repo";

export function loadEsbuild() {
	const tries = [
		() => createRequire("/opt/veriftools/node/node_modules/x.js")("esbuild"),
		() =>
			createRequire(
				createRequire(
					createRequire(`${REPO}/package.json`).resolve("vitest/package.json"),
				).resolve("vite/package.json"),
			)("esbuild"),
	];
	let last;
	for (const t of tries) {
		try {
			return t();
		} catch (e) {
			last = e;
		}
	}
	throw last;
}

export const PEERS = ["xstate", "mobx", "redux", "@reduxjs/toolkit", "lit-html"];

const tsconfigRaw = {
	compilerOptions: {
		target: "ES2022",
		useDefineForClassFields: true,
		experimentalDecorators: true,
		jsx: "react-jsx",
	},
};

const ENTRY = {
	index: "./src/index",
	xstate: "./src/xstate",
	redux: "./src/redux",
	mobx: "./src/mobx",
	core: "./src/IgniteCore",
	jsxRuntime: "./src/jsx/jsx-runtime",
	jsxRenderer: "./src/renderers/ignite-jsx",
	jsxStrategy: "./src/renderers/jsx/IgniteJsxRenderStrategy",
	factory: "./src/createComponentFactory",
	xstateAdapter: "./src/adapters/XStateAdapter",
	reduxAdapter: "./src/adapters/ReduxAdapter",
	mobxAdapter: "./src/adapters/MobxAdapter",
	configVite: "./src/config/vite",
	configWebpack: "./src/config/webpack",
	config: "./src/config",
};
const LAZY = { lit: "./src/renderers/lit" };

function entrySource(dynamicTargets) {
	const lines = [];
	for (const [name, file] of Object.entries(ENTRY)) {
		lines.push(`export * as ${name} from ${JSON.stringify(file)};`);
	}
	lines.push("export const __lazy = {");
	for (const [name, file] of Object.entries(LAZY)) {
		lines.push(`  ${JSON.stringify(name)}: () => require(${JSON.stringify(file)}),`);
	}
	lines.push("};");
	lines.push("export const __dynamic = {");
	for (const file of dynamicTargets) {
		lines.push(`  ${JSON.stringify(file)}: () => require(${JSON.stringify(file)}),`);
	}
	lines.push("};");
	return lines.join("\n");
}

export async function buildAll(repo = REPO) {
	const esbuild = loadEsbuild();
	const common = {
		bundle: true,
		write: false,
		format: "cjs",
		platform: "browser",
		target: "es2022",
		logLevel: "silent",
		absWorkingDir: repo,
		legalComments: "none",
		tsconfigRaw,
		// decided per run: bundlers write "production" or "development" here
		define: { "process.env.NODE_ENV": "__simNodeEnv" },
	};
	const isPeer = (p) => PEERS.some((x) => p === x || p.startsWith(`${x}/`));

	async function bundleIgnite(dynamicTargets, found) {
		return esbuild.build({
			...common,
			stdin: {
				contents: entrySource(dynamicTargets),
				resolveDir: repo,
				loader: "ts",
				sourcefile: "sim-entry.ts",
			},
			plugins: [
				{
					name: "sim-seams",
					setup(b) {
						b.onResolve({ filter: /.*/ }, async (args) => {
							if (args.pluginData === "sim") return undefined;
							if (args.path.startsWith("node:") || ["fs", "path", "url"].includes(args.path)) {
								return { path: args.path, external: true };
							}
							if (isPeer(args.path)) {
								if (args.kind === "dynamic-import") {
									return { path: `sim:peer:${args.path}`, external: true };
								}
								return { path: args.path, external: true };
							}
							if (args.kind === "dynamic-import") {
								const r = await b.resolve(args.path, {
									resolveDir: args.resolveDir,
									kind: "import-statement",
									pluginData: "sim",
								});
								if (r.errors.length) return { errors: r.errors };
								found.add(r.path);
								return { path: `sim:${r.path}`, external: true };
							}
							return undefined;
						});
					},
				},
			],
		});
	}

	const found = new Set();
	await bundleIgnite([], found);
	// Modules reached only through other dynamic imports are found on the next
	// pass; two passes are enough for this code base, loop to a fixpoint anyway.
	let targets = [];
	let out;
	for (let i = 0; i < 5; i++) {
		targets = [...found].sort();
		out = await bundleIgnite(targets, found);
		if (found.size === targets.length) break;
	}
	const ignite = out.outputFiles[0].text.replace(/\bimport\("sim:/g, '__simImport("sim:');

	const vendor = (
		await esbuild.build({
			...common,
			stdin: {
				// evaluated on demand: lit-html needs a document
				contents: `module.exports = { ${PEERS.map((p, i) => `get m${i}() { return require(${JSON.stringify(p)}); }`).join(", ")} };`,
				resolveDir: repo,
				loader: "js",
				sourcefile: "vendor-entry.js",
			},
		})
	).outputFiles[0].text;

	const tools = {};
	for (const [name, file] of Object.entries({
		refresh: "scripts/refresh-npm-token.js",
		release: "scripts/release-beta.mjs",
	})) {
		const abs = path.join(repo, file);
		if (!existsSync(abs)) continue;
		tools[name] = (
			await esbuild.build({
				...common,
				platform: "node",
				define: {},
				entryPoints: [abs],
			})
		).outputFiles[0].text;
	}
	tools.plugins = (
		await esbuild.build({
			...common,
			platform: "node",
			define: {},
			stdin: {
				contents: `export * from "./src/config/vite";\nexport * from "./src/config/webpack";`,
				resolveDir: repo,
				loader: "ts",
				sourcefile: "plugins-entry.ts",
			},
		})
	).outputFiles[0].text;
	return { ignite, vendor, tools, dynamicTargets: targets };
}
