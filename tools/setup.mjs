// Nothing to install: checks that what the simulator needs is there and that
// /repo can be bundled.
import { buildAll } from "../sim/build.mjs";
import { prepare } from "../sim/env.mjs";

prepare(await buildAll());
console.log("simulator ready");
process.exit(0);
