// Compiles the contracts ahead of the checks (which do it themselves when something changed).
import { compile } from '../lib/sol.mjs';
await compile(['facet', 'lib', 'vsm', 'vproxy', 'list']);
console.log('ready');
