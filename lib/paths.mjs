// Where things are. VERIF_REPO is only for development against a scratch copy; the registered
// commands leave it unset and always check /repo.
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { createRequire } from 'node:module';
export const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
export const REPO = process.env.VERIF_REPO || '/repo';
export const BUILD = process.env.VERIF_BUILD || path.join(VERIF, 'build');
export const OUT = path.join(VERIF, 'out');
export const repoRequire = createRequire(path.join(REPO, 'package.json'));
export const TOOLS_NM = '/opt/veriftools/node/node_modules';
export const toolsRequire = createRequire(path.join(TOOLS_NM, 'x.js'));
