import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { createRequire } from 'node:module';
export const VERIF = path.dirname(fileURLToPath(import.meta.url));
export const REPO = process.cwd();
export const BUILD = process.env.DEMO_SCRATCH;
export const repoRequire = createRequire(path.join(REPO, 'package.json'));
