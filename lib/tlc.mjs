// Runs TLC and reads what the specifications print.
import { spawn } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import readline from 'node:readline';
import { VERIF } from './paths.mjs';
const CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar';

export function scratch(tag) { return fs.mkdtempSync(path.join(os.tmpdir(), 'verif-' + tag + '-')); }

// onLine(tag, json) gets every printed "TAG {...}" line.
export function tlc(module, { cfg, env = {}, args = [], workers = 1, heap = '3g', onPrint = () => {}, timeout = Number(process.env.TLC_TIMEOUT ?? 850), fp, stuck } = {}) {
    return new Promise((resolve, reject) => {
        const dir = scratch('tlc');
        const t0 = Date.now();
        const p = spawn('java', ['-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + dir, '-cp', CP, 'tlc2.TLC', '-workers', String(workers), '-noGenerateSpecTE', '-metadir', dir, '-config', cfg ?? module.replace(/\.tla$/, '.cfg'), ...args, module], { cwd: path.join(VERIF, 'spec'), env: { ...process.env, ...env }, stdio: ['ignore', 'pipe', 'inherit'] });
        const kill = setTimeout(() => p.kill('SIGKILL'), timeout * 1000);
        // stuck: {tag, ms} - ended when nothing with that tag was printed for so long
        let last = 0;
        const watch = stuck && setInterval(() => { if (last && Date.now() - last > stuck.ms) p.kill('SIGKILL'); }, 1000);
        const rest = [];
        let printed = 0;
        const rl = readline.createInterface({ input: p.stdout, crlfDelay: Infinity });
        rl.on('line', (line) => {
            if (line.startsWith('"')) {
                let s;
                try { s = JSON.parse(line); } catch { rest.push(line); return; }
                const i = s.indexOf(' ');
                const tag = i < 0 ? s : s.slice(0, i), body = i < 0 ? '' : s.slice(i + 1);
                printed++;
                if (tag === stuck?.tag) last = Date.now();
                onPrint(tag, body);
            } else if (rest.length < 4000) rest.push(line);
        });
        let code = null, closed = false;
        const fin = () => {
            if (code === null || !closed) return;
            clearTimeout(kill); clearInterval(watch);
            fs.rmSync(dir, { recursive: true, force: true });
            const text = rest.join('\n');
            const walked = /The number of states generated: (\d+)/.exec(text);
            const m = /(\d+) states generated, (\d+) distinct states found/.exec(text.replace(/,(?=\d{3})/g, ''));
            resolve({ code, text, printed, states: m ? Number(m[2]) : 0, generated: m ? Number(m[1]) : walked ? Number(walked[1]) : 0, ms: Date.now() - t0, ok: code === 0 });
        };
        rl.on('close', () => { closed = true; fin(); });
        p.on('close', (c, sig) => { code = c ?? 'signal ' + sig; fin(); });
        p.on('error', reject);
    });
}
