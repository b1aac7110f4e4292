// What every check shares: the tier and seed, violations, known findings, evidence.
import fs from 'node:fs';
import path from 'node:path';
import { spawn } from 'node:child_process';
import { VERIF, OUT } from './paths.mjs';

export const SEED = Number.parseInt(process.env.VERIF_SEED ?? '1', 10) || 1;
export const TIER = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
export const THOROUGH = TIER === 'thorough';
export const MAX_VIOLATIONS = 5;

let live = null;
export class Check {
    constructor(id, level = 'model_checking') {
        this.id = id;
        this.level = level;
        this.t0 = Date.now();
        this.violations = [];
        this.known = new Map();
        this.cov = { states: 0, transitions: 0, traces_validated_against_impl: 0, samples: [] };
        const f = path.join(VERIF, 'known-findings.json');
        this.findings = fs.existsSync(f) ? JSON.parse(fs.readFileSync(f, 'utf8')).findings.filter((x) => x.property === id && x.status === 'known') : [];
        live = this;
        this.budget = (THOROUGH ? 780 : 240) * 1000;
    }
    left() { return this.budget - (Date.now() - this.t0); }
    add(name, n = 1) { this.cov[name] = (this.cov[name] ?? 0) + n; }
    sample(x) { if (this.cov.samples.length < 4) this.cov.samples.push(x); }
    // sig: what identifies the failing history, compared with the known findings' "match" (all its fields)
    violation(what, replay, sig = {}) {
        const k = this.findings.find((f) => Object.entries(f.match).every(([q, v]) => sig[q] === v));
        if (k) { this.known.set(k.id, k); return; }
        this.violations.push({ what, replay });
    }
    finish(extra = {}) {
        live = null;
        Object.assign(this.cov, extra);
        fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
        fs.mkdirSync(OUT, { recursive: true });
        fs.writeFileSync(path.join(VERIF, 'evidence', this.id + '.json'),
            JSON.stringify({ property: this.id, tier: TIER, seed: SEED, level: this.level, coverage: this.cov, wall_s: (Date.now() - this.t0) / 1000, violations: this.violations.length, known_findings: [...this.known.keys()] }, null, 1) + '\n');
        for (const k of this.known.values()) console.log(`KNOWN-FINDING: property=${this.id} ${k.what}`);
        this.violations.slice(0, MAX_VIOLATIONS).forEach((v, i) => {
            const f = path.join(OUT, `${this.id}-${i + 1}.json`);
            fs.writeFileSync(f, JSON.stringify({ property: this.id, seed: SEED, what: v.what, ...v.replay }, null, 1) + '\n');
            console.log(`VIOLATION property=${this.id} replay=${f}`);
            console.log('  ' + String(v.what).slice(0, 1500));
        });
        const c = this.cov;
        console.log(`${this.id}: ${this.violations.length ? this.violations.length + ' violation(s)' : 'held'} - ${c.states} states, ${c.transitions} transitions, ${c.traces_validated_against_impl} behaviours against the code, ${((Date.now() - this.t0) / 1000).toFixed(1)} s`);
        process.exit(this.violations.length ? 1 : 0);
    }
}

// For code under test that runs in the check's own process and may never give the thread back:
// the rest of the check runs in a child.
export async function inChild(id) {
    if (process.env.VERIF_CHILD) return;
    const p = spawn(process.execPath, process.argv.slice(1), { stdio: 'inherit', env: { ...process.env, VERIF_CHILD: '1' } });
    let late = false;
    const t = setTimeout(() => { late = true; p.kill('SIGKILL'); }, (THOROUGH ? 840 : 400) * 1000);
    const c = await new Promise((r) => p.on('exit', r));
    clearTimeout(t);
    if (late) { live = new Check(id); failed('the code under test never comes back'); }
    process.exit(c ?? 2);
}
// the check itself can't be carried out
export function broken(msg) { if (live?.violations.length) live.finish(); if (msg?.ended) failed(msg.message); console.error('ERROR: ' + (msg?.stack ?? msg)); process.exit(2); }
// what the code under test does to this process
function failed(what) { if (!live) return; const c = live; c.violation(what, { kind: 'process' }); c.finish(); }
process.on('unhandledRejection', (e) => { failed('the code under test lets a rejection go unhandled: ' + (e?.stack ?? e)); broken(e); });
process.on('uncaughtException', (e) => { failed('the code under test throws where nobody catches: ' + (e?.stack ?? e)); broken(e); });
process.on('beforeExit', () => failed('the code under test never comes back: what it was asked to do is not done and nothing is under way'));
