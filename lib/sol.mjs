// Compiles the contracts of /repo's working tree (plus the harness contracts of /verif/sol that
// extend them) with the solc-js 0.8.26 that hardhat ships, with hardhat.config.ts's settings.
// One worker process per group of contracts; results are cached under build/ by source hash.
import fs from 'node:fs';
import path from 'node:path';
import crypto from 'node:crypto';
import { spawn } from 'node:child_process';
import { createRequire } from 'node:module';
import { fileURLToPath } from 'node:url';
import { VERIF, REPO, BUILD } from './paths.mjs';

const SETTINGS = { viaIR: true, evmVersion: 'paris', optimizer: { enabled: true, runs: 100 } }; // as hardhat resolves hardhat.config.ts

function readSources() {
    const sources = {};
    const walk = (dir, base, pre) => {
        for (const f of fs.readdirSync(dir).sort()) {
            const p = path.join(dir, f);
            if (fs.statSync(p).isDirectory()) walk(p, base, pre);
            else if (p.endsWith('.sol'))
                sources[pre + path.relative(base, p)] = { content: fs.readFileSync(p, 'utf8') };
        }
    };
    walk(path.join(REPO, 'contracts'), REPO, '');
    walk(path.join(VERIF, 'sol'), path.join(VERIF, 'sol'), 'verif/');
    return sources;
}

export const CONTRACTS = {
    facet: ['contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol', 'DisputeManagerFacet'],
    lib: ['contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol', 'StateChannelUtilLibrary'],
    math: ['contracts/V1/examples/MathStateMachine/MathStateMachine.sol', 'MathStateMachine'],
    mathProxy: ['contracts/V1/examples/MathStateMachine/MathStateChannelManagerProxy.sol', 'MathStateChannelManagerProxy'],
    list: ['contracts/common/DoubleLinkedList.sol', 'DoubleLinkedList'],
    vsm: ['verif/VStateMachine.sol', 'VStateMachine'],
    vproxy: ['verif/VProxy.sol', 'VProxy'],
    storageSm: ['contracts/test/SimpleNumberStorage.sol', 'SimpleNumberStorage']
};

// transitive imports, so that a cached artifact is keyed by exactly what it is made of
function closure(sources, entry) {
    const seen = new Set();
    const go = (f) => {
        if (seen.has(f)) return;
        seen.add(f);
        const src = sources[f]?.content ?? fs.readFileSync(path.join(REPO, 'node_modules', f), 'utf8');
        for (const m of src.matchAll(/^\s*import\s+(?:[^"';]*from\s+)?["']([^"']+)["']/gm)) {
            const imp = m[1].startsWith('.') ? path.posix.normalize(path.posix.join(path.posix.dirname(f), m[1])) : m[1];
            go(imp);
        }
    };
    go(entry);
    return [...seen].sort();
}

export async function compile(names) {
    const sources = readSources();
    fs.mkdirSync(path.join(BUILD, 'sol'), { recursive: true });
    const res = {};
    const todo = [];
    for (const n of names) {
        const [file, cname] = CONTRACTS[n];
        const files = closure(sources, file);
        const h = crypto.createHash('sha256').update(JSON.stringify(SETTINGS) + cname);
        for (const f of files) h.update(f).update('\0').update(sources[f]?.content ?? fs.readFileSync(path.join(REPO, 'node_modules', f), 'utf8'));
        const cache = path.join(BUILD, 'sol', n + '-' + h.digest('hex').slice(0, 24) + '.json');
        if (fs.existsSync(cache)) res[n] = JSON.parse(fs.readFileSync(cache, 'utf8'));
        else todo.push({ n, file, cname, cache, files });
    }
    await Promise.all(
        todo.map(
            (t) =>
                new Promise((resolve, reject) => {
                    const src = {};
                    for (const f of t.files) src[f] = sources[f] ?? { content: fs.readFileSync(path.join(REPO, 'node_modules', f), 'utf8') };
                    const input = {
                        language: 'Solidity',
                        sources: src,
                        settings: { ...SETTINGS, outputSelection: { [t.file]: { [t.cname]: ['abi', 'evm.bytecode.object', 'evm.bytecode.linkReferences'] } } }
                    };
                    const p = spawn(process.execPath, [fileURLToPath(import.meta.url), '--worker'], { stdio: ['pipe', 'pipe', 'inherit'] });
                    let out = '';
                    p.stdout.on('data', (d) => (out += d));
                    p.on('close', (code) => {
                        if (code !== 0) return reject(new Error('solc worker failed for ' + t.n));
                        const o = JSON.parse(out);
                        const errs = (o.errors || []).filter((e) => e.severity === 'error');
                        if (errs.length) return reject(new Error('solc: ' + errs.map((e) => e.formattedMessage).join('\n')));
                        const c = o.contracts[t.file][t.cname];
                        const art = { abi: c.abi, bytecode: c.evm.bytecode.object, links: c.evm.bytecode.linkReferences };
                        const tmp = t.cache + '.' + process.pid;
                        fs.writeFileSync(tmp, JSON.stringify(art));
                        fs.renameSync(tmp, t.cache);
                        res[t.n] = art;
                        resolve();
                    });
                    p.stdin.end(JSON.stringify(input));
                })
        )
    );
    return res;
}

// links = {StateChannelUtilLibrary: address}
export function link(art, addrs) {
    let code = art.bytecode;
    for (const file in art.links)
        for (const name in art.links[file])
            for (const { start, length } of art.links[file][name])
                code = code.slice(0, start * 2) + addrs[name].toLowerCase().replace(/^0x/, '') + code.slice((start + length) * 2);
    return '0x' + code;
}

if (process.argv[2] === '--worker') {
    const require = createRequire(path.join(REPO, 'node_modules/hardhat/package.json'));
    const solc = require('solc');
    let s = '';
    for await (const c of process.stdin) s += c;
    process.stdout.write(solc.compile(s));
}
