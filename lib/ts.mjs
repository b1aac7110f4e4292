// Bundles the TypeScript of /repo's working tree. Every peer gets an instance of its own (the code
// keeps its clock in a static singleton) with injected timers, Date and console.
import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';
import { createRequire } from 'node:module';
import { REPO, repoRequire, toolsRequire } from './paths.mjs';

const STUBS = {
    'get-webrtc': 'module.exports={RTCPeerConnection:class{constructor(){return new (globalThis.__verif.RTC)()}}};',
    hyperswarm: 'module.exports=class{constructor(o){return globalThis.__verif.swarm(o)}};',
    '@hyperswarm/dht-relay': 'module.exports=class{constructor(stream){this.stream=stream}};',
    '@hyperswarm/dht-relay/ws': 'module.exports=class{constructor(first,ws){this.ws=ws}};'
};
// what the harness reaches into, besides the package's index
const ENTRY = `
export * from '@/index';
export { default as AgreementManager } from '@/agreementManager';
export { default as StateManager } from '@/stateManager';
export { default as DisputeHandler } from '@/DisputeHandler';
export { default as ProofManager } from '@/ProofManager';
export { default as ProfileManager } from '@/ProfileManager';
export { default as PeerProfile } from '@/PeerProfile';
export { default as P2PManager } from '@/P2PManager';
export * as Utils from '@/utils';
export * as SetUtils from '@/utils/set';
export * as Types from '@/types';
export * as Disputes from '@/types/disputes';
export * as RpcMod from '@/rpc/Rpc';
export * as RpcIdx from '@/rpc';
export * as Transport from '@/transport';
export * as Evm from '@/evm';
export { default as Holepunch } from '@/Holepunch';
export { default as HolepunchRelay } from '@/HolepunchRelay';
export { default as HolepunchTransport } from '@/transport/HolepunchTransport';
export { default as WebRTCTransport } from '@/transport/WebRTCTransport';
export { default as LocalTransport } from '@/transport/LocalTransport';
`;
let bundle = null;
export async function bundleSource() {
    if (bundle) return bundle;
    const esbuild = toolsRequire('esbuild');
    const src = path.join(REPO, 'src');
    const resolveTs = (p) => {
        for (const c of [p, p + '.ts', p + '.tsx', path.join(p, 'index.ts')]) if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
        throw new Error('cannot resolve ' + p);
    };
    const plugin = {
        name: 'verif',
        setup(b) {
            b.onResolve({ filter: /^@\// }, (a) => ({ path: resolveTs(path.join(src, a.path.slice(2))) }));
            b.onResolve({ filter: /typechain-types/ }, (a) => ({ path: a.path, namespace: 'empty' }));
            b.onResolve({ filter: /^(get-webrtc|hyperswarm|@hyperswarm\/dht-relay(\/ws)?)$/ }, (a) => ({ path: a.path, namespace: 'stub' }));
            b.onLoad({ filter: /.*/, namespace: 'empty' }, () => ({ contents: 'module.exports={};', loader: 'js' }));
            b.onLoad({ filter: /.*/, namespace: 'stub' }, (a) => ({ contents: STUBS[a.path], loader: 'js' }));
        }
    };
    const there = (p) => { try { resolveTs(path.join(src, p.slice(2))); return true; } catch { return false; } };
    const entry = ENTRY.split('\n').filter((l) => !/'(@\/[^']*)'/.test(l) || there(l.match(/'(@\/[^']*)'/)[1])).join('\n');
    const r = await esbuild.build({
        stdin: { contents: entry, resolveDir: src, loader: 'ts', sourcefile: 'verif-entry.ts' },
        bundle: true, write: false, format: 'cjs', platform: 'node', target: 'es2022', packages: 'external',
        plugins: [plugin], logLevel: 'silent', tsconfigRaw: { compilerOptions: { target: 'es2022', useDefineForClassFields: false, experimentalDecorators: true } }
    });
    return (bundle = r.outputFiles[0].text);
}
const req = createRequire(path.join(REPO, 'src', 'index.ts'));
let fn = null;
const GLOBALS = ['require', 'module', 'exports', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'Date', 'console', 'global', 'globalThis', 'process', 'window', '__dirname', '__filename', 'WebSocket'];
// One instance of the code. env: {setTimeout, clearTimeout, Date, console, Hyperswarm, RTC}
export async function instance(env = {}) {
    if (!fn) fn = vm.compileFunction(await bundleSource(), GLOBALS, { filename: 'state-channels-plus.bundle.js' });
    const quiet = { log() {}, error() {}, warn() {}, info() {}, debug() {}, trace() {}, table() {}, assert() {} };
    const g = Object.create(globalThis);
    const swarm = env.Hyperswarm ?? { removeAllListeners() {}, on() {}, join() { return {}; }, leave() {} };
    if (!env.window) g.Hyperswarm = swarm;
    g.__verif = { swarm: env.newSwarm ?? (() => swarm), RTC: env.RTC ?? class {} };
    if (env.globals) Object.assign(g, env.globals);
    const module = { exports: {} };
    const proc = Object.create(process, { env: { value: env.processEnv ?? {} } });
    fn(env.modules ? Object.assign((m) => env.modules[m] ?? req(m), { resolve: req.resolve }) : req, module, module.exports, env.setTimeout ?? setTimeout, env.clearTimeout ?? clearTimeout, env.setInterval ?? setInterval, env.clearInterval ?? clearInterval, env.setImmediate ?? setImmediate,
        env.Date ?? Date, env.console ?? quiet, g, g, proc, env.window, path.join(REPO, 'src'), path.join(REPO, 'src', 'index.ts'), env.WebSocket ?? globalThis.WebSocket);
    return module.exports;
}

// Speed only: native, memoized signature recovery for the ethers that the code uses
const secp = (() => { try { return repoRequire('secp256k1'); } catch { return null; } })();
export const ethers = repoRequire('ethers').ethers;
{
    const SK = ethers.SigningKey, orig = SK.recoverPublicKey, memo = new Map();
    SK.recoverPublicKey = function (digest, signature) {
        const k = (typeof digest === 'string' ? digest : ethers.hexlify(digest)) + '|' + (typeof signature === 'string' ? signature : signature?.serialized ?? JSON.stringify(signature));
        let x = memo.get(k);
        if (!x) {
            try {
                const sig = ethers.Signature.from(signature);
                x = { v: secp ? '0x' + Buffer.from(secp.ecdsaRecover(ethers.getBytes(ethers.concat([sig.r, sig.s])), sig.yParity, ethers.getBytes(digest), false)).toString('hex') : orig.call(SK, digest, signature) };
            } catch (e) { x = { e }; }
            if (memo.size > 200000) memo.clear();
            memo.set(k, x);
        }
        if (x.e) throw x.e;
        return x.v;
    };
}
