// node checks/peer.mjs <property>
import { Check, THOROUGH, broken } from '../lib/check.mjs';
import { artifacts } from '../lib/onchain.mjs';
import { peerHistories } from '../lib/offchain.mjs';
import { proofModels } from '../lib/proofs.mjs';
import { courtModels } from '../lib/court.mjs';
import { channelModels } from '../lib/channel.mjs';
import { agreementModels } from '../lib/agreement.mjs';

const H = (quick, thorough) => (THOROUGH ? thorough : quick);
const ALL = {};
const P = (salt, ...profiles) => ({ salt, profile: profiles.length ? profiles : [ALL], count: H(200, 1800), len: 40 });
const CALM = { skew: 0.1, timeout: 0.5, stale: 0.5, slash: 0.5, chal: 0.5, leave: 0.3, join: 0.3 };
const PLAN = {
    C20: P(20, ALL, { ...CALM, all: 0.7, near: 3, past: 3, story: 0.08, stories: { game: 3, early: 1, fork: 1, confirm: 1 } }),
    C21: P(21, ALL, { ...CALM, near: 24, past: 14, post: 8, postbad: 8, story: 0.12, stories: { misses: 3, edges: 1, latepost: 2, unsigned: 1, game: 1 } }),
    C22: P(22, ALL, { ...CALM, ahead: 24, again: 8, conf: 16, batch: 0.15, early: 0.3, lossy: 0.02, story: 0.15, stories: { early: 4, fork: 3, game: 1 } }),
    C23: P(23, ALL, { ...CALM, conf: 36, deliver: 24, again: 10, story: 0.15, stories: { confirm: 4, early: 1.5, unsigned: 1, game: 1 } }),
    C25: P(25, ALL, { ...CALM, chain: 14, post: 20, postbad: 10, event: 24, story: 0.12, stories: { latepost: 3, unsigned: 1, liars: 1, late: 1.5, stranger: 1, fork: 1 } }),
    C30: P(30, ALL, { ...CALM, near: 30, good: 10, past: 4, early: 0.25, story: 0.15, stories: { misses: 3, edges: 2, latepost: 3, unsigned: 0.5 } }),
    C31: { ...P(31, ALL, { ...CALM, peers: 1, all: 0.6, deliver: 30, lossy: 0.02, batch: 0.15, story: 0.15, stories: { game: 3, fork: 1, early: 1 } }), cfg: 'PeersTrace.cfg' },
    C32: P(32, ALL, { junk: 6, batch: 0.2, near: 16, story: 0.06, stories: { early: 1, latepost: 1, unsigned: 1, confirm: 1, late: 1, war: 1, fork: 1, misses: 1, edges: 1, game: 1 } }),
    C33: P(33, ALL, { play: 34, peers: 0.8, batch: 0.2, story: 0.1, stories: { game: 3, edges: 2, fork: 1, latepost: 1 } }),
    C34: P(34, ALL, { chain: 12, leave: 8, join: 5, timeout: 6, stale: 6, slash: 6, event: 26, tick: 14, story: 0.15, stories: { fork: 4, war: 1, game: 1 } }),
    C35: P(35, { story: 0.12, peers: 0.35 }, { n: 3, peers: 0.2, near: 12, past: 16, chain: 12, stale: 8, slash: 8, timeout: 8, chal: 8, event: 26, story: 0.35, stories: { war: 4, refold: 3, unsigned: 3, liars: 1, late: 1, fork: 1 } }, { n: 3, peers: 0.1, skew: 0.1, chal: 8, stale: 4, slash: 4, event: 26, story: 0.4, stories: { liars: 2, war: 1 } }),
    C36: P(36, ALL, { near: 12, past: 16, conf: 20, chain: 12, stale: 10, timeout: 12, slash: 3, chal: 3, event: 26, story: 0.15, stories: { war: 3, refold: 1, unsigned: 4, late: 1, confirm: 1 } }),
    C43: P(43, ALL, { tick: 24, fire: 24, good: 20, near: 3, past: 2, post: 12, chain: 6, lossy: 0.5, story: 0.15, stories: { late: 4, stranger: 2.5, latepost: 2, game: 1 } })
};
// the data a client keeps, operation by operation (spec/Agreement.tla): all short sequences, and long random ones
const M = (focus, depth, deep) => [{ focus, depth: H(depth, deep), max: H(1500, 20000) }, { focus, depth: 14, walks: H(25, 200), max: H(800, 8000) }];
const MODELS = { C20: M('chain', 5, 6), C21: [...M('chain', 4, 5), ...M('posts', 3, 4)], C22: M('queue', 3, 4), C23: M('sigs', 5, 7), C25: M('posts', 4, 5), C36: [...M('quorum', 6, 8), ...M('chain', 4, 5)] };
// several clients of one channel (spec/Channel.tla)
const AB = ['A', 'B'], ABC = ['A', 'B', 'C'];
const CHANNEL = { C31: [
    { clients: AB, limit: H(3, 5), max: H(60, 500) },
    { clients: ABC, limit: 2, max: H(100, 1500) },
    { clients: ABC, limit: 4, depth: 40, walks: H(25, 250), max: H(40, 600) },
    { clients: AB, liars: ['C'], limit: 4, lies: 4, depth: 30, walks: H(40, 400), max: H(60, 800) },
    { clients: AB, liars: ['C'], limit: 4, lies: 3, ticks: 4, depth: 36, walks: H(30, 300), max: H(50, 800) },
    { clients: ABC, limit: 4, ticks: 3, depth: 40, walks: H(20, 200), max: H(40, 600) }
] };
// client A taken to court (spec/Court.tla)
const COURT = { C35: { len1: H(2, 3), len2: 1, max: H(350, 6000) }, C36: { len1: H(2, 3), len2: 1, max: H(150, 2000) } };
const id = process.argv[2];
const plan = PLAN[id] ?? broken('no such check: ' + id);
try {
    const check = new Check(id);
    const arts = artifacts();
    await peerHistories(check, plan, arts, MODELS[id] || CHANNEL[id] || id === 'C35' ? 0.6 : undefined);
    if (CHANNEL[id]) await channelModels(check, CHANNEL[id], arts, check.t0 + check.budget);
    if (MODELS[id]) await agreementModels(check, MODELS[id], arts, check.t0 + check.budget);
    if (COURT[id]) await courtModels(check, COURT[id], arts, check.t0 + check.budget);
    if (id === 'C35') await proofModels(check, arts, check.t0 + check.budget);
    check.finish();
} catch (e) { broken(e); }
