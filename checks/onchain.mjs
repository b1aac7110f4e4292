// node checks/onchain.mjs <property>
import { Check, THOROUGH, broken } from '../lib/check.mjs';
import { artifacts, graphs, histories } from '../lib/onchain.mjs';
import { peerHistories } from '../lib/offchain.mjs';
import { proofModels } from '../lib/proofs.mjs';
import { courtModels } from '../lib/court.mjs';
import { agreementModels } from '../lib/agreement.mjs';
import { netModels } from '../lib/netcheck.mjs';

const H = (quick, thorough) => (THOROUGH ? thorough : quick);
// in the quick tier within the channel's second fork, in the thorough one within its first as well
const both = (focus, q, t, frac = 1) => [{ focus, fk: 1, depth: H(q + 1, t + 1), frac }, ...(THOROUGH ? [{ focus, fk: 0, depth: t, frac }] : [])];
const PLAN = {
    C03: { models: [{ focus: 'forks', depth: H(4, 6) }], random: { count: H(60, 600), len: 40, profile: { noise: 3, join: 6, leave: 4, twoChans: 1 } } },
    C04: { models: [{ focus: 'life', depth: H(4, 5) }], random: { count: H(60, 600), len: 40, profile: { create: 14, chal: 14 } } },
    C05: { models: both('timeout', 5, 7), random: { count: H(60, 600), len: 40, profile: { timeout: 0.95, create: 20, chal: 2, post: 8, join: 1, leave: 1 } } },
    C06: { models: both('slash', 4, 4), random: { count: H(60, 600), len: 40, profile: { timeout: 0.2, create: 14, chal: 14, post: 5, join: 1, leave: 1, dbl: 3, inc: 4, fut: 2, new: 2, pjoin: 0.1 } } },
    C07: { models: both('final', 3, 4), random: { count: H(60, 600), len: 40, profile: { timeout: 0.4, create: 18, chal: 18, join: 1, leave: 1, fut: 5, mut: 0.5 } } },
    C08: { models: both('outcome', 6, 6), random: { count: H(60, 600), len: 40, profile: { create: 14, chal: 12, join: 4, leave: 4, fut: 5, pjoin: 3, mut: 0.12 } } },
    C09: { models: both('rebut', 5, 5, H(0.4, 1)), random: { count: H(60, 600), len: 40, profile: { timeout: 0.9, create: 14, chal: 20, rech: 5, new: 3, prior: 3, dbl: 2, mut: 0.2 } } },
    C10: { models: [{ focus: 'calldata', depth: H(4, 5) }], random: { count: H(60, 600), len: 40, profile: { post: 40, create: 5, chal: 2, timeout: 0.9 } } },
    C11: { models: [{ focus: 'agree', depth: H(4, 5) }], random: { count: H(60, 600), len: 40, profile: { join: 20, leave: 16, create: 6, chal: 2, post: 1 } } },
    C13: { models: [{ focus: 'priv', depth: H(3, 5), noise: true }], random: { count: H(60, 600), len: 40, profile: { priv: 8, noise: 14, exec: 8 } } },
    C12: { models: both('fjoin', 4, 5), random: { count: H(60, 600), len: 40, profile: { pjoin: 10, create: 14, chal: 14, timeout: 0.4, fut: 3 } } }
};
// the client's part in the same guarantees: what it sends to the contracts and what it makes of their answers
const CALM = { skew: 0.1, timeout: 0.5, stale: 0.5, slash: 0.5, chal: 0.5, leave: 0.3, join: 0.3 };
const peers = (salt, profile, n = H(80, 500)) => (c, a) => peerHistories(c, { salt, count: n, len: 40, profile: [profile] }, a, 0.8);
const court = (n) => (c, a, t) => courtModels(c, { len1: H(2, 3), len2: 1, max: H(n, 10 * n) }, a, t);
const agree = (...m) => (c, a, t) => agreementModels(c, m.flatMap(([focus, depth, deep]) => [{ focus, depth: H(depth, deep), max: H(800, 8000) }, { focus, depth: 14, walks: H(15, 120), max: H(400, 4000) }]), a, t);
const CLIENT = {
    C03: [peers(3, { ...CALM, event: 24, story: 0.15, stories: { fork: 4, game: 1 } })],
    C04: [court(120)],
    C05: [peers(5, { ...CALM, tick: 24, fire: 24, good: 20, post: 12, lossy: 0.5, story: 0.15, stories: { late: 4, stranger: 2.5, latepost: 2 } })],
    C06: [court(120), (c, a, t) => proofModels(c, a, t)],
    C07: [agree(['quorum', 5, 7]), court(100)],
    C08: [court(100)],
    C09: [court(150)],
    C10: [agree(['posts', 3, 5]), peers(10, { ...CALM, post: 20, postbad: 8, event: 24, story: 0.15, stories: { latepost: 4, stranger: 1 } })],
    C11: [(c) => netModels(c, [{ focus: 'join', depth: H(4, 5), max: H(2500, 20000) }], 0.9)],
    C12: [court(100)]
};
const id = process.argv[2];
const plan = PLAN[id] ?? broken('no such check: ' + id);
try {
    const check = new Check(id);
    const arts = artifacts();
    await graphs(check, plan.models, arts);
    await histories(check, plan.random, arts);
    for (const f of CLIENT[id] ?? []) await f(check, arts, check.t0 + check.budget);
    check.finish();
} catch (e) { broken(e); }
