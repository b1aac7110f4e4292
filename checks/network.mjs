// node checks/network.mjs <property>
import { Check, THOROUGH, broken } from '../lib/check.mjs';
import { netModels, netHistories } from '../lib/netcheck.mjs';

const T = (quick, thorough) => (THOROUGH ? thorough : quick);
const M = (focus, depth, max) => ({ focus, depth, max });
const PLAN = {
    C37: { models: [M('ids', T(4, 5), T(6000, 60000)), M('rtc', T(6, 8), T(5000, 80000))], hist: { salt: 37, count: T(400, 12000), profile: { join: 4, say: 8 } } },
    C40: { models: [M('ids', T(3, 4), T(3000, 9000))], hist: { salt: 40, count: T(400, 12000), profile: { junk: 30, say: 24, visit: 8, dispose: 1.5, leave: 1.5, dying: 5, resp: 16 } } },
    C41: { models: [M('join', T(4, 6), T(5000, 60000)), M('teams', T(7, 8), T(4000, 20000))], hist: { salt: 41, count: T(400, 12000), profile: { join: 70, tick: 12, members: 14, offer: 1, answer: 1, ice: 1, mine: 1 } } }
};
const plan = PLAN[process.argv[2]] ?? broken('no such check: ' + process.argv[2]);
try {
    const check = new Check(process.argv[2]);
    await netModels(check, plan.models);
    await netHistories(check, plan.hist);
    check.finish();
} catch (e) { broken(e); }
