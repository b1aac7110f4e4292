KIT='net'
RPC='src/rpc/services/'
SEEDS=[
dict(id='splice-skip',property='C40',needs='a client with at least two connections that leaves the channel',
 breaks='a client that leaves keeps every second connection open and goes on hearing and answering those peers',
 edits=[('src/P2PManager.ts','''        this.openConnections = this.openConnections.filter(
            (t) => t !== transport
        );
''','''        const index = this.openConnections.indexOf(transport);
        if (index !== -1) this.openConnections.splice(index, 1);
''')],
 demo='''
await client('A', ['A', 'B', 'C']);
await conn('t1'); await conn('t2');
await resp('t1', 'B'); await resp('t2', 'C');
ok(by('t1') === 'B' && by('t2') === 'C' && o.conns.length === 2, 'two peers are connected');
await give({ k: 'leave' });
say(o.conns.length === 0, 'still connected after leaving: ' + o.conns);
say(o.closed.includes('t1') && o.closed.includes('t2'), 'not closed: ' + ['t1', 't2'].filter((t) => !o.closed.includes(t)));
'''),
dict(id='reconnect-untied',property='C37',needs='a peer that was connected before and proves who it is on a second connection',
 breaks='the second connection of a peer is not known as its own: it stays open when it should be closed and WebRTC is never set up over it',
 edits=[('src/ProfileManager.ts','''        profile.setTransport(newTransport);
        this.mapTransportToProfile.set(newTransport, profile);
''','''        profile.setTransport(newTransport);
''')],
 demo='''
await client();
await conn('t1'); await resp('t1', 'B');
await give({ k: 'end', t: 't1' });
await conn('t2'); await resp('t2', 'B');
say(by('t2') === 'B', 'the peer that proved who it is on t2 is not known there');
const r = await give({ k: 'offer', t: 't2', o: 'o50', as: 'buffer' });
say(outs(r, 'answer').length === 1, 'its WebRTC offer is not answered');
'''),
dict(id='async-sender',property='C37',needs='messages on two connections that arrive at the same time',
 breaks='a message is handled as if it had come from the connection of another peer: an answer to a challenge counts for the wrong connection',
 edits=[('src/transport/HolepunchTransport.ts','''        this.holepunchSocket.on("data", async (data: any) => {
            if (data instanceof Uint8Array) {
                data = Buffer.from(data);
            }
            console.log("DATA RECEIVED", data);
''','''        this.holepunchSocket.on("data", async (data: any) => {
            this.p2pManager.localRpcService.senderTransport = this;
            if (data instanceof Uint8Array) {
                data = await Buffer.from(data);
            }
            console.log("DATA RECEIVED", data);
'''),('src/transport/HolepunchTransport.ts','''    onMessage(data: any): void {
        this.p2pManager.localRpcService.senderTransport = this;
''','''    onMessage(data: any): void {
''')],
 demo='''
await client('A', ['A', 'B', 'C']);
await conn('t1'); await conn('t2');
const r = (t, s) => ({ k: 'resp', t, s, over: t, at: c.now, pref: 0, as: 'buffer' });
await give({ k: 'batch', is: [r('t1', 'B'), r('t2', 'C')] });
say(by('t1') === 'B', 't1 is taken for ' + by('t1') + "'s");
say(by('t2') === 'C', 't2 is taken for ' + by('t2') + "'s");
'''),
dict(id='signed-count',property='C41',needs='participants that change while a request to join collects confirmations',
 breaks='a request counts as signed by everyone although a participant that came later did not sign it',
 edits=[('src/utils/SignatureCollectionMap.ts','''        let array = this.get(key);
        for (let i = 0; i < participants.length; i++) {''','''        let array = this.get(key);
        //each of them signs once
        if (array.length > participants.length) return true;
        for (let i = 0; i < participants.length; i++) {''')],
 demo='''
await client('A', ['A', 'B', 'C']);
await conn('t1');
const jc = { p: 'J', n: 1, dl: 30 };
await join('t1', jc, 'J', 'B');
await join('t1', jc, 'J', 'K');
ok(o.jq.length === 0 && o.jr[0].sg.length === 2, 'A and B signed');
c.members = ['A', 'B', 'C', 'K'];
await join('t1', jc, 'J', 'C');
ok(o.jq.length === 0 && o.jr[0].sg.length === 3, 'C signed');
// B and C left meanwhile
c.members = ['A', 'K'];
await join('t1', jc, 'J', 'A');
say(o.jq.length === 0, 'the request counts as signed by everyone, K did not sign it');
'''),
dict(id='sig-dup',property='C41',needs='a participant that confirms a request twice, with differently encoded signatures',
 breaks='a participant counts twice among those that signed a request',
 edits=[('src/utils/SignatureCollectionMap.ts','''            if (array[i].signerAddress === value.signerAddress) {
                return;''','''            if (array[i].signature === value.signature) {
                return;''')],
 demo='''
await client('A', ['A', 'B', 'C']);
await conn('t1');
const jc = { p: 'J', n: 1, dl: 30 };
await join('t1', jc, 'J', 'B');
await join('t1', jc, 'J', 'B2');
say(o.jr[0].sg.filter((s) => s[0] === 'B').length === 1, 'two signatures of B are kept: ' + o.jr[0].sg);
'''),
dict(id='rtc-any',property='C37',needs='two peers with whom WebRTC is set up and an answer from the one to whom no offer was made',
 breaks='the WebRTC connection that was set up last takes the answer of any peer',
 edits=[(RPC+'WebRTCSetupService.ts','''            if (!adr) return console.log("onAnswerWebRTC - no EVM address");
            let connection = this.connectionMap.get(adr.toString());
''','''            if (!adr) return console.log("onAnswerWebRTC - no EVM address");
            let connection =
                this.connectionMap.get(adr.toString()) ||
                [...this.connectionMap.values()].pop();
''')],
 demo='''
const low = (await client('A', ['A', 'B', 'C'], 1), c.lower());
const mine = ['B', 'C', 'J', 'K'].filter((p) => low[p] === 'TRUE'), other = ['B', 'C', 'J', 'K'].filter((p) => low[p] === 'FALSE');
let me = 'A';
if (!mine.length || !other.length) ok(false, 'addresses');
await conn('t1'); await conn('t2');
const r = await resp('t1', mine[0]);
ok(outs(r, 'offer').length === 1, 'an offer is made to ' + mine[0]);
await resp('t2', other[0]);
const s = await give({ k: 'answer', t: 't2', o: 'a50', as: 'buffer' });
say(!s.rc.some((x) => JSON.stringify(x).includes('remote a50')), 'an answer of ' + other[0] + ' is used for the connection with ' + mine[0]);
'''),
dict(id='once-topics',property='C44',needs='two relays that end one after the other',
 breaks='a client whose second relay ends too is in none of its topics any more',
 edits=[('src/Holepunch.ts','''    private rejoinTopics() {
        for (let topic of this.topics) {
''','''    private rejoinTopics() {
        for (let topic of this.topics.splice(0)) {
''')],
 demo='''
const R = await browser();
const P = R.holepunch();
await P.join(Buffer.from('t1'));
ok(R.swarms.length === 1 && R.swarms[0].log.join() === '+t1', 'joined on the first relay');
R.socks[0].onclose({});
ok(R.swarms.length === 2, 'another relay');
say(R.swarms[1].log.join() === '+t1', 'topics on the second relay: ' + R.swarms[1].log);
await P.dispose();
say(R.swarms[1].log.join() === '+t1,-t1', 'what it did on the second relay until it left: ' + R.swarms[1].log);
'''),
dict(id='twice-gone',property='C44',needs='a relay that reports an error and then closes, as sockets do, with another relay left',
 breaks='when a connection to a relay fails, the relay after it is struck off as well',
 edits=[('src/HolepunchRelay.ts','''        let index = this.relayerUrls.indexOf(relayerUrl);
        if (index === -1) return false;
        let deletedRelayer = this.relayerUrls.splice(index, 1);
''','''        if (this.relayerUrls.length === 0) return false;
        let index = this.relayerUrls.indexOf(relayerUrl);
        let deletedRelayer = this.relayerUrls.splice(index, 1);
''')],
 demo='''
const R = await browser();
R.init(4);
R.socks[0].onerror(new Error('x'));
ok(R.swarms.length === 2, 'another relay');
R.socks[0].onclose({});
say(R.swarms.length === 2, 'a third relay although the second works');
say(R.T.I.HolepunchRelay.getInstance().relayerUrls.length === 3, 'relays left: ' + R.T.I.HolepunchRelay.getInstance().relayerUrls.length);
'''),
dict(id='barge',property='C38',needs='somebody who asks for the lock in the same turn in which it is released with others waiting',
 breaks='two holders have the lock at the same time',
 edits=[('src/utils/Mutex.ts','''    public unlock(): void {
        if (this.queue.length > 0) {
            const next = this.queue.shift();
            if (next) {
                next();
            }
        } else {
            this.isLocked = false;
        }
    }''','''    public unlock(): void {
        this.isLocked = false;
        const next = this.queue.shift();
        if (next) {
            next();
            Promise.resolve().then(() => (this.isLocked = true));
        }
    }''')],
 demo='''
const T = await bare(), { Mutex } = T.I.Utils;
const m = new Mutex();
let held = 0, most = 0;
const hold = async () => { await m.lock(); held++; most = Math.max(most, held); };
const free = () => { held--; m.unlock(); };
await hold();
hold();
await T.settle();
free();
hold();
await T.settle();
say(most === 1, most + ' hold the lock at once');
'''),
dict(id='clock-once',property='C39',needs='a chain whose time moves on while the client adjusts its clock',
 breaks='the clock is adjusted once even if it is wrong again by then',
 edits=[('src/Clock.ts','''            this.clockAjustmentSeconds += difference;
            await this.syncClock(); // Recursively call syncClock until condition is satisfied
''','''            this.clockAjustmentSeconds += difference;
''')],
 demo='''
const T = await bare();
// 100 blocks ago was 200 s before; the chain leaps ahead after it was asked first
const base = Math.floor(Date.now() / 1000);
let asked = 0, ahead = 100;
await T.I.Clock.init({ getBlock: async (b) => { if (b === 'latest') { const t = base + ahead; if (asked++ === 0) ahead += 500; return { number: 1000, timestamp: t }; } return { number: b, timestamp: base + ahead - 200 - (asked === 1 ? 500 : 0) }; } });
say(Math.abs(T.I.Clock.getTimeInSeconds() - (base + ahead)) <= 5, 'the clock is off by ' + (T.I.Clock.getTimeInSeconds() - base - ahead) + ' s');
'''),
]
