# writes properties.jsonl and MANIFEST.json from tools/props_*.py
import json,os,sys
sys.path.insert(0,os.path.dirname(__file__))
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import props_onchain
try: import props_offchain
except ImportError: props_offchain=None
props=props_onchain.PROPS+(props_offchain.PROPS if props_offchain else [])
ALSO={'C01':'A client counts signatures in the same way.','C03':'A client follows these forks: it starts each from exactly the announced state, number and time, once.','C04':'A client disputes and challenges only as it may.','C05':'A client asks for nobody to be timed out earlier, and publishes its own block while that counts.','C06':'A client submits only evidence that proves misbehaviour.','C07':'A client puts forward the newest such state that it can prove.','C08':'A client goes on from exactly the outcome.','C09':'A client gives the rebuttals that it has.','C10':'A client takes published blocks into account, with exactly these times.','C11':'A client collects exactly these signatures under a request to join.'}
for p in props: p['statement']+=' '+ALSO[p['id']] if p['id'] in ALSO else ''
TS={'C01':['src/utils/EvmUtils.ts','src/agreementManager/AgreementManager.ts'],'C03':['src/stateManager/StateManager.ts'],'C04':['src/DisputeHandler.ts'],'C05':['src/stateManager/StateManager.ts'],'C06':['src/ProofManager.ts'],'C07':['src/agreementManager/AgreementManager.ts'],'C08':['src/stateManager/StateManager.ts'],'C09':['src/DisputeHandler.ts'],'C10':['src/agreementManager/AgreementManager.ts'],'C11':['src/rpc/services/JoinChannelService.ts']}
for p in props: p['anchors']['files']+=[f for f in TS.get(p['id'],[]) if os.path.exists('/repo/'+f) or sys.exit(f)]
props.sort(key=lambda p:p['id'])
with open(V+'/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
CMD={'C01':'node checks/c01.mjs','C15':'node checks/c15.mjs'}
ON='TLA+ specification spec/Manager.tla, small models explored by TLC with every accepted and refused operation of every state performed on the real contracts (in-memory EVM); random histories of the real contracts validated by TLC against the specification'
NOTE='Exhaustive within the stated small models (two channels, three participants, depth 3-6); random near-miss histories beyond. Trusts ethereumjs EVM, solc, ethers ABI coding, and a harness state machine that stands for any state machine.'
# the client's part
CL={'C01':'Agreement.tla (what a client counts as everybody signed)','C03':'Peer.tla (which forks a client follows)','C04':'Court.tla (how a client disputes and challenges)','C05':'Peer.tla (when a client asks for a timeout or publishes)','C06':'Court.tla and Proofs.tla (which evidence a client gives)','C07':'Agreement.tla and Court.tla (which states and blocks a client puts forward)','C08':'Court.tla','C09':'Court.tla (how a client rebuts)','C10':'Agreement.tla and Peer.tla (what a client makes of published blocks)','C11':'Network.tla (what a client collects for a join)','C12':'Court.tla'}
OFF=getattr(props_offchain,'CHECKS',{}) if props_offchain else {}
checks=[]
for p in props:
    i=p['id']
    c=OFF.get(i,{})
    cmd=c.get('cmd') or CMD.get(i) or ('node checks/onchain.mjs '+i)
    checks.append(dict(property=i,quick_cmd=cmd,thorough_cmd='VERIF_TIER=thorough '+cmd,technique=c.get('technique',ON+('; the part that clients play in it: '+CL[i]+', checked with the real client' if i in CL else '')),level='model_checking',level_note=c.get('note',NOTE)))
m=dict(version=1,setup_cmd='node tools/setup.mjs',checks=checks,not_applicable=[],notes='TLA+ with TLC. No hooks in /repo: the contracts are compiled from the working tree and the TypeScript is bundled from it.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(props),'properties')
