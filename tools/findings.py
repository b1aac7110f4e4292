# writes known-findings.json
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED=[
('C07','d47eed9','a dispute without posted blocks restored any state the disputer liked'),
('C05','96d16b0','a timeout with height 0 ignored the posted blocks it has to follow'),
('C09','e6f99d6','a block as old as the posted state slashed its honest disputer as having posted an old state'),
('C04','fecaf88','disputes posted from the start of a fork could not be challenged (index into an empty list)'),
('C07','a743b75','a challenge appended its blocks to those it replaces'),
('C08','aedf5f9','a new dispute lost the exits of the previous one and inherited its slashes, joins and timeout'),
('C09','df34487','folding a prior block blamed the author of the wrong block'),
('C09','0114593','a fold rechallenge without a fold slashed address zero and cleared nothing'),
('C06','97fbb22','outsiders could be slashed, which counted as a successful challenge'),
('C12','372008a','a forced join was possible only after its deadline'),
('C11','d7217ba','joining and leaving by agreement always reverted'),
('C11','eae6104','agreements could be used after their deadline only'),
('C36','c433131','proofs were encoded as loose values that the contracts cannot decode'),
('C36','784ab93','incorrect data proofs named the incorrect block as its own predecessor'),
('C35','a3867ec','challenges were aimed at the dispute event seen first, not at the dispute on chain'),
('C36','ecef473','newer state proofs were judged against the block author instead of the confirmer'),
('C35','19f3e95','disputes without a timeout folded an undecodable address'),
('C30','32fd206','confirmations of blocks not yet known were dropped'),
('C15','5f870f0','duplicate insertions and removals of absent nodes corrupted the list'),
('C09','e3ddf52','a prior block could be folded where nobody was timed out'),
('C06','bba9a2b','a block of an outsider, at any height, passed as the predecessor an incorrect block must follow'),
('C07','e022bab','disputes could post blocks of outsiders and skip heights, which nothing could rebut'),
('C06','be4691b','an honest block after a state equal to the fork\'s start was judged by the time of the start'),
]
KNOWN=[]
from glob import glob
try:
    import sys; sys.path.insert(0,os.path.dirname(__file__))
    from findings_more import FIXED2,KNOWN2; FIXED+=FIXED2; KNOWN+=KNOWN2
except ImportError: pass
F=[dict(status='fixed',property=p,commit=c,what=w,record=f'fixed: property={p} {c} {w}') for p,c,w in FIXED]+KNOWN
json.dump(dict(findings=F),open(V+'/known-findings.json','w'),indent=1); open(V+'/known-findings.json','a').write('\n')
