import json,subprocess
p='/verif/known_findings.json'; k=json.load(open(p))
k=[x for x in k if x['status']!='fixed']
log=dict(reversed(l.split(' ',1)) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).strip().split('\n'))
F=[("C02","fix: a conflict PoM must hold","a conflict proof whose two statements were the same, or signed by somebody other than the accused, was accepted and barred an honest entity"),
("C01","fix: bind the signer named in STH","an object signed by one known entity was accepted as a statement of another"),
("C03","fix: threshold signatures need","a threshold signature was accepted with fewer than threshold many, repeated or unknown signers"),
("C03","fix: bind the signer named in a fragment","a fragment of one gossiper was accepted under the name of another"),
("C04","fix: gossipers keep and pass on","unverified fragments were counted, stored and passed on, unverified full objects were sent to the monitor"),
("C07","fix: fragments of one gossiper count once","a fragment repeated with another second signature field was passed on again and counted again towards the threshold (also C09)"),
("C05","fix: conflicting statements that arrive","two conflicting statements handled at the same time overwrote each other and stayed undetected")]
import sys
exec(open('/verif/tools/findings_more.py').read()) if __import__('os').path.exists('/verif/tools/findings_more.py') else None
for pr,pre,what in F:
    h=[v for s,v in log.items() if s.startswith(pre)]
    assert h,pre
    k.append(dict(property=pr,status="fixed",commit=h[0],what=f"fixed: property={pr} {h[0]} {what}"))
json.dump(k,open(p,'w'),indent=1)
