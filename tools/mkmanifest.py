#!/usr/bin/env python3
# writes MANIFEST.json; the checks that exist are those registered in harness/
import json,re,glob,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=[json.loads(l) for l in open('properties.jsonl')]
have=set()
for f in glob.glob('harness/*.go'):
    have|=set(re.findall(r'register\("(C\d\d)"',open(f).read()))
prim='C09 C11 C12 C13 C14 C16 C17'.split()
world='monitored multi-process executions of the real program: the harness sits on every connection, schedules, injects and alters messages, and an online referee with a sequential model judges every message and table'
T={
'C09':'oracle-monitored executions of sign/verify/encrypt/decrypt with directed and random inputs, single changes and forgers',
'C10':'offline freshness and key-extraction monitors over the nonces, blindings and messages recorded from primitives and whole runs',
'C11':'oracle-monitored executions of the argument: honest values, single changes, and a forger who knows the factors of the modulus',
'C12':'oracle-monitored executions of the argument: honest values, single changes, and forgers who solve all verifier equations but one',
'C13':'oracle-monitored executions of sign/verify/link: honest rings, single changes, forging outsiders and unlinking insiders; distribution monitors',
'C14':'oracle-monitored executions of shuffle and proofs: honest, single changes, and forgers who satisfy all verifier equations but one; distribution monitors',
'C15':'oracle-monitored executions of the honesty proof: honest, single wrong answers, wrong generators; monitors of its randomness, and of intercepted exchanges between real and modelled clients and coordinators',
'C16':'oracle-monitored executions of the commitment algebra against big-integer arithmetic',
'C17':'oracle-monitored round trips of every encoder, injectivity monitor of signed bytes, wire monitor over whole runs',
'C20':'monitored multi-process executions in which clients join, restart and repeat registrations at chosen points of the protocol; online referee of membership, opening and credit',
'C23':'width, distribution, relation and guess monitors over the values of recorded requests, and of requests under parameters with easy logarithms that expose all blindings',
'C25':'wire monitor over whole runs that searches all messages for bridges, openings and exponents that they must not contain',
'C19':'Go race detector in all processes during monitored multi-process runs under scheduled delays, user commands and attacks',
}
N={
'default':'Executions explored: seeded workloads, attacks and message schedules on the real binaries built from the working tree. Nothing is proved; what the seeds do not reach is not covered. Trusted: the harness\' referee and group arithmetic (math/big), the Go toolchain, the loopback network.',
}
m={'version':1,'setup_cmd':'./setup.sh','checks':[],'not_applicable':[],
 'notes':'No hooks in /repo: all observation happens at the processes\' connections and at exported functions. Known findings: known_findings.txt.'}
for p in props:
    i=p['id']
    if i in have:
        m['checks'].append({'property':i,'quick_cmd':'./run.sh '+i,'thorough_cmd':'./run.sh '+i,'evidence_file':f'evidence/{i}.json',
          'technique':T.get(i,world),'level':'exploration','level_note':N.get(i,N['default'])})
    else:
        m['not_applicable'].append({'property':i,'reason':'no check built yet'})
json.dump(m,open('MANIFEST.json','w'),indent=1)
print(len(m['checks']),'checks',[x['property'] for x in m['not_applicable']])
