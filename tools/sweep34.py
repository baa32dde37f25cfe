"""Kills one fixed program (see C34) at each of its points in turn.

usage: PYTHONPATH=/verif:/repo /opt/venv/bin/python tools/sweep34.py open|reg|rm|exec|exec2|ckpt1|ckpt2 [step]"""
import vf.boot, sys, time, json, warnings
warnings.simplefilter("ignore")
from vf.checks import c34
from vf import crash
op=sys.argv[1]; step=int(sys.argv[2]) if len(sys.argv)>2 else 1
case={'specs': [{'name': 'ds0', 'type': 'jsonl', 'parser': 'A', 'palette': [{'lang': 'en', 'src': 'a', 'grade': ['g1', 'g1', 'g1']}], 'files': [[[0,5]],[[0,3]]], 'single': False},{'name': 'ds1', 'type': 'jsonl', 'parser': 'B', 'palette': [{'topic': 'en', 'src': 'a'}], 'files': [[[0,5]],[[0,3]]], 'single': False}], 'ops': [['reg', 0], ['exec', [[]], {'kind': 'arbitrary', 'size': 2}], ['take', 0, 2], ['ckpt', 0, 40],['take',0,1],['ckpt',0,40],['reg',1],['exec', [[]], {'kind': 'arbitrary', 'size': 2}],['exec', [[]], {'kind': 'arbitrary', 'size': 2}],['rm',1]], 'at': -1, 'point': 30, 'nth': 1,'workers':0,'files':False}
case['at']={'open':-1,'reg':6,'ckpt1':3,'ckpt2':5,'exec':1,'exec2':7,'rm':9}[op]
import subprocess
names=[]
o=crash.run
def run(*a,**k):
    if k.get('target'): names.append(k['target'][0])
    r=o(*a,**k)
    if k.get('record'): run.n=len(k['record'].read_text().splitlines())
    return r
crash.run=run
i=0; run.n=1
bad=0
while i<run.n:
    case['point']=i
    try: c34._run(case)
    except Exception as e: bad+=1; print(i,names[-1],str(e)[:300].replace('\n',' '),flush=True)
    i+=step
print(op,run.n,'points',bad,'bad')
