#!/usr/bin/env python3
"""par.py make|try ids...: runs plant.py in 4 private mount namespaces with a copy of /repo each"""
import os, subprocess, sys, threading, queue
sys.path.insert(0,'/verif/tools')
from plants import PLANTS
cmd=sys.argv[1]; ids=sys.argv[2:] or [p['id'] for p in PLANTS]
q=queue.Queue(); [q.put(i) for i in ids]
def w(n):
    while True:
        try: i=q.get_nowait()
        except queue.Empty: return
        p=subprocess.run(['unshare','-Urm','bash','-c',f'mount --bind /tmp/w{n} /repo && mount --bind /tmp/b{n} /verif/build && cd /verif/tools && git config --global --add safe.directory /repo 2>/dev/null; python3 plant.py {cmd} {i}'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        print(p.stdout.strip()[-1500:],flush=True)
ts=[threading.Thread(target=w,args=(n,)) for n in os.environ.get('PAR','1 2 3 4').split()]
[t.start() for t in ts];[t.join() for t in ts]
