import signal; signal.signal(signal.SIGPIPE, signal.SIG_DFL)
import json,sys
d=json.load(open('/tmp/out.json'))
for o in d['obligations']:
    seen=set()
    for e in o['ends']:
        if e['kind'] in('return',) : continue
        k=(e['kind'],e['msg'])
        if k in seen: continue
        seen.add(k)
        print(o['name'],e['kind'],'WEAK' if e['weak'] else '',e['msg'][:200],'|',"; ".join(e['inputs'])[:300]); print('     ',' > '.join(e['trace'][-4:])[-260:])
