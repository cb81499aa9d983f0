#!/usr/bin/env python3
"""mutrun.py base PROP... | run N SEED OUT FILE[:PROP,PROP]...
Mutation testing of the checks, by hand only (no check uses it).  `base` records scenarios and the trace of each property on
the unchanged tree under /tmp/mutbase; `run` tries N random first-order mutants of the given files, each in a scratch copy
mounted over /repo in a mount namespace, and writes those that no property's check rejects."""
import sys, os, json, subprocess, random, time, re, shutil, threading, queue
sys.path.insert(0, '/verif')
import check
BASE = '/tmp/mutbase'

def C(p, tier):
    return check.Run(p, tier, 1)

def load(p):
    d = {}
    for l in open(p):
        j = json.loads(l)
        d[j['id']] = l
    return d

def base(props):
    os.makedirs(BASE, exist_ok=True)
    for p in props:
        c = C(p, 'quick')
        try:
            c.prepare(); c.build()
            s = c.generate()
            t = time.time()
            r, out = c.drive(s, workers=2)
            assert r.returncode == 0, r.stdout[-500:]
            if s: shutil.copy(s, f'{BASE}/{p}.scen')
            shutil.copy(out, f'{BASE}/{p}.trace')
            a = load(out)
            r, out = c.drive(s, workers=2)
            b = load(out)
            t = (time.time() - t) / 2
            bad = [i for i in a if a[i] != b.get(i)]
            json.dump({'t': t, 'unstable': bad}, open(f'{BASE}/{p}.json', 'w'))
            print(p, round(t, 1), 'unstable', len(bad), flush=True)
        finally:
            shutil.rmtree(c.dir, ignore_errors=True)

def one(props):
    """inside the namespace, /repo is the mutant"""
    drv, dirs = {}, []
    try:
        for p in props:
            c = C(p, 'quick')
            dirs.append(c.dir)
            k = (c.cfg['cmd'], str(c.cfg.get('overlay')))
            if k in drv:
                c.drv = drv[k]
            else:
                try: c.build()
                except check.Broken: return 'NOBUILD'
                drv[k] = c.drv
            b = json.load(open(f'{BASE}/{p}.json'))
            s = f'{BASE}/{p}.scen'
            s = s if os.path.exists(s) else None
            r, out = c.drive(s, workers=2, timeout=int(60 + 6 * b['t']))
            if r.returncode: return f'{p} crash'
            ref, got = load(f'{BASE}/{p}.trace'), load(out)
            diff = [i for i in ref if ref[i] != got.get(i) and i not in b['unstable']]
            if not diff: continue
            o = os.path.join(c.dir, 'diff.ndjson')
            with open(o, 'w') as f:
                for i in (diff if p == 'C34' else diff[:40]):
                    if i in got: f.write(got[i])
            c.prepare()
            rej = c.validate(o)
            if rej: return f'{p} {len(rej)} of {len(diff)}'
            print('accepted difference', p, diff[:3], flush=True)
    finally:
        for d in dirs: shutil.rmtree(d, ignore_errors=True)
    return 'SURVIVED'

def run(n, seed, out, files):
    muts = []
    subprocess.check_call('. /opt/vp/env.sh; cd /verif/tools/mutate && go build -o /tmp/mutate main.go', shell=True)
    for fp in files:
        f, _, ps = fp.partition(':')
        f, _, rng = f.partition('@')
        lo, hi = (map(int, rng.split('-')) if rng else (0, 10**9))
        for l in subprocess.check_output(['/tmp/mutate', '/repo/' + f]).decode().splitlines():
            m = json.loads(l); m['file'] = f; m['props'] = ps.split(',')
            if lo <= m['Line'] <= hi: muts.append(m)
    random.Random(seed).shuffle(muts)
    print(len(muts), 'mutants', flush=True)
    q = queue.Queue()
    for m in muts[:n]: q.put(m)
    lock = threading.Lock(); fo = open(out, 'a')
    cnt = {}
    def work(k):
        W = f'/tmp/mutw{os.getpid()}-{k}'; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
        subprocess.check_call(['cp', '-a', '/repo', W + '/repo'])
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            p = f'{W}/repo/{m["file"]}'
            src = open(f'/repo/{m["file"]}', 'rb').read()
            open(p, 'wb').write(src[:m['Off']] + m['New'].encode() + src[m['Off'] + m['Len']:])
            try:
                r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {W}/repo /repo; . /opt/vp/env.sh; exec python3 /verif/tools/mutrun.py one ' + ' '.join(m['props'])],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1800)
                res = r.stdout.decode().strip().splitlines()
            except subprocess.TimeoutExpired: res = ['TIMEOUT']
            open(p, 'wb').write(src)
            line = src[:m['Off']].count(b'\n'); txt = src.split(b'\n')[line].decode().strip()
            with lock:
                v = res[-1] if res else 'NONE'
                cnt[v.split()[0]] = cnt.get(v.split()[0], 0) + 1
                fo.write(json.dumps([v if len(res) < 2 else res[-2:], m['file'], m['Line'], m['Kind'], m['New'][:60], txt[:140]]) + '\n'); fo.flush()
        shutil.rmtree(W, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get('J', '6')))]
    for t in ts: t.start()
    for t in ts: t.join()
    print(cnt)

if sys.argv[1] == 'base': base(sys.argv[2:])
elif sys.argv[1] == 'one': print(one(sys.argv[2:]))
else: run(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5:])
