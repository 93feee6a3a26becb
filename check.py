#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only SCENARIO-SUBSTRING] [--repo DIR]

Decides one property on /repo's current working tree: builds the harness families of that property from
/repo's sources, runs their exhaustive explorations, writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored (known findings are printed). Exit 1: VIOLATION line. Exit 2: no answer."""
import sys, os, json, subprocess, hashlib, time, re, shutil, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from families import FAMILIES, PROPS, ASSUME

CXX = 'g++'
COMMON = ['-std=c++20', '-g']
MC = ['-O1', '-fsanitize=thread', '-fno-stack-protector', '-fcf-protection=none']
RT = ['-O2', '-fno-stack-protector', '-fcf-protection=none', '-Wall']
SEQ = ['-O1', '-fno-var-tracking', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']

def die(msg, code=2):
    print(msg, flush=True)
    sys.exit(code)

def tree_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        for f in sorted(glob.glob(p + '/**', recursive=True)) if os.path.isdir(p) else [p]:
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')

def build(fam, repo):
    f = FAMILIES[fam]
    d = os.path.join(V, 'mc' if f['kind'] == 'mc' else 'seq')
    key = tree_hash([repo + '/sdk/include', repo + '/sdk/src', d, V + '/families.py'], fam)
    out = os.path.join(V, 'build', fam + '-' + key)
    exe = os.path.join(out, fam)
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(V, 'build', fam + '-*')):
        if old != out:
            shutil.rmtree(old, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    inc = ['-I' + repo + '/sdk/include', '-I' + repo + '/sdk/src', '-I' + d]
    flags = MC if f['kind'] == 'mc' else SEQ + f.get('flags', [])
    def cc(src, fl, tag):
        o = os.path.join(out, tag + os.path.basename(src) + '.o')
        r = run([CXX] + COMMON + fl + inc + ['-c', src, '-o', o])
        return o, r
    def all_repo():
        r = []
        for s in sorted(glob.glob(repo + '/sdk/src/**/*.cpp', recursive=True)):
            rel = os.path.relpath(s, repo + '/sdk/src')
            if rel != 'version.cpp':
                r.append(rel)
        return r
    jobs = [(os.path.join(d, s), flags, 'h_') for s in f['src']]
    jobs += [(os.path.join(repo, 'sdk/src', s), flags, 'r_' + s.replace('/', '_')) for s in f['repo'] if os.path.exists(os.path.join(repo, 'sdk/src', s))]
    jobs.append((os.path.join(d, 'rt.cpp'), RT, 'rt_') if f['kind'] == 'mc' else (os.path.join(d, 'seq.cpp'), flags, 'rt_'))
    def compile_jobs(js):
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: cc(*j), js))
        for (o, r), j in zip(res, js):
            if r.returncode:
                print(r.stdout[-6000:])
                shutil.rmtree(out, ignore_errors=True)
                die('BUILD-ERROR compiling ' + j[0])
        return [o for o, _ in res]
    objs = compile_jobs(jobs)
    def link(objs):
        if f['kind'] == 'mc':
            return run([CXX, '-no-pie', '-static-libstdc++', '-static-libgcc', '-Wl,-z,now', '-Wl,-z,muldefs'] + objs + ['-o', exe + '.tmp', '-lpthread'])
        return run([CXX] + SEQ + objs + ['-o', exe + '.tmp', '-lpthread'])
    r = link(objs)
    if r.returncode:  # the code may need further sources of the library: take all of them
        have = set(f['repo'])
        objs += compile_jobs([(os.path.join(repo, 'sdk/src', s), flags, 'r_' + s.replace('/', '_')) for s in all_repo() if s not in have])
        r = link(objs)
    if r.returncode:
        print(r.stdout[-6000:])
        shutil.rmtree(out, ignore_errors=True)
        die('BUILD-ERROR linking ' + fam)
    os.rename(exe + '.tmp', exe)
    return exe

def symbolise(exe, text):
    pcs = sorted(set(re.findall(r'pc=0x([0-9a-f]+)', text)))
    m = {}
    for pc in pcs[:8]:
        r = run(['addr2line', '-Cfsie', exe, hex(int(pc, 16) - 1)])
        ls = r.stdout.strip().split('\n')
        m[pc] = ' < '.join('%s at %s' % (ls[i].split('(')[0], ls[i + 1]) for i in range(0, min(len(ls) - 1, 6), 2))
    return re.sub(r'pc=0x([0-9a-f]+)', lambda k: m.get(k.group(1), k.group(0)), text)

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    repo = a[a.index('--repo') + 1] if '--repo' in a else '/repo'
    only = a[a.index('--only') + 1] if '--only' in a else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(V + '/replays', exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    known = [k for k in json.load(open(V + '/known_findings.json')) if k.get('property') == prop and k.get('status') == 'known']
    scen, bad, internal = [], [], []
    for fam, prefix in PROPS[prop]['run']:
        exe = build(fam, repo)
        js = '%s/build/%s-%s-%d.json' % (V, prop, fam, os.getpid())
        cmd = [exe, '--out', js, '--viol', '%s/replays/%s' % (V, prop), '--only', only or prefix] + (['--thorough'] if tier == 'thorough' else [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', cwd=V)
        sys.stderr.write(r.stderr[-20000:])
        try:
            data = json.load(open(js)); os.unlink(js)
        except Exception as e:
            print(r.stdout[-3000:]); die('NO-ANSWER %s did not finish: exit %s (%s)' % (fam, r.returncode, e))
        for s in data['scenarios']:
            s['family'] = fam
            if s['status'] == 3:
                s['msg'] = symbolise(exe, s['msg']); bad.append(s)
            elif s['status'] not in (1, 2):
                internal.append(s)
            scen.append(s)
    if not scen:
        die('NO-ANSWER no scenarios for ' + prop)
    viol = []
    for s in bad:
        text = '%s: %s' % (s['kind'], s['msg'])
        k = next((k for k in known if k['scenario'] == s['name'] and re.search(k['match'], text)), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            viol.append((s, text))
    ok = [s for s in scen if s['status'] in (1, 2)]
    cov = {
        'states': sum(s['states'] for s in scen), 'transitions': sum(s['transitions'] for s in scen),
        'traces_validated_against_impl': sum(s['execs'] for s in scen),
        'distinct_outcomes': sum(s['outcomes'] for s in scen),
        'exhaustive': all(s['status'] == 1 for s in scen),
        'scenarios': [{k: s[k] for k in ('name', 'execs', 'states', 'transitions', 'outcomes', 'bound', 'bound_done', 'tdev', 'sdev', 'capped', 'maxsteps', 'maxthreads', 'note') if k in s} for s in scen],
        'samples': [s['name'] + ': ' + x for s in ok[:6] for x in (s.get('sample'), s.get('sample2')) if x][:8] or ['no complete execution'],
        'bounds': PROPS[prop]['bounds'],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': PROPS[prop].get('level', 'model_checking'), 'coverage': cov,
          'assumptions': ASSUME[PROPS[prop].get('assume', 'mc')], 'wall_s': round(time.time() - t0, 3), 'violations': len(viol)}
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    for s, text in viol:
        print('VIOLATION property=%s replay=%s' % (prop, s.get('replay') or s['name']))
        print('  scenario %s (bound %s): %s' % (s['name'], s.get('bound_done'), text[:3000]))
    if viol:
        sys.exit(1)
    if internal:
        for s in internal:
            print('NO-ANSWER scenario %s status %s: %s %s' % (s['name'], s['status'], s.get('kind'), s.get('msg', '')[:1500]))
        sys.exit(2)
    print('OK property=%s tier=%s scenarios=%d executions=%d states=%d transitions=%d outcomes=%d%s wall=%.1fs' % (prop, tier, len(scen), cov['traces_validated_against_impl'], cov['states'], cov['transitions'], cov['distinct_outcomes'], '' if cov['exhaustive'] else ' (capped: %s)' % ','.join(s['name'] for s in scen if s['status'] == 2), time.time() - t0))
    sys.exit(0)

main()
