#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current tree.

1. extracts the functions the property depends on from /repo (tools/vx, guided by rustc's own types) and puts them
   under the contracts of /verif/contracts;
2. lets Verus discharge every obligation, function by function;
3. runs the replay harness on the real crate: it looks for a failing input, and tests the library contracts the proof assumes.
exit 0: held. exit 1: VIOLATION line. anything else: the check itself is in trouble."""
import json, os, re, subprocess, sys, threading, time, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
B = os.path.join(V, '.build')
T0 = time.time()
VERUS_RLIMIT = 30

def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=cwd, shell=isinstance(cmd, str), start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        import signal
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return -9, '', 'timeout'

def trouble(msg):
    print('CHECK-ERROR ' + msg); sys.stdout.flush(); os._exit(2)

# ---------- building ----------
def build_vx():
    rc, o, e = sh(['cargo', 'build', '--offline', '-q'], env={'CARGO_TARGET_DIR': B + '/vx'}, cwd=V + '/tools/vx')
    if rc: raise RuntimeError('vx does not build: ' + e[-1500:])

def build_oracle():
    rc, o, e = sh(['bash', V + '/tools/oracle.sh', REPO, B + '/oracle.jsonl'], timeout=600)
    if rc: raise RuntimeError('the type oracle fails: ' + (o + e)[-1500:])

def build_replay():
    rc, o, e = sh(['cargo', 'build', '--offline', '-q'], env={'CARGO_TARGET_DIR': B + '/replay'}, cwd=V + '/replay', timeout=700)
    return rc == 0, e[-3000:]

HINTS = {}
def aim(prop):
    """what the code mentions now and did not when the contracts were written: worth trying"""
    try:
        sys.path.insert(0, V + '/tools'); import literals
        n, w, changed = literals.news(REPO)
    except Exception as ex: n, w, changed = [], [], True
    os.makedirs(f'{B}/{prop}', exist_ok=True)
    f = f'{B}/{prop}/hints.json'
    json.dump({'numbers': n, 'words': w}, open(f, 'w'))
    HINTS.update(file=f, numbers=n, words=w, changed=changed)

def replay(prop, seed, secs, workers=4):
    """several searches at once, each from its own seed"""
    out = [None] * workers
    def go(i): out[i] = replay1(prop, seed + 1_000_003 * i, secs)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    for s in ('fail', 'trouble', 'none'):
        for r in out:
            if r and r['state'] == s: return r
    return {**out[0], 'cases': sum(r.get('cases', 0) for r in out), 'searches': workers}

def replay1(prop, seed, secs, case=None):
    cmd = [B + '/replay/debug/replay', prop, '--seed', str(seed), '--secs', str(secs)]
    if case is not None: cmd += ['--case', str(case)]
    rc, o, e = sh(cmd, timeout=secs + 150, env={'TMPDIR': os.environ.get('TMPDIR', '/tmp'), 'VX_HINTS': HINTS.get('file', '')})
    line = [l for l in o.splitlines() if l.startswith('{')]
    j = json.loads(line[-1]) if line else {}
    if rc == 0: return {'state': 'none' if j.get('none') else 'pass', **j}
    if rc == 1 and 'what' in j: return {'state': 'fail', **j}
    if rc < 0 and rc != -9: return {'state': 'fail', 'what': f'the process died with signal {-rc}', 'seed': seed, 'again': ' '.join(cmd), 'stderr': e[-1000:]}
    return {'state': 'trouble', 'rc': rc, 'stderr': e[-1500:]}

# ---------- extraction and verification ----------
class Run: pass

def extract(roots, stubs, out, meta, probe=False):
    for p, l in ((out + '.roots', roots), (out + '.stubs', stubs)):
        open(p, 'w').write('\n'.join(l) + '\n')
    cmd = [B + '/vx/debug/vx', '--repo', REPO, '--oracle', B + '/oracle.jsonl', '--contracts', V + '/contracts', '--out', out, '--meta', meta, '--roots', out + '.roots', '--stubs', out + '.stubs']
    if probe: cmd += ['--probe', '1']
    rc, o, e = sh(cmd, timeout=120)
    if rc: raise RuntimeError('extraction fails: ' + (o + e)[-1500:])
    return json.load(open(meta))

def verus(path, extra=()):
    cmd = ['verus', path, '--error-format=json', '--output-json', '--time-expanded', '--rlimit', str(VERUS_RLIMIT), *extra]
    t = time.time()
    rc, o, e = sh(cmd, timeout=600, cwd=os.path.dirname(path))
    diags = []
    for l in e.splitlines():
        if l.startswith('{'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error': diags.append(d)
    try: res = json.loads(o[o.index('{'):])
    except ValueError: res = {}
    return ' '.join(cmd), res, diags, time.time() - t, rc

def fn_at(lines, n):
    best = None
    for a, b, k in lines:
        if a <= n < b and (best is None or b - a < best[0]): best = (b - a, k)
    return best[1] if best else None

SOLVER = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic', 'possible division', 'decreases not satisfied', 'possible bit shift', 'unreachable', 'unable to prove', 'failed this postcondition', 'could not prove termination', 'recommendation not met', 'possible', 'cannot show', 'loop invariant')
def kind_of(msg):
    m = msg.lower()
    if 'resource limit' in m or 'rlimit' in m or 'time' in m and 'out' in m: return 'limit'
    if 'aborting due to' in m: return 'sum'
    if any(s in m for s in SOLVER): return 'obligation'
    return 'compile'
PANIC = ('precondition not satisfied', 'arithmetic', 'division', 'bit shift', 'unreachable', 'decreases', 'termination', 'possible')

def owner(d, lines):
    """the function whose obligation this is"""
    sp = d.get('spans') or []
    msg = d['message'].lower()
    pref = []
    if 'postcondition' in msg:
        pref = [s for s in sp if 'end of the function' in (s.get('label') or '') or 'exit' in (s.get('label') or '') or 'function body' in (s.get('label') or '')]
    pref = pref + [s for s in sp if s.get('is_primary')] + sp
    for s in pref:
        k = fn_at(lines, s['line_start'])
        if k: return k
    return None

def other(d, text, prop):
    """a postcondition that states another property: the contract names the properties it states"""
    if 'postcondition' not in d['message'].lower(): return False
    for s in d.get('spans') or []:
        if 'failed this' in (s.get('label') or ''):
            x = re.search(r'/\*only ([C0-9 ]+)\*/', ' '.join(text[s['line_start'] - 1:s['line_end']]))
            return bool(x) and prop not in x.group(1).split()
    return False

def verify(roots, name):
    """extract and verify; functions Verus cannot take are made stubs (undecided) and the rest is tried again"""
    r = Run(); r.undecided = {}; r.broken = False; r.rounds = 0
    out = f'{B}/{name}/a.rs'; meta = f'{B}/{name}/a.json'
    os.makedirs(os.path.dirname(out), exist_ok=True)
    stubs = []
    for r.rounds in range(1, 9):
        m = extract(roots, stubs, out, meta)
        r.cmd, r.res, r.diags, r.secs, rc = verus(out, ['--multiple-errors', '8'])
        vr = r.res.get('verification-results', {})
        comp = [d for d in r.diags if kind_of(d['message']) == 'compile' and d.get('spans')]
        if not vr or vr.get('encountered-vir-error') or (comp and not vr.get('verified')):
            new = {}
            for d in comp or r.diags:
                ks = set()
                for s in d.get('spans') or []:
                    if s.get('is_primary'):
                        k = fn_at(m['lines'], s['line_start'])
                        if k: ks.add(k)
                for k in ks:
                    if not k.startswith('!') and k not in stubs: new[k] = d['message'][:300]
            r.undecided.update(new)
            if not new:
                r.broken = True; r.why = (comp or r.diags or [{'message': 'no output from the verifier'}])[0]['message'][:600]
                break
            stubs += list(new)
            continue
        break
    r.meta = m; r.out = out
    for k, v in m.get('failed', {}).items(): r.undecided.setdefault(k, 'cannot be extracted: ' + str(v))
    r.failed = {}; r.others = {}
    text = open(out).read().split('\n') if os.path.exists(out) else []
    if not r.broken:
        for d in r.diags:
            kd = kind_of(d['message'])
            if kd == 'sum': continue
            k = owner(d, m['lines'])
            k = (k or '?').lstrip('!')
            if kd == 'obligation' and other(d, text, name): r.others.setdefault(k, []).append(d['message'])
            elif kd == 'obligation': r.failed.setdefault(k, []).append(d)
            else: r.undecided.setdefault(k, d['message'][:300])
    return r

def probe(roots, stubs, name):
    out = f'{B}/{name}/p.rs'; meta = f'{B}/{name}/p.json'
    m = extract(roots, stubs, out, meta, probe=True)
    cmd, res, diags, secs, rc = verus(out, ['--multiple-errors', '0'])
    hit = set()
    for d in diags:
        for s in d.get('spans') or []:
            k = fn_at(m['lines'], s['line_start'])
            if k: hit.add(k)
    if not res.get('verification-results'): return None, secs
    return [k for a, b, k in m['lines'] if not k.startswith('!') and k not in hit], secs

def assumptions(src):
    """every unproved item of the verified text, by name"""
    out = {'external_body': [], 'assume_specification': [], 'axioms': [], 'uninterpreted': [], 'admit': 0}
    lines = src.split('\n')
    for i, l in enumerate(lines):
        c = l.split('//')[0]
        if 'assume_specification' in c:
            x = re.search(r'\[\s*(.*?)\s*\]\s*\(', c); out['assume_specification'].append(x.group(1) if x else c.strip()[:80])
        if 'external_body' in c:
            for j in range(i, min(i + 4, len(lines))):
                x = re.search(r'\b(fn|struct)\s+(\w+)', lines[j])
                if x: out['external_body'].append(x.group(2)); break
        x = re.search(r'\baxiom\s+fn\s+(\w+)', c)
        if x: out['axioms'].append(x.group(1))
        x = re.search(r'\buninterp\s+spec\s+fn\s+(\w+)', c)
        if x: out['uninterpreted'].append(x.group(1))
        if re.search(r'\b(admit|assume)\s*\(', c): out['admit'] += 1
    for k in out:
        if isinstance(out[k], list): out[k] = sorted(set(out[k]))
    return out

def known(prop):
    f = os.path.join(V, 'KNOWN_FINDINGS.txt'); out = []
    if os.path.exists(f):
        for l in open(f):
            x = re.match(r'finding: property=(\S+) match="([^"]*)" (.*)', l.strip())
            if x and x.group(1) == prop: out.append((x.group(2), x.group(3)))
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    conf = json.load(open(V + '/tools/props.json'))[prop]
    os.makedirs(B, exist_ok=True)
    secs = conf.get('secs', 20) if tier == 'quick' else 240
    aim(prop)
    state = {}
    def guard(n, f):
        try: state[n] = f()
        except Exception as ex: state[n + '!'] = str(ex)
    def left():
        guard('vx', build_vx) if False else None
        try:
            ts = [threading.Thread(target=guard, args=(n, f)) for n, f in (('bvx', build_vx), ('boracle', build_oracle))]
            [t.start() for t in ts]; [t.join() for t in ts]
            for n in ('bvx!', 'boracle!'):
                if n in state: raise RuntimeError(state[n])
            state['verify'] = verify(conf['roots'], prop)
        except Exception as ex: state['verify!'] = str(ex)
    def right():
        ok, err = build_replay()
        if not ok: state['replay!'] = err; return
        state['replay'] = replay(prop, seed, secs)
        if tier != 'quick' and state['replay']['state'] == 'pass': state['replay2'] = replay(prop, seed + 7919, secs, 6)
    ts = [threading.Thread(target=left), threading.Thread(target=right)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if 'verify!' in state and 'boracle!' in state: trouble(state['boracle!'])
    rp = state.get('replay') or {'state': 'trouble', 'stderr': state.get('replay!', '')}
    if state.get('replay2', {}).get('state') == 'fail': rp = state['replay2']
    v = state.get('verify')
    if v is None:
        v = Run(); v.broken = True; v.others = {}; v.why = state.get('verify!', '?'); v.undecided = {}; v.failed = {}; v.meta = {'slice': [], 'verified': [], 'lines': []}; v.res = {}; v.cmd = ''; v.secs = 0; v.out = None; v.rounds = 0
    prim = [re.compile(x) for x in conf['primary']]
    is_prim = lambda k: any(p.fullmatch(k) for p in prim)
    failed = dict(v.failed)
    if conf.get('panics_only'):
        failed = {k: [d for d in ds if any(p in d['message'].lower() for p in PANIC) and 'postcondition' not in d['message'].lower()] for k, ds in failed.items()}
        failed = {k: ds for k, ds in failed.items() if ds}
    # a helper that is new and has no contract is judged where it is called, not by itself
    try: base = set(json.load(open(V + '/tools/base.json'))['functions'])
    except Exception: base = set()
    for k in [k for k in failed if base and k not in base and k in v.meta.get('uncontracted', [])]:
        v.undecided.setdefault(k, 'a new function without a contract: ' + '; '.join(d['message'] for d in failed.pop(k))[:200]); v.failed.pop(k, None)
    mine = {k: ds for k, ds in failed.items() if is_prim(k)}
    for k, ms in v.others.items(): print(f'  not discharged, but stating another property: {k}: ' + '; '.join(ms)[:200])
    # a failed obligation, or other code than the contracts were written for: look longer for the input that shows it
    if (failed or HINTS['changed']) and rp['state'] == 'pass':
        more = replay(prop, seed + 104729, (80 if failed else 40) if tier == 'quick' else 240, 8)
        if more['state'] == 'fail': rp = more
    vac = []; psecs = 0
    if not v.broken and not failed:
        try: vac, psecs = probe(conf['roots'], [k for k in v.undecided], prop)
        except Exception as ex: vac = None
    # ---------- verdict ----------
    viol = []; lines = []
    for pat, text in known(prop):
        if rp['state'] == 'fail' and pat in rp.get('what', ''):
            lines.append(f'KNOWN-FINDING: property={prop} {text}'); rp = {**rp, 'state': 'pass', 'known': True}
        else: lines.append(f'KNOWN-FINDING: property={prop} {text}')
    rdir = V + '/replays'; os.makedirs(rdir, exist_ok=True); rfile = f'{rdir}/{prop}.json'
    if os.path.exists(rfile): os.remove(rfile)
    obl = {k: [{'message': d['message'], 'verifier_output': d.get('rendered', '')} for d in ds] for k, ds in failed.items()}
    if rp['state'] == 'fail':
        json.dump({'property': prop, 'failing_input': rp, 'replay_command': 'cd /verif/replay && CARGO_TARGET_DIR=/verif/.build/replay cargo run --offline -q -- ' + str(rp.get('again', '')).split('replay ', 1)[-1], 'failed_obligations': obl}, open(rfile, 'w'), indent=1)
        viol.append(f'VIOLATION property={prop} replay={rfile}')
    elif mine:
        json.dump({'property': prop, 'failed_obligations': obl, 'failing_input': None, 'note': 'no failing input found; the obligations named here were discharged on the unchanged tree'}, open(rfile, 'w'), indent=1)
        viol.append(f'VIOLATION property={prop} replay={rfile} no-failing-input-found')
    # ---------- evidence ----------
    vr = v.res.get('verification-results', {})
    nver, nerr = vr.get('verified', 0), vr.get('errors', 0)
    a = assumptions(open(v.out).read()) if v.out and os.path.exists(v.out) else {}
    times = v.res.get('times-ms', {})
    smt = (times.get('smt') or {}).get('total') if isinstance(times.get('smt'), dict) else None
    notver = sorted(set(v.meta.get('slice', [])) - set(v.meta.get('verified', [])))
    trusted = ['rustc and the extraction by tools/vx (what it drops is listed in DESIGN.md)', 'Verus 0.2026.09.13 and its Z3', 'the contracts on dependencies listed under trusted_functions (tested against the real libraries by the replay harness)']
    cov = {'obligations': nver + nerr, 'discharged': nver, 'checker_cmd': v.cmd.replace(B, '/verif/.build') or 'verus', 'trusted_base': trusted,
           'functions_under_contract': len(v.meta.get('verified', [])), 'functions': sorted(v.meta.get('verified', [])), 'primary_functions': sorted(k for k in v.meta.get('verified', []) if is_prim(k)),
           'functions_without_contract_inlined_or_weak': len(v.meta.get('uncontracted', [])),
           'not_extracted': {k: v.undecided.get(k) or v.meta.get('errors', {}).get(k, '') for k in notver}, 'undecided': v.undecided, 'verifier_broken': getattr(v, 'why', None) if v.broken else None,
           'back_end': 'Verus (Z3)', 'verifier_seconds': round(v.secs, 2), 'smt_ms': smt, 'vacuity_probe': {'accepted_false': vac, 'seconds': round(psecs, 2)},
           'trusted_functions': a, 'failed_obligations': {k: [d['message'] for d in ds] for k, ds in v.failed.items()},
           'bounded_replay': {'label': 'bounded: generated inputs on the real crate, never counted as proved', 'state': rp['state'], 'cases': rp.get('cases'), 'seconds': secs, 'seed': seed, 'aimed_at_new_literals': {'numbers': HINTS.get('numbers'), 'words': HINTS.get('words')}, 'detail': rp.get('what') or rp.get('stderr')}}
    level = conf.get('level', 'proof')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': conf.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
    if level != 'proof':
        cov['explanation'] = conf.get('explanation', '')
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    # ---------- output ----------
    for l in lines: print(l)
    print(f'{prop}: {nver} obligations discharged, {nerr} failed, {len(v.meta.get("verified", []))} functions under contract, verifier {v.secs:.1f}s; bounded replay {rp["state"]} ({rp.get("cases")} cases); {time.time()-T0:.0f}s')
    for k, w in v.undecided.items(): print(f'  undecided: {k}: {w[:160]}')
    if v.broken: print('  the verifier could not be brought to an answer: ' + v.why[:300])
    for k, ds in v.failed.items(): print(f'  not discharged: {k}: ' + '; '.join(d['message'] for d in ds)[:200] + ('' if is_prim(k) else ' (a function this property only depends on)'))
    if rp['state'] == 'fail': print('  failing input: ' + rp.get('what', '')[:600])
    if vac: print('  vacuous: ' + ', '.join(vac))
    for l in viol: print(l)
    sys.stdout.flush()
    if viol: os._exit(1)
    open_prims = [k for k in v.undecided if is_prim(k)]
    if rp['state'] == 'trouble' and 'replay!' in state and not v.broken and nver and not open_prims:
        print('  the replay harness does not build against this tree; every primary function was decided by the verifier'); sys.stdout.flush()
    elif rp['state'] == 'trouble': trouble('the replay harness gave no answer: ' + str(rp)[:1500])
    if not v.broken and nver == 0: trouble('no obligation was generated')
    if vac and not v.undecided and not conf.get('allow_vacuous'): 
        extra = [k for k in vac if k not in conf.get('vacuous_ok', [])]
        if extra: trouble('obligations of these functions are vacuous: ' + ', '.join(extra))
    os._exit(0)

if __name__ == '__main__': main()
