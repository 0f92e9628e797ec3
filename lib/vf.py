"""Runner: builds drivers against /repo, records behaviours, lets TLC judge them against the specification."""
import os, sys, json, hashlib, subprocess, time, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec'); HARN = os.path.join(ROOT, 'harness')
BUILD = os.path.join(ROOT, 'build')
COMPAT = '/opt/vp/compat'
JOBS = os.cpu_count() or 4

def sh_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'include'), HARN):
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

class Unit:
    """one driver binary: source file + configuration macro"""
    def __init__(s, src, cfg, flags=()):
        s.src, s.cfg, s.flags = src, cfg, tuple(flags)
    def name(s): return os.path.splitext(s.src)[0] + '_' + s.cfg + ''.join('_' + re.sub(r'\W', '', f) for f in s.flags)

def build_one(u, bdir):
    exe = os.path.join(bdir, u.name())
    if os.path.exists(exe): return exe, None
    tmp = exe + '.%d.tmp' % os.getpid()
    cmd = ['g++', '-std=c++17', '-O1', '-w', '-I' + os.path.join(REPO, 'include'), '-isystem', COMPAT, '-DCFG=' + u.cfg] + list(u.flags) + [os.path.join(HARN, u.src), '-o', tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return None, 'command: %s\n%s' % (' '.join(cmd), p.stdout[:6000])
    os.replace(tmp, exe); return exe, None

class Run:
    def __init__(s, unit, args): s.unit, s.args = unit, [str(a) for a in args]
    def desc(s): return s.unit.cfg + ' ' + ' '.join(s.args)

def tlc(module, cfg, env=None, extra=(), timeout=1500, workers=None, heap=None):
    md = tempfile.mkdtemp(prefix='vtlc')
    e = dict(os.environ); e.update(env or {})
    e['JAVA_TOOL_OPTIONS'] = '-Xss256m'
    cmd = ['tlc', '-noGenerateSpecTE', '-workers', str(workers or JOBS), '-metadir', md, '-config', cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(md, ignore_errors=True)

def tlc_stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def tlc_err(out):
    out = re.sub(r'State \d+: <Next line.*?\ncursor = \d+\n\n', '', out)
    i = out.find('Error:'); return out[max(0, i):][:2500]

class Family:
    """conformance of one family of drivers with one TLA+ module"""
    def __init__(s, name, module, runs, models=(), scripts=()):
        s.name, s.module, s.runs, s.models, s.scripts = name, module, runs, models, scripts

class Ctx:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.t0 = time.time(); s.viol = []; s.known = []; s.cov = {}; s.errors = []
        s.ev = os.path.join(ROOT, 'evidence'); os.makedirs(s.ev, exist_ok=True)
        s.rep = os.path.join(s.ev, 'replay'); os.makedirs(s.rep, exist_ok=True)
        for f in os.listdir(s.rep):
            if f.startswith(prop + '-'): os.remove(os.path.join(s.rep, f))
        s.bdir = os.path.join(BUILD, sh_hash()); os.makedirs(s.bdir, exist_ok=True)
        s.tmp = tempfile.mkdtemp(prefix='vf-' + prop)
        s.bg = ThreadPoolExecutor(3); s.pend = []; s.gens = []
        s.stats = dict(states=0, transitions=0, traces=0, records=0, executed=0, configs=[], ops={}, models=[], samples=[], kinds={})
    def log(s, m): print('[%6.1fs] %s' % (time.time() - s.t0, m), flush=True)
    def close(s): shutil.rmtree(s.tmp, ignore_errors=True)

    # ---- model checking of the specification itself
    def model(s, module, cfg, what):
        s.pend.append(s.bg.submit(s._model, module, cfg, what))
    def _model(s, module, cfg, what):
        rc, out = tlc(module, cfg, workers=4)
        g, d = tlc_stats(out)
        if rc != 0 or 'No error has been found' not in out:
            s.errors.append('TLC %s/%s: rc=%d\n%s' % (module, cfg, rc, out[-3000:])); return
        s.stats['models'].append(dict(module=module, cfg=cfg, states=g, distinct=d, what=what))
        s.stats['states'] += d; s.stats['transitions'] += g
        s.log('model %s: %d states generated, %d distinct, properties hold' % (cfg, g, d))

    # ---- behaviours generated by TLC from the specification, as driver scripts
    def generate(s, module, cfg, num, depth):
        path = os.path.join(s.tmp, 'script_' + cfg)
        s.gens.append(s.bg.submit(s._generate, module, cfg, num, depth, path)); return path
    def _generate(s, module, cfg, num, depth, path):
        rc, out = tlc(module, cfg, extra=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(s.seed)], workers=1)
        beh = []
        for l in out.splitlines():
            if l.startswith('"BEH '):
                b = l[5:].rstrip('"').replace('\\"', '"')
                if b not in beh[-1:]: beh.append(b)
        if not beh: s.errors.append('TLC generated no behaviour from %s:\n%s' % (module, out[-2000:]))
        with open(path, 'w') as f:
            for b in beh:
                f.write(' ; '.join(' '.join([o] + [str(x) for x in flat(g)]) for o, g in json.loads(b)) + '\n')
        s.stats['traces'] += len(beh)
        s.log('generated %d behaviours from %s' % (len(beh), module))
        return path

    def run_all(s, pairs):
        """several families: build everything first, then execute and judge them concurrently"""
        units = {}
        for fam, _ in pairs:
            for r in fam.runs: units.setdefault(r.unit.name(), r.unit)
        with ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda u: build_one(u, s.bdir), units.values()))
        with ThreadPoolExecutor(len(pairs)) as ex: list(ex.map(lambda p: s.run_family(*p), pairs))

    def run_family(s, fam, watch):
        units = {}
        for r in fam.runs: units.setdefault(r.unit.name(), r.unit)
        with ThreadPoolExecutor(JOBS) as ex: built = dict(zip(units, ex.map(lambda u: build_one(u, s.bdir), units.values())))
        for n, (exe, err) in built.items():
            if err: s.violation(fam, dict(t='build'), 'build', 'build of configuration %s' % n, dict(error=err))
        s.log('%s: built %d drivers' % (fam.name, sum(1 for e in built.values() if e[0])))
        for f in list(s.gens): f.result()
        def go(ix):
            r = fam.runs[ix]; exe = built[r.unit.name()][0]
            if not exe: return None
            out = os.path.join(s.tmp, '%s_%d.rec' % (fam.name, ix))
            try: p = subprocess.run([exe, '--file', out] + r.args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=240 if s.tier == 'quick' else 3000, cwd=s.tmp)
            except subprocess.TimeoutExpired: return (out, None, 'timeout')
            return (out, p.returncode, p.stderr)
        with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(go, range(len(fam.runs))))
        first = {}; order = []
        for ix, r in enumerate(res):
            if r is None: continue
            out, rc, err = r
            if rc != 0: s.violation(fam, dict(t='driver'), 'crash-driver', 'driver %s ended with rc=%s: %s' % (fam.runs[ix].desc(), rc, (err or '')[-300:]), dict(config=fam.runs[ix].unit.cfg, args=fam.runs[ix].args))
            m = re.search(r'executed (\d+)', err or '')
            if m: s.stats['executed'] += int(m.group(1))
            for m in re.finditer(r'^op (\S+) (\d+)', err or '', re.M): s.stats['ops'][fam.name + ':' + m.group(1)] = s.stats['ops'].get(fam.name + ':' + m.group(1), 0) + int(m.group(2))
            if not os.path.exists(out): continue
            with open(out, errors='replace') as f:
                for l in f:
                    j, _, src = l.rstrip('\n').partition('\t')
                    if j and j not in first: first[j] = (ix, src); order.append(j)
            os.remove(out)
        good = []
        for j in order:
            try: json.loads(j); good.append(j)
            except ValueError: s.errors.append('unparsable record from %s: %s' % (fam.runs[first[j][0]].desc(), j[:300]))
        s.log('%s: %d runs, %d distinct records' % (fam.name, len(fam.runs), len(good)))
        s.stats['configs'] += sorted(units)
        s.stats['records'] += len(good)
        nch = max(1, min(JOBS // 2, len(good) // 8000)); nch = max(nch, -(-len(good) // 250000))
        chunks = [good[k::nch] for k in range(nch)]
        nbad = 0
        def judge(ci):
            # a record TLC cannot evaluate (outside every domain of the specification) is itself a deviation; the rest is judged without it
            ch = chunks[ci]; bad = []; errs = []
            for attempt in range(12):
                rf = os.path.join(s.tmp, '%s_%d.ndjson' % (fam.name, ci))
                with open(rf, 'w') as f: f.write('\n'.join(ch) + '\n')
                rc, out = tlc(fam.module, 'Conform.cfg', env=dict(RECORDS=rf), workers=max(2, JOBS // nch))
                os.remove(rf)
                g, d = tlc_stats(out)
                bad = [b for b in bad if b[1] == ['crash-uneval']] + [(ch[int(m.group(1)) - 1], re.findall(r'"([^"]+)"', m.group(2))) for m in re.finditer(r'<<\s*"BADREC",\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S)]
                if rc == 0 and d == len(ch): return bad, []
                cur = re.findall(r'^(?:/\\ )?cursor = (\d+)', out, re.M)
                errs = ['TLC on %s: rc=%d, %d of %d records judged\n%s' % (fam.module, rc, d, len(ch), tlc_err(out))]
                if not cur or int(cur[-1]) > len(ch) or 'StackOverflow' in out or 'OutOfMemory' in out: return bad, errs
                bad.append((ch[int(cur[-1]) - 1], ['crash-uneval'])); ch = ch[:int(cur[-1]) - 1] + ch[int(cur[-1]):]
                if not ch: return bad, []
            return bad, errs
        if good:
            with ThreadPoolExecutor(JOBS // 2) as ex: judged = list(ex.map(judge, range(nch)))
        else: judged = []
        for bad, errs in judged:
            s.errors += errs
            for rec, asp in bad:
                nbad += 1; ix, src = first[rec]; d = json.loads(rec)
                hit = [a for a in asp if watch(d, a)]
                if hit: s.violation(fam, d, ','.join(hit), src, dict(config=fam.runs[ix].unit.cfg, args=fam.runs[ix].args, all_aspects=asp))
        s.log('%s: TLC judged %d records, %d outside the specification' % (fam.name, len(good), nbad))
        for j in good:
            k = json.loads(j) if len(s.stats['samples']) < 3 else None
            if k is not None and first[j][1].count(';') > 3: s.stats['samples'].append(dict(family=fam.name, config=fam.runs[first[j][0]].unit.cfg, source=first[j][1][:300], record=k))
            m = re.match(r'\{"t":"(\w+)"(?:,"o":"(\w+)")?', j)
            if m: key = fam.name + ':' + m.group(1) + (':' + m.group(2) if m.group(2) else ''); s.stats['kinds'][key] = s.stats['kinds'].get(key, 0) + 1

    def violation(s, fam, rec, aspect, src, info):
        key = dict(family=fam.name, aspect=aspect, source=src, record=rec); key.update(info)
        for k in known_findings():
            if k['property'] == s.prop and k['match'] in json.dumps(key): s.known.append(k); return
        s.viol.append(key)

    def finish(s, level, rows):
        for f in s.pend + s.gens: f.result()
        st = s.stats
        wall = time.time() - s.t0
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level=level, wall_s=round(wall, 2), coverage=dict(
            states=st['states'], transitions=st['transitions'], traces_validated_against_impl=st['records'],
            samples=st['samples'][:3] or [dict(note='none')],
            evidence_extra=dict(operations_executed_in_code=st['executed'], spec_behaviours_replayed=st['traces'], configurations=sorted(set(st['configs'])), record_kinds=st['kinds'], models=st['models'], rows=rows)))
        ev['coverage'].update(ev['coverage'].pop('evidence_extra'))
        ev['violations'] = len(s.viol)
        with open(os.path.join(s.ev, s.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        seen = set()
        for k in s.known:
            if k['match'] not in seen: seen.add(k['match']); print('KNOWN-FINDING: property=%s %s' % (s.prop, k['what']))
        if s.viol:
            shown = {}
            for v in s.viol: shown.setdefault((v['family'], v['aspect'], v['record'].get('o', v['record'].get('t'))), []).append(v)
            for n, (k, vs) in enumerate(sorted(shown.items(), key=lambda x: str(x[0]))[:20]):
                v = min(vs, key=lambda x: len(x['source'])); path = os.path.join(s.rep, '%s-%d.json' % (s.prop, n))
                with open(path, 'w') as f: json.dump(v, f, indent=1)
                print('  %s %s: %d records; e.g. [%s] %s' % (k[0], k[1:], len(vs), v.get('config'), v['source'][:300]))
                print('VIOLATION property=%s replay=%s' % (s.prop, path))
            for e in s.errors[:5]: print('note: ' + e)
            return 1
        if s.errors:
            for e in s.errors[:10]: print('ERROR: ' + e)
            return 2
        print('OK property=%s: %d model states, %d records of the implementation judged, %.1fs' % (s.prop, st['states'], st['records'], wall))
        return 0

def flat(x):
    for y in x:
        if isinstance(y, list):
            for z in flat(y): yield z
        else: yield y

_kf = None
def known_findings():
    """lines 'finding: property=<id> match=<text identifying the failing input> :: <what fails>'; 'fixed:' lines suppress nothing"""
    global _kf
    if _kf is None:
        _kf = []; p = os.path.join(ROOT, 'KNOWN_FINDINGS')
        for l in (open(p) if os.path.exists(p) else []):
            m = re.match(r'finding: property=(\S+) match=(.*?) :: (.*)', l)
            if m: _kf.append(dict(property=m.group(1), match=m.group(2), what=m.group(3)))
    return _kf
