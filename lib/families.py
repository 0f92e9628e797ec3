"""Which drivers run for which property, and which aspects of a record count for it."""
import re, os
from vf import *

def cfgs_in(header, prefix):
    return re.findall(r'^struct (%s\w*) : \w*Cfg' % prefix, open(os.path.join(HARN, header)).read(), re.M)

LIST = cfgs_in('seq_cfg.hpp', 'list_'); SLIST = cfgs_in('seq_cfg.hpp', 'slist_')

def flagset(obs, throws): return (['--obs', obs] if obs else []) + (['--throws', 0] if not throws else [])

def seq(ctx, cfgs, bfs=True, rnd=500, big=True, script=None, obs=None, throws=True, bfs_profile='1122', cap=1000000):
    T = ctx.tier == 'thorough'; runs = []; fl = flagset(obs, throws)
    for n, c in enumerate(cfgs):
        u = Unit('seq.cpp', c)
        if bfs: runs.append(Run(u, ['--mode', 'bfs', '--budget', cap, '--profile', bfs_profile] + fl))
        if bfs and T: runs.append(Run(u, ['--mode', 'bfs', '--budget', cap, '--profile', '11223'] + fl))
        if rnd:
            for k in range(6 if T else 1): runs.append(Run(u, ['--mode', 'random', '--n', 14 + 9 * (k % 3), '--keys', 2 + 4 * (k % 2), '--seed', ctx.seed * 1000 + n * 17 + k, '--budget', rnd * (6 if T else 1)] + fl))
            if big: runs.append(Run(u, ['--mode', 'random', '--n', 150 if T else 70, '--keys', 9, '--seed', ctx.seed * 1000 + n * 17 + 9, '--budget', 300 if T else 60] + fl))
        if script: runs.append(Run(u, ['--mode', 'script', '--script', script, '--profile', '1221'] + fl))
    return Family('seq', 'SeqConform.tla', runs)

TREE = re.findall(r'^TC\((\w+)\)', open(os.path.join(HARN, 'tree_cfg.hpp')).read(), re.M)
def kinds(*ks): return [c for c in TREE if c.split('_')[0] in ks]
def core(*ks): return [c for c in kinds(*ks) if c.split('_')[1] in ('tree', 'set', 'mset')]
HHT = [c for c in TREE if '_hh' in c]
ALLK = ('rb', 'avl', 'bs', 'sg', 'sp', 'tr')

def tree(ctx, cfgs, bfs='1122', rnd=250, big=True, few=0, scripts=(), obs=None, throws=True, flags=(), budget=1000000, cap=100000, uniq=0):
    T = ctx.tier == 'thorough'; runs = []; fl = flagset(obs, throws)
    for n, c in enumerate(cfgs):
        u = Unit('tree.cpp', c, flags); S = ctx.seed * 1000 + n * 17
        if bfs: runs.append(Run(u, ['--mode', 'bfs', '--n', cap, '--budget', budget, '--profile', bfs] + fl))
        if bfs and T: runs.append(Run(u, ['--mode', 'bfs', '--n', cap, '--budget', budget, '--profile', '11223'] + fl))
        if bfs and T and not throws: runs.append(Run(u, ['--mode', 'bfs', '--n', cap, '--budget', budget, '--profile', '12345'] + fl))
        if rnd:
            for k in range(8 if T else 1): runs.append(Run(u, ['--mode', 'random', '--n', 12 + 9 * ((n + k) % 3), '--keys', 3 + 4 * ((n + k) % 4), '--seed', ctx.seed * 1000 + n * 17 + k, '--budget', rnd * (6 if T else 1)] + fl))
            if uniq: runs += [Run(u, ['--mode', 'random', '--n', 20 + 25 * z, '--keys', 400, '--seed', S + 40 + z, '--budget', uniq * (4 if T else 1)] + fl) for z in (0, 1)]   # mostly distinct keys
            if few: runs.append(Run(u, ['--mode', 'random', '--n', 60, '--keys', 2, '--seed', S + 8, '--budget', few] + fl))
            if big: runs.append(Run(u, ['--mode', 'random', '--n', 150 if T else 60, '--keys', 9 + 50 * (n % 2), '--seed', ctx.seed * 1000 + n * 17 + 9, '--budget', 400 if T else 100] + fl))
        for sc in scripts: runs.append(Run(u, ['--mode', 'script', '--script', sc, '--profile', '12213'] + fl))
    return Family('tree', 'OrdConform.tla', runs)

HASH = [c for c in re.findall(r'^HC\((\w+)\)', open(os.path.join(HARN, 'hash_cfg.hpp')).read(), re.M) if c not in ('mod_alin', 'mod_btdoc')]
BTDOC = os.path.join(HARN, 'btdoc.script')
ALIN = os.path.join(HARN, 'alin.script')

def hasht(ctx, cfgs, bfs='1132', states=8, rnd=150, big=True, scripts=(), obs=None, throws=True, flags=(), alin=False, btdoc=False):
    T = ctx.tier == 'thorough'; runs = []; fl = flagset(obs, throws)
    for n, c in enumerate(cfgs):
        u = Unit('hash.cpp', c, flags); S = ctx.seed * 1000 + n * 17
        if bfs: runs.append(Run(u, ['--mode', 'bfs', '--n', 60 if T else states, '--budget', 1000000, '--profile', bfs] + fl))
        if bfs and T: runs.append(Run(u, ['--mode', 'bfs', '--n', 40, '--budget', 1000000, '--profile', '11234'] + fl))
        if rnd:
            for k in range(6 if T else 1): runs.append(Run(u, ['--mode', 'random', '--n', 12 + 6 * ((n + k) % 3), '--keys', 3 + 3 * ((n + k) % 3), '--seed', S + k, '--budget', rnd * (6 if T else 1)] + fl))
            if big: runs.append(Run(u, ['--mode', 'random', '--n', 120 if T else 40, '--keys', 9, '--seed', S + 9, '--budget', 300 if T else 40] + fl))
        for sc in scripts: runs.append(Run(u, ['--mode', 'script', '--script', sc, '--profile', '1132'] + fl))
    if alin: runs.append(Run(Unit('hash.cpp', 'mod_alin'), ['--mode', 'script', '--script', ALIN, '--profile', '12', '--obs', 'E']))
    if btdoc: runs.append(Run(Unit('hash.cpp', 'mod_btdoc'), ['--mode', 'script', '--script', BTDOC, '--profile', '12', '--obs', 'E']))
    return Family('hash', 'HashConform.tla', runs)

def crash(a): return a.startswith('crash-') or a in ('notenabled', 'build')
REAL = lambda a: crash(a) and a != 'crash-constwrite'

NUM = re.findall(r'^struct (num_\w+) ', open(os.path.join(HARN, 'num.cpp')).read(), re.M)
def num(ctx):
    T = ctx.tier == 'thorough'; runs = []
    # arrays of 3221225473 buckets (the last count with a 32-bit reciprocal) only for the configuration that uses it in the quick tier
    for n, c in enumerate(NUM): runs.append(Run(Unit('num.cpp', c), ['--mode', 'deep' if T else 'quick', '--seed', ctx.seed * 1000 + n, '--budget', 4000000000 if T or c == 'num_fm' else 120000000]))
    return Family('num', 'NumConform.tla', runs)

RING = ['cl', 'cl_off', 'cs', 'cs_off', 'ls', 'ls_off']
def ring(ctx, cfgs=RING):
    T = ctx.tier == 'thorough'; runs = []
    for n, c in enumerate(cfgs):
        u = Unit('algl.cpp', c)
        runs.append(Run(u, ['--mode', 'bfs', '--n', 5 if T else 4]))
        for k in range(4 if T else 1): runs.append(Run(u, ['--mode', 'random', '--n', 8 + k % 2 * 2, '--seed', ctx.seed * 1000 + n * 17 + k, '--budget', 1500 if T else 120]))
    return Family('ring', 'RingConform.tla', runs)
TALG = re.findall(r'TA\((a\w+_(?:raw|off)), ', open(os.path.join(HARN, 'algt.cpp')).read())
def treealg(ctx, cfgs=TALG):
    T = ctx.tier == 'thorough'; runs = []
    for n, c in enumerate(cfgs):
        u = Unit('algt.cpp', c); sg = c.startswith('asg')
        if c.endswith('_raw') or T:
            runs.append(Run(u, ['--mode', 'bfs', '--n', 4 if T else 3, '--budget', (1500 if sg else 1000000) if T else (150 if sg else 1000000), '--profile', '1122' if T else '112']))
            if not T: runs.append(Run(u, ['--mode', 'bfs', '--n', 4, '--budget', 60, '--profile', '1223']))
        for k in range(8 if T else 2): runs.append(Run(u, ['--mode', 'random', '--n', 6 + 5 * (k % 3), '--keys', 4 + 4 * (k % 2), '--seed', ctx.seed * 1000 + n * 17 + k, '--budget', 6000 if T else 900]))
    return Family('treealg', 'TreeAlgoConform.tla', runs)

WL = re.findall(r'^(?:LX|TX|HX)\((w\w+),', open(os.path.join(HARN, 'work.cpp')).read() + open(os.path.join(HARN, 'work_cfg.hpp')).read(), re.M)
def work(ctx, cfgs=WL):
    T = ctx.tier == 'thorough'; runs = []
    for n, c in enumerate(cfgs):
        u = Unit('work.cpp', c)
        for k in range(4 if T else 1): runs.append(Run(u, ['--mode', 'deep' if T and k < 2 else 'quick', '--seed', ctx.seed * 1000 + n * 17 + k]))
    return Family('work', 'WorkConform.tla', runs)

ANYK = re.findall(r'^A[KM]\((\w+),', open(os.path.join(HARN, 'anyk.cpp')).read(), re.M)
def anyk(ctx):
    T = ctx.tier == 'thorough'; runs = []
    for n, c in enumerate(ANYK):
        for k in range(12 if T else 3): runs.append(Run(Unit('anyk.cpp', c), ['--n', 5 + 4 * (k % 3) + (30 if k > 8 else 0), '--keys', 2 + 3 * (k % 3), '--seed', ctx.seed * 1000 + n * 17 + k, '--budget', 12000 if T else 1500]))
    return Family('anyk', 'AnyConform.tla', runs)

def hkey(ctx):
    T = ctx.tier == 'thorough'; runs = []
    for n, c in enumerate(re.findall(r'^struct (k_\w+) ', open(os.path.join(HARN, 'hkey.cpp')).read(), re.M)):
        for k in range(12 if T else 2): runs.append(Run(Unit('hkey.cpp', c), ['--seed', ctx.seed * 1000 + n * 17 + k, '--budget', 1500 if T else 180]))
    return Family('hkey', 'KeyConform.tla', runs)
