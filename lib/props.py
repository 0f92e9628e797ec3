"""One function per property: what is model-checked, what is executed, which deviations count."""
from vf import *
from families import *

BULK = {'spl', 'sspl', 'merge', 'sort', 'rev', 'shf', 'shb', 'unq', 'rmv', 'rmi'}

def seq_model(ctx): ctx.model('SeqMC.tla', 'SeqMC.cfg', 'two lists, 3 objects, all operations: conservation, stability, order, disposal, positions')
def seq_script(ctx): return ctx.generate('SeqMC.tla', 'SeqGen.cfg', 1500 if ctx.tier == 'thorough' else 150, 18)

def C01(ctx):
    seq_model(ctx)
    ctx.run_family(seq(ctx, LIST, script=seq_script(ctx)), lambda r, a: a in ('eff', 'ret', 'fwd', 'rev', 'ends', 'aux', 'throw', 'iter', 'early') or REAL(a))
def C02(ctx):
    seq_model(ctx)
    ctx.run_family(seq(ctx, SLIST, script=seq_script(ctx)), lambda r, a: a in ('eff', 'ret', 'fwd', 'prev', 'ends', 'aux', 'throw', 'iter', 'early') or REAL(a))


def W(*aspects, types=None, ops=None):
    """aspects that count, restricted to record types / operations if given; real crashes always count"""
    def w(r, a): return REAL(a) or (a in aspects and (types is None or r['t'] in types) and (ops is None or r['t'] != 'E' or r['o'] in ops))
    return w
def ord_model(ctx):
    ctx.model('OrdMC.tla', 'OrdMC.cfg', 'two multisets/generic trees, 5 objects, keys 1,2,2,1,3, all operations: order, insertion position, hints, lookups, erasure, merge, disposal')
    ctx.model('OrdMC.tla', 'OrdMCU.cfg', 'the same with unique containers: uniqueness, unique insertion, check/commit')
def ord_scripts(ctx):
    n = 2000 if ctx.tier == 'thorough' else 120
    return [ctx.generate('OrdMC.tla', 'OrdGen.cfg', n, 20), ctx.generate('OrdMC.tla', 'OrdGenU.cfg', n, 20)]

def C03(ctx):
    seq_model(ctx)
    ctx.run_family(seq(ctx, LIST + SLIST, script=seq_script(ctx), obs='ES'), W('eff', 'ret', 'aux', 'throw', 'fwd', 'iter', ops=BULK))
def C04(ctx):
    ord_model(ctx)
    ctx.run_family(tree(ctx, core(*ALLK) + ['rb_auto', 'avl_cauto', 'sp_auto', 'tr_auto'] + HHT, scripts=ord_scripts(ctx), obs='ES', throws=False), W('eff', 'ret', 'num', 'aux', 'fwd', 'rev', 'ends', 'root-order'))
def C05(ctx):
    ord_model(ctx)
    ctx.run_family(tree(ctx, core(*ALLK) + ['rb_kov', 'rb_tag2', 'avl_kov'], scripts=ord_scripts(ctx), obs='EQ', throws=False), W('lookup', 'lookup-range', 'bounded', 'valuecomp', 'eff', 'ret', 'num', ops={'lk', 'chk', 'chkh', 'erak'}))
# the node algorithms applied directly: operations no container offers (swap_nodes, replace_node, unlink, splay_up, ...)
def alg(ctx, *ks): return (treealg(ctx, [c for c in TALG if re.match('a(%s)_' % '|'.join(ks), c)]), lambda r, a: True)
def C06(ctx):
    ord_model(ctx)
    ctx.run_all([(tree(ctx, kinds('rb', 'avl'), scripts=ord_scripts(ctx), obs='ETK', throws=False, rnd=400, few=250), W('rb', 'avl', 'shape', 'links')), alg(ctx, 'rb', 'avl')])
def C07(ctx):
    ord_model(ctx)
    ctx.run_all([(tree(ctx, kinds('sg'), scripts=ord_scripts(ctx), obs='ET', rnd=1500, few=1000), W('sg', 'ghost', 'minheight', 'state', 'eff', 'links')), alg(ctx, 'sg')])
def C08(ctx):
    ord_model(ctx)
    ctx.run_all([(tree(ctx, kinds('tr'), scripts=ord_scripts(ctx), obs='ETLK', rnd=800), W('heap', 'heap-autounlink', 'top', 'throw', 'throw-strong', 'strong-range', 'eff', 'ret', 'num', 'link', 'links', 'shape')), alg(ctx, 'tr')])
def C09(ctx):
    ord_model(ctx)
    fam = tree(ctx, kinds('sp'), scripts=ord_scripts(ctx), obs='ETQ', rnd=800)
    ctx.run_all([(fam, lambda r, a: a in ('root', 'eff', 'links', 'throw', 'throw-strong', 'lookup', 'lookup-range', 'bounded') or crash(a)), alg(ctx, 'sp')])
def C10(ctx):
    ord_model(ctx)
    ctx.run_all([(tree(ctx, core(*ALLK) + ['rb_cauto', 'rb_offca', 'avl_auto', 'avl_offc', 'bs_auto', 'sp_auto', 'tr_auto'] + HHT, scripts=ord_scripts(ctx), obs='ETS', throws=False, rnd=300), W('links', 'rev', 'iter', 'end', 'aux', 'eff', 'minheight', 'fwd', 'early')),
                 alg(ctx, 'bs', 'rb', 'avl', 'sg', 'sp', 'tr')])
def hash_model(ctx):
    ctx.model('HashMC.tla', 'HashMC.cfg', 'two hash tables, 3 objects, bucket counts 2, 3, 6, all operations: contract, placement, grouping, search completeness')
    ctx.model('HashMC.tla', 'HashMCIT.cfg' if ctx.tier == 'thorough' else 'HashMCI.cfg', 'the same with incremental rehashing (bucket counts 1, 2, 4, every split): steps, sweeps, doubling')
def hash_scripts(ctx, n=None):
    n = n or (1500 if ctx.tier == 'thorough' else 100)
    return [ctx.generate('HashMC.tla', c + '.cfg', n, 20) for c in ('HashGen', 'HashGenI', 'HashGenF')]
def C11(ctx):
    hash_model(ctx)
    ctx.run_family(hasht(ctx, HASH, scripts=hash_scripts(ctx), obs='ESQ', throws=False), W('eff', 'dup', 'ret', 'num', 'aux', 'fwd', 'group', 'lookup', 'place', 'local', 'iterto', 'localto', 'disp', 'buckets'))
def C12(ctx):
    hash_model(ctx)
    def w(r, a): return REAL(a) or a in ('place', 'group', 'local', 'localto', 'array') or (r['t'] == 'E' and r['o'] in ('rhs', 'frh', 'irg', 'irs', 'irt', 'chrc', 'swap', 'mva', 'dtor') and a in ('eff', 'dup', 'buckets', 'state', 'num', 'fwd', 'iter', 'nh', 'throw')) or (r['t'] == 'Q' and a == 'lookup')
    ctx.run_family(hasht(ctx, HASH, rnd=250, scripts=hash_scripts(ctx)[1:], obs='ESk'), w)
def C13(ctx):
    ctx.model('FastMod.tla', 'FastModT.cfg' if ctx.tier == 'thorough' else 'FastMod.cfg', 'multiplication-based modulo at a scaled word size: exact for every value, and the probed boundary values decide every table entry')
    ctx.model('HashMC.tla', 'HashMCI.cfg', 'linear hashing: every split and step keeps each element in the bucket its hash selects')
    ctx.run_family(num(ctx), lambda r, a: True)
def C22(ctx):
    hash_model(ctx)
    uqh = [c for c in HASH if 'mset' not in c and c not in ('mod_mkc', 'mod_lin', 'mod_automk', 'mod_off', 'inc_lin', 'inc_offm', 'inc_bt', 'inc_st')]
    ctx.run_all([(tree22(ctx), W('eff', 'ret', 'num', 'fc', 'throw-strong', 'links', 'rb', 'avl', 'sg', 'heap', 'twin', 'twin-ret', ops={'chk', 'chkh', 'chc', 'chch', 'insu', 'inuh'})),
                 (hasht(ctx, uqh[::2] if ctx.tier == 'quick' else uqh, scripts=hash_scripts(ctx), obs='EQ'), W('eff', 'ret', 'num', 'fc', 'throw-strong', 'place', 'group', 'buckets', 'state', 'array', 'lookup', ops={'chk', 'chc', 'chrc', 'insu'}))])
def tree22(ctx):
    ord_model(ctx)
    return (tree(ctx, [c for c in core(*ALLK) + ['rb_kov', 'rb_anym', 'avl_kov'] if not c.endswith('mset')], scripts=ord_scripts(ctx)[1:], obs='ETJ', rnd=300, uniq=1200))


# ---------------------------------------------------------------- properties that cut across the container families
LREP = ['list_base_safe', 'list_base_safe_lin', 'list_mem_normal', 'list_mem_auto', 'list_tag', 'list_memb_safe']
SREP = ['slist_circ', 'slist_circ_lin', 'slist_last', 'slist_linear_safe', 'slist_linlast', 'slist_auto']
HREP = ['mod_tab', 'mod_mset', 'mod_mkc', 'mod_linmk', 'p2_set', 'p2_mset', 'inc_tab', 'inc_mset', 'inc_lin', 'fm_tab', 'fm_set']
def cross(ctx, watch, seqc, treec, obs, throws=True, rnd=200, watch_tree=None, scripts=True, hashc=(), states=6, alin=False, btdoc=False, watch_hash=None, extra=()):
    if seqc: seq_model(ctx)
    if treec: ord_model(ctx)
    if hashc: hash_model(ctx)
    pairs = list(extra)
    if seqc: pairs.append((seq(ctx, seqc, rnd=rnd, script=seq_script(ctx) if scripts else None, obs=obs, throws=throws), watch))
    if treec: pairs.append((tree(ctx, treec, rnd=rnd, scripts=ord_scripts(ctx) if scripts else (), obs=obs, throws=throws), watch_tree or watch))
    if hashc: pairs.append((hasht(ctx, hashc, states=states, rnd=rnd // 2, scripts=hash_scripts(ctx, None if ctx.tier == 'thorough' else 40) if scripts else (), obs=obs, throws=throws, alin=alin, btdoc=btdoc), watch_hash or watch))
    ctx.run_all(pairs)
def auto(cs): return [c for c in cs if re.search(r'auto|offa|offca', c)]
DISPOSING = {'era', 'eras', 'erak', 'clr', 'asg', 'unq', 'rmv', 'rmi'}
def D_of(r): o, g = r['o'], r['g']; return 0 if not g else g[0] if o in ('clr', 'asg', 'unq') else g[-1]

def C14(ctx): cross(ctx, W('link', 'early', 'member-unlinked', 'linear-linked', 'pool-linked'), ['list_base_safe', 'list_base_auto', 'list_anyb', 'list_memb_safe', 'slist_circ', 'slist_linsafe', 'slist_last', 'slist_linear_safe', 'slist_mauto', 'slist_anyb', 'list_sts', 'slist_stlast'],
    [k + '_' + x for k in ALLK for x in ('tree', 'set')] + ['rb_cauto', 'rb_anyb', 'avl_auto', 'sp_auto', 'tr_auto', 'rb_sts', 'tr_st'], 'EL', hashc=['mod_tab', 'inc_st', 'mod_mkc', 'p2_auto', 'inc_mset', 'fm_set', 'mod_anyb', 'inc_lin'])
def C15(ctx):
    def w(r, a): return REAL(a) or (r['t'] != 'E' and r['t'] != 'K') or (r['t'] == 'E' and r['o'] in ('unl', 'del', 'dtor') and a != 'copy')
    cross(ctx, w, auto(LIST) + auto(SLIST), auto(TREE), 'ESTL', throws=False, rnd=600, hashc=auto(HASH), states=12, alin=True)
def C16(ctx): cross(ctx, W('size', 'empty', 'early'), LREP + SREP, core(*ALLK) + ['rb_auto', 'avl_off', 'rb_kov'], 'ES', hashc=HREP)
def C17(ctx):
    def w(r, a): return REAL(a) or (r['t'] == 'E' and r['o'] in DISPOSING and D_of(r) > 0 and a in ('disp', 'early', 'aux', 'eff', 'num', 'ret')) or (r['t'] == 'E' and a == 'disp') or (r['t'] == 'K' and a in ('disp', 'early'))
    cross(ctx, w, LREP + SREP, core(*ALLK) + ['rb_auto', 'sp_auto'], 'EK', rnd=300, hashc=HREP)
def C18(ctx):
    def w(r, a): return REAL(a) or r['t'] in 'KSTLBH' or (r['t'] == 'Q' and a == 'lookup')
    cross(ctx, w, LREP + SREP, core(*ALLK) + ['rb_cauto', 'avl_offc'], 'EKST', rnd=100, scripts=False, hashc=HREP + ['mod_kov', 'inc_offm', 'p2_lin'])
def C19(ctx):
    def w(r, a): return REAL(a) or (r['t'] in 'EK' and r['th'] > 0) or (r['t'] in 'STLH' and a != 'linear-linked')
    cross(ctx, w, ['list_base_safe', 'list_mem_normal', 'list_mem_auto', 'slist_circ', 'slist_last', 'slist_linear', 'slist_linlast'], core(*ALLK), 'EKSTL', rnd=400, scripts=False, hashc=HREP + ['inc_set'])
def C20(ctx): cross(ctx, lambda r, a: REAL(a) or r['t'] in 'STH' or (r['t'] == 'E' and (r['o'] in ('swap', 'mva', 'mvc') or a in ('state', 'copied-buckets'))), LREP + SREP + ['list_hh', 'slist_hh', 'slist_hhlast'], core(*ALLK) + ['rb_offc', 'avl_off', 'sg_off'] + HHT, 'EST', throws=False, hashc=HREP + ['mod_bt', 'inc_bt'], btdoc=True)
def C21(ctx): cross(ctx, W('iter', 'end', 'iterto', 'cfe', 'vinit', 'rev', 'fwd', 'prev', 'localto', 'local'), LREP + SREP + ['list_anyb', 'slist_off', 'list_st', 'slist_st', 'slist_stlin'], core(*ALLK) + ['rb_offc', 'rb_anyb', 'rb_st', 'bs_st'], 'ES', throws=False, hashc=HREP + ['mod_st', 'fm_st'])
def C23(ctx): cross(ctx, W('bystander', 'link', 'member-unlinked', 'pool-linked', 'eff'), ['list_tag', 'list_tag2', 'list_base_auto', 'list_mem_off', 'slist_circ', 'slist_mauto', 'slist_linlast'], [k + '_' + x for k in ALLK for x in ('tree', 'mset')] + ['rb_kov', 'rb_tag2', 'rb_offca', 'avl_cauto'], 'EL', hashc=['mod_kov', 'p2_tag2', 'mod_tab', 'inc_mset', 'p2_auto', 'fm_lin'])
ANYTHING = lambda r, a: a != 'crash-constwrite' and a not in ('heap-autounlink', 'strong-range', 'linear-linked')
def C24(ctx):
    ctx.model('AnyMC.tla', 'AnyMC.cfg', 'four objects wandering through containers of five kinds: exclusive membership, order, uniqueness, conservation')
    cross(ctx, ANYTHING, [c for c in LIST + SLIST if 'any' in c], [c for c in TREE if 'any' in c], None, hashc=[c for c in HASH if 'any' in c], extra=[(anyk(ctx), lambda r, a: True)])
def C25(ctx): cross(ctx, ANYTHING, [c for c in LIST + SLIST if 'off' in c], [c for c in TREE if 'off' in c], None, hashc=[c for c in HASH if 'off' in c])
def C26(ctx): cross(ctx, ANYTHING, [c for c in LIST if re.search('tag|memb|fn|der|mvt|triv|base_safe$|hh|_st', c)] + [c for c in SLIST if re.search('der|fn|mauto|hh|_st', c)], [c for c in TREE if re.search('tag|fn|der|mvt|kov|auto|hh|_st', c)], None, hashc=['mod_kov', 'mod_der', 'p2_tag2', 'mod_set', 'mod_linmk', 'p2_auto', 'mod_automk', 'mod_bt', 'inc_bt', 'p2_bt', 'mod_st', 'inc_st', 'fm_st'])
def C27(ctx): cross(ctx, W('cmp'), LREP + SREP, core(*ALLK), 'EC', throws=False, hashc=HREP + ['mod_set', 'inc_set'])
def alg_models(ctx):
    for k in ('cl', 'cs', 'ls'): ctx.model('RingMC.tla', 'RingMC_%s.cfg' % k, 'ring and chain algorithms over 5 nodes: well-formedness; reversal, rotation, exchange, transfer and counting obey their laws')
    ctx.model('TreeAlgoMC.tla', 'TreeAlgoMC.cfg', 'tree link structures over 4 nodes and two headers: insertion, exchange and rotation agree with the sequences denoted')
def C28(ctx):
    alg_models(ctx)
    ctx.run_all([(ring(ctx), lambda r, a: a != 'work'), (treealg(ctx), lambda r, a: True)])
def C29(ctx): cross(ctx, lambda r, a: a == 'crash-constwrite' or a == 'build', LREP + SREP, core(*ALLK) + ['rb_offc', 'rb_kov'], 'ESTQCL', throws=False, rnd=150, scripts=False, hashc=HREP)
def C30(ctx):
    ctx.run_all([(work(ctx), lambda r, a: True), (ring(ctx), lambda r, a: a == 'work')])
def C31(ctx):
    T = ctx.tier == 'thorough'; w = lambda r, a: REAL(a) or (r['t'] == 'X' and a in ('undetected', 'false-alarm', 'linear-linked'))
    seq_model(ctx); ord_model(ctx); hash_model(ctx)
    ctx.run_all([(seq(ctx, [c for c in LIST + SLIST if not re.search('norm|der|mvt|triv|_st', c)] + ['list_mem_normal', 'slist_last_norm'], rnd=120, big=False, obs='EX', throws=False, bfs_profile='112', cap=200 if T else 16), w),
                 (tree(ctx, [c for c in TREE if not re.search('mset|tag2|der|mvt|_st', c)] + ['bs_mset'], bfs='112', rnd=120, big=False, obs='EX', throws=False, cap=200 if T else 16), w),
                 (hasht(ctx, [c for c in HASH if not re.search('tag2|der|mod_mset|fm_mset|_st', c)] + ['mod_mset'], bfs='112', states=8, rnd=120, big=False, obs='EX', throws=False), w)])

def C32(ctx):
    ctx.model('KeyMC.tla', 'KeyMC.cfg', 'keys with several representations: an operation never tells one representation from another')
    ctx.run_all([(hkey(ctx), lambda r, a: True)])

PROPS = {k: v for k, v in globals().items() if k[0] == 'C' and k[1:].isdigit()}
