#define TX(nm, KINDN, HOOK, TPL, LM, CS, BAL, SPLAY, XF, OPTS) struct nm { typedef bi::HOOK<bi::void_pointer<CV>, bi::link_mode<bi::LM> > H; typedef Val<H> T; typedef bi::TPL<T, bi::constant_time_size<CS> OPTS> C; enum { kind = 2, nl = bi::LM == bi::normal_link, cs = CS, cl = 0, li = 0, x = XF, bal = BAL, splay = SPLAY }; static const char *name() { return KINDN; } };
TX(wt_rb_ns, "rb", set_base_hook, rbtree, normal_link, true, 1, 0, 0, )
TX(wt_rb_nl, "rb", set_base_hook, rbtree, normal_link, false, 1, 0, 0, )
TX(wt_rb_ss, "rb", set_base_hook, rbtree, safe_link, true, 1, 0, 0, )
TX(wt_avl_ns, "avl", avl_set_base_hook, avltree, normal_link, true, 1, 0, 0, )
TX(wt_avl_al, "avl", avl_set_base_hook, avltree, auto_unlink, false, 1, 0, 0, )
TX(wt_sg_ns, "sg", bs_set_base_hook, sgtree, normal_link, true, 0, 0, 0, )
TX(wt_sg_ff, "sg", bs_set_base_hook, sgtree, safe_link, true, 0, 0, 0, COMMA bi::floating_point<false>)
TX(wt_sp_ns, "sp", bs_set_base_hook, splaytree, normal_link, true, 0, 1, 0, )
TX(wt_sp_sl, "sp", bs_set_base_hook, splaytree, safe_link, false, 0, 1, 0, )
TX(wt_tr_ns, "tr", bs_set_base_hook, treap, normal_link, true, 1, 0, 1, )
TX(wt_tr_sl, "tr", bs_set_base_hook, treap, safe_link, false, 1, 0, 1, )
TX(wt_bs_ns, "bs", bs_set_base_hook, bstree, normal_link, true, 0, 0, 0, )
TX(wt_bs_al, "bs", bs_set_base_hook, bstree, auto_unlink, false, 0, 0, 0, )
// hash tables: x bits 1 store_hash, 2 optimize_multikey, 4 compare_hash, 8 incremental; cl = cache_begin
#define HX(nm, LM, CS, WRAP, ST, MK, CMP, CB, LIN, P2, FMD, INC, EXTRA) struct nm { typedef bi::unordered_set_base_hook<bi::void_pointer<CV>, bi::link_mode<bi::LM>, bi::store_hash<ST>, bi::optimize_multikey<MK> > H; typedef Val<H> T; \
  typedef bi::hashtable<T, bi::constant_time_size<CS>, bi::compare_hash<CMP>, bi::cache_begin<CB>, bi::linear_buckets<LIN> EXTRA> C; enum { kind = 3, nl = bi::LM == bi::normal_link, cs = CS, cl = CB, li = LIN, x = ST + 2 * MK + 4 * CMP + 8 * INC, wrap = WRAP, mk = MK, cmph = CMP, p2 = P2, fm = FMD, inc = INC }; };
HX(wh_mod, safe_link, true, 2, 0, 0, 0, 0, 0, 0, 0, 0, )
HX(wh_modn, normal_link, false, 1, 1, 0, 0, 1, 0, 0, 0, 0, )
HX(wh_mk, safe_link, false, 2, 1, 1, 0, 0, 0, 0, 0, 0, )
HX(wh_mkc, normal_link, true, 2, 0, 1, 0, 1, 1, 0, 0, 0, )
HX(wh_cmp, normal_link, true, 2, 1, 0, 1, 0, 0, 1, 0, 0, COMMA bi::power_2_buckets<true>)
HX(wh_all, safe_link, true, 2, 1, 1, 1, 1, 1, 1, 0, 0, COMMA bi::power_2_buckets<true>)
HX(wh_fm, safe_link, true, 2, 1, 1, 1, 1, 0, 0, 1, 0, COMMA bi::fastmod_buckets<true>)
HX(wh_fmu, normal_link, false, 1, 0, 0, 0, 0, 0, 0, 1, 0, COMMA bi::fastmod_buckets<true>)
HX(wh_inc, safe_link, true, 2, 0, 0, 0, 0, 0, 1, 0, 1, COMMA bi::incremental<true>)
HX(wh_incs, normal_link, true, 2, 1, 1, 1, 1, 0, 1, 0, 1, COMMA bi::incremental<true>)
HX(wh_incu, auto_unlink, false, 1, 1, 0, 0, 0, 0, 1, 0, 1, COMMA bi::incremental<true>)
