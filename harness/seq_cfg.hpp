// Configurations of the sequence driver: every attachment kind, link mode, size option, pointer type, layout.
typedef boost::interprocess::offset_ptr<void> OffV;
struct DefCfg { enum { is_list = 1, safe = 1, autoun = 0, const_size = 1, cache_last = 0, linear = 0, keep_vptr = 0, incorp = 1, uad = 1, rvclone = 1, hookcopy = 1, swapnodes = 0, reloc = 0, s_to = 1, cfe = 1, st = 0 }; template<class C, class I> static C range(I b, I e) { return C(b, e); } };
struct Tag1; struct Tag2;

// base-hook value: the hook is not the first base, the class is polymorphic
template<class H, class VPt> struct BaseV { };
struct PolyBase { int pad0; virtual ~PolyBase() {} PolyBase():pad0(7){} };
template<class H, class V> struct BaseVal : H { typename ByHook<V>::type by; Payload p; VALUE_OPS(BaseVal) };
template<class H, class V> struct PolyVal : PolyBase, H { Payload p; typename ByHook<V>::type by; VALUE_OPS(PolyVal) };
template<class H, class H2, class V> struct TagVal : H2, H { Payload p; typename ByHook<V>::type by; VALUE_OPS(TagVal) };
template<class H, class V> struct MemVal { Payload p; char pad[3]; H h; typename ByHook<V>::type by; VALUE_OPS(MemVal) };
template<class H> struct MemBase { int q; H h; };
template<class H, class V> struct MemBVal : PolyBase { typename ByHook<V>::type by; Payload p; char big[37]; H h; VALUE_OPS(MemBVal) };

template<class V, class CC> struct BaseCfg : DefCfg { typedef V T; typedef CC C; static C *make(void *m) { return new(m) C; } };
#define BHOOK(H) typedef H HookT; static HookT &hook(T &t) { return static_cast<HookT&>(t); } static const HookT &hook(const T &t) { return static_cast<const HookT&>(t); } static bool is_linked(const T &t) { return hook(t).is_linked(); }
#define MHOOK(H) typedef H HookT; static HookT &hook(T &t) { return t.h; } static const HookT &hook(const T &t) { return t.h; } static bool is_linked(const T &t) { return t.h.is_linked(); }
#define NOLINK(H, get) typedef H HookT; static HookT &hook(T &t) { return get; } static bool is_linked(const T &) { return false; }
#define MAKE static C *make(void *m) { return new(m) C; }

// ---------------------------------------------------------------- list
#define LISTB(name, H, VALT, VPT, COPTS, EXTRA) \
struct name : DefCfg { typedef VPT VP; typedef H Hk; typedef VALT T; typedef bi::list<T, COPTS> C; BHOOK(Hk) MAKE enum { dummy, EXTRA }; };
template<class ...O> struct lbh { typedef bi::list_base_hook<O...> type; };
template<class ...O> struct lmh { typedef bi::list_member_hook<O...> type; };

typedef bi::list_base_hook<> LB_safe; typedef bi::list_base_hook<bi::link_mode<bi::normal_link> > LB_norm; typedef bi::list_base_hook<bi::link_mode<bi::auto_unlink> > LB_auto;
typedef bi::list_base_hook<bi::void_pointer<OffV> > LB_off; typedef bi::list_base_hook<bi::void_pointer<OffV>, bi::link_mode<bi::auto_unlink>, bi::tag<Tag1> > LB_offauto;
typedef bi::list_base_hook<bi::tag<Tag1> > LB_t1; typedef bi::list_base_hook<bi::tag<Tag2>, bi::link_mode<bi::normal_link> > LB_t2;
typedef bi::list_member_hook<> LM_safe; typedef bi::list_member_hook<bi::link_mode<bi::normal_link> > LM_norm; typedef bi::list_member_hook<bi::link_mode<bi::auto_unlink> > LM_auto;
typedef bi::list_member_hook<bi::void_pointer<OffV> > LM_off;
typedef bi::any_base_hook<> AB_safe; typedef bi::any_member_hook<> AM_safe; typedef bi::any_base_hook<bi::void_pointer<OffV>, bi::link_mode<bi::normal_link> > AB_offnorm;

// user-provided header: the end node of the container lives in a node of its own, anywhere in memory
template<class Ptr> class HeapHeader { typedef bi::pointer_traits<Ptr> PT; typedef typename PT::element_type E; Ptr p; public:
  HeapHeader() : p(PT::pointer_to(*new E)) {} ~HeapHeader() { delete &*p; } Ptr get_node() { return p; } typename bi::pointer_rebind<Ptr, const E>::type get_node() const { return p; } };
#define HEAPH(H) bi::header_holder_type<HeapHeader<H::hooktags::node_traits::node_ptr> >
#define SIZE(b) bi::constant_time_size<b>
struct list_base_safe : DefCfg { typedef void *VP; typedef BaseVal<LB_safe, VP> T; typedef bi::list<T> C; BHOOK(LB_safe) MAKE enum { swapnodes = 1 }; };
struct list_base_safe_lin : DefCfg { typedef void *VP; typedef PolyVal<LB_safe, VP> T; typedef bi::list<T, SIZE(false)> C; BHOOK(LB_safe) MAKE enum { swapnodes = 1, const_size = 0 }; };
struct list_mem_normal : DefCfg { typedef void *VP; typedef MemVal<LM_norm, VP> T; typedef bi::list<T, bi::member_hook<T, LM_norm, &T::h> > C; NOLINK(LM_norm, t.h) MAKE enum { safe = 0, swapnodes = 1, hookcopy = 0 }; };
struct list_mem_auto : DefCfg { typedef void *VP; typedef MemVal<LM_auto, VP> T; typedef bi::list<T, bi::member_hook<T, LM_auto, &T::h>, SIZE(false)> C; MHOOK(LM_auto) MAKE enum { autoun = 1, const_size = 0, swapnodes = 1 }; };
struct list_base_auto : DefCfg { typedef void *VP; typedef PolyVal<LB_auto, VP> T; typedef bi::list<T, SIZE(false)> C; BHOOK(LB_auto) MAKE enum { autoun = 1, const_size = 0, swapnodes = 1 }; };
struct list_base_off : DefCfg { typedef OffV VP; typedef BaseVal<LB_off, VP> T; typedef bi::list<T> C; BHOOK(LB_off) MAKE enum { reloc = 1, swapnodes = 1 }; };
struct list_base_offauto : DefCfg { typedef OffV VP; typedef PolyVal<LB_offauto, VP> T; typedef bi::list<T, bi::base_hook<LB_offauto>, SIZE(false)> C; BHOOK(LB_offauto) MAKE enum { reloc = 1, autoun = 1, const_size = 0, swapnodes = 1 }; };
struct list_mem_off : DefCfg { typedef OffV VP; typedef MemVal<LM_off, VP> T; typedef bi::list<T, bi::member_hook<T, LM_off, &T::h>, SIZE(false), bi::size_type<unsigned short> > C; MHOOK(LM_off) MAKE enum { reloc = 1, const_size = 0, swapnodes = 1 }; };
struct list_tag : DefCfg { typedef void *VP; typedef TagVal<LB_t1, LB_t2, VP> T; typedef bi::list<T, bi::base_hook<LB_t1>, bi::size_type<unsigned char> > C; BHOOK(LB_t1) MAKE enum { swapnodes = 1 }; };
struct list_tag2 : DefCfg { typedef void *VP; typedef TagVal<LB_t1, LB_t2, VP> T; typedef bi::list<T, bi::base_hook<LB_t2>, SIZE(false) > C; NOLINK(LB_t2, static_cast<LB_t2&>(t)) MAKE enum { safe = 0, const_size = 0, swapnodes = 1, hookcopy = 0 }; };
struct list_memb_safe : DefCfg { typedef void *VP; typedef MemBVal<LM_safe, VP> T; typedef bi::list<T, bi::member_hook<T, LM_safe, &T::h> > C; MHOOK(LM_safe) MAKE };
struct list_anyb : DefCfg { typedef void *VP; typedef BaseVal<AB_safe, VP> T; typedef bi::any_to_list_hook<bi::base_hook<AB_safe> > Opt; typedef bi::list<T, Opt> C; BHOOK(AB_safe) MAKE };
struct list_anym : DefCfg { typedef void *VP; typedef MemVal<AM_safe, VP> T; typedef bi::any_to_list_hook<bi::member_hook<T, AM_safe, &T::h> > Opt; typedef bi::list<T, Opt, SIZE(false)> C; MHOOK(AM_safe) MAKE enum { const_size = 0 }; };
struct list_anyoff : DefCfg { typedef OffV VP; typedef BaseVal<AB_offnorm, VP> T; typedef bi::any_to_list_hook<bi::base_hook<AB_offnorm> > Opt; typedef bi::list<T, Opt> C; NOLINK(AB_offnorm, static_cast<AB_offnorm&>(t)) MAKE enum { safe = 0, reloc = 1, hookcopy = 0 }; };
struct list_hh : DefCfg { typedef void *VP; typedef BaseVal<LB_safe, VP> T; typedef bi::list<T, HEAPH(LB_safe)> C; BHOOK(LB_safe) MAKE enum { swapnodes = 1, cfe = 0 }; };
struct list_hhoff : DefCfg { typedef OffV VP; typedef MemVal<LM_off, VP> T; typedef bi::list<T, bi::member_hook<T, LM_off, &T::h>, SIZE(false), HEAPH(LM_off)> C; MHOOK(LM_off) MAKE enum { const_size = 0, swapnodes = 1, cfe = 0 }; };
// function hook
template<class V, class H> struct FnHook { typedef H hook_type; typedef hook_type *hook_ptr; typedef const hook_type *const_hook_ptr; typedef V value_type; typedef value_type *pointer; typedef const value_type *const_pointer;
  static hook_ptr to_hook_ptr(value_type &v) { return &v.h; } static const_hook_ptr to_hook_ptr(const value_type &v) { return &v.h; }
  static pointer to_value_ptr(hook_ptr n) { return bi::get_parent_from_member<value_type>(n, &value_type::h); } static const_pointer to_value_ptr(const_hook_ptr n) { return bi::get_parent_from_member<value_type>(n, &value_type::h); } };
struct list_fn : DefCfg { typedef void *VP; typedef MemVal<LM_safe, VP> T; typedef FnHook<T, LM_safe> F; typedef bi::list<T, bi::function_hook<F> > C; MHOOK(LM_safe) MAKE };
// trivial / derivation / member value traits over plain nodes
struct LNode { LNode *nx, *pv; }; struct LNodeTr { typedef LNode node; typedef LNode *node_ptr; typedef const LNode *const_node_ptr;
  static node_ptr get_next(const_node_ptr n) { return n->nx; } static void set_next(node_ptr n, node_ptr x) { n->nx = x; } static node_ptr get_previous(const_node_ptr n) { return n->pv; } static void set_previous(node_ptr n, node_ptr x) { n->pv = x; } };
struct DerVal : PolyBase, LNode { Payload p; ByHook<void*>::type by; VALUE_OPS(DerVal) };
struct list_der : DefCfg { typedef void *VP; typedef DerVal T; typedef bi::derivation_value_traits<T, LNodeTr, bi::normal_link> VT; typedef bi::list<T, bi::value_traits<VT> > C; NOLINK(LNode, static_cast<LNode&>(t)) MAKE enum { safe = 0, hookcopy = 0 }; };
struct MvtVal { Payload p; LNode h; ByHook<void*>::type by; VALUE_OPS(MvtVal) };
struct list_mvt : DefCfg { typedef void *VP; typedef MvtVal T; typedef bi::member_value_traits<T, LNodeTr, &T::h, bi::normal_link> VT; typedef bi::list<T, bi::value_traits<VT>, SIZE(false)> C; NOLINK(LNode, t.h) MAKE enum { safe = 0, const_size = 0, hookcopy = 0 }; };
struct TrivVal; struct TrivTr { typedef TrivVal node; typedef TrivVal *node_ptr; typedef const TrivVal *const_node_ptr; static node_ptr get_next(const_node_ptr n); static void set_next(node_ptr n, node_ptr x); static node_ptr get_previous(const_node_ptr n); static void set_previous(node_ptr n, node_ptr x); };
struct TrivVal { Payload p; LNode *dummy; struct Lk { TrivVal *nx, *pv; } h; ByHook<void*>::type by; VALUE_OPS(TrivVal) };
inline TrivVal *TrivTr::get_next(const TrivVal *n) { return n->h.nx; } inline void TrivTr::set_next(TrivVal *n, TrivVal *x) { n->h.nx = x; } inline TrivVal *TrivTr::get_previous(const TrivVal *n) { return n->h.pv; } inline void TrivTr::set_previous(TrivVal *n, TrivVal *x) { n->h.pv = x; }
struct list_triv : DefCfg { typedef void *VP; typedef TrivVal T; typedef bi::trivial_value_traits<TrivTr, bi::normal_link> VT; typedef bi::list<T, bi::value_traits<VT> > C; NOLINK(TrivVal::Lk, t.h) MAKE enum { safe = 0, hookcopy = 0 }; };
// stateful value traits
#define MAKEST template<class CC, class I> static CC range(I b, I e) { return CC(b, e, vt()); } static VT vt() { return VT(offsetof(T, h)); } static C *make(void *m) { return new(m) C(vt()); }
template<class H> struct StVal { Payload p; char pad[5]; H h; ByHook<void*>::type by; VALUE_OPS(StVal) };
#define STV(NT) typedef bi::NT<void*>::node HN; typedef StVal<HN> T; typedef StTr<T, bi::NT<void*> > VT; typedef void *VP; NOLINK(HN, t.h)
#define STS(NT, AL) typedef StHook<bi::NT<void*>::node, bi::AL<bi::NT<void*> > > HN; typedef StVal<HN> T; typedef StTr<T, bi::NT<void*>, bi::safe_link> VT; typedef void *VP; MHOOK(HN)
struct list_st : DefCfg { STV(list_node_traits) typedef bi::list<T, bi::value_traits<VT> > C; MAKEST enum { safe = 0, hookcopy = 0, st = 1, s_to = 0 }; };
struct list_sts : DefCfg { STS(list_node_traits, circular_list_algorithms) typedef bi::list<T, bi::value_traits<VT>, SIZE(false)> C; MAKEST enum { const_size = 0, hookcopy = 0, st = 1, s_to = 0 }; };

// ---------------------------------------------------------------- slist
typedef bi::slist_base_hook<> SB_safe; typedef bi::slist_base_hook<bi::link_mode<bi::normal_link> > SB_norm; typedef bi::slist_base_hook<bi::link_mode<bi::auto_unlink> > SB_auto; typedef bi::slist_base_hook<bi::void_pointer<OffV> > SB_off;
typedef bi::slist_member_hook<> SM_safe; typedef bi::slist_member_hook<bi::link_mode<bi::normal_link> > SM_norm; typedef bi::slist_member_hook<bi::link_mode<bi::auto_unlink> > SM_auto; typedef bi::slist_member_hook<bi::void_pointer<OffV>, bi::link_mode<bi::normal_link> > SM_offnorm;
#define LAST(b) bi::cache_last<b>
#define LINEAR(b) bi::linear<b>
struct slist_circ : DefCfg { typedef void *VP; typedef BaseVal<SB_safe, VP> T; typedef bi::slist<T> C; BHOOK(SB_safe) MAKE enum { is_list = 0, swapnodes = 1 }; };
struct slist_circ_lin : DefCfg { typedef void *VP; typedef MemVal<SM_safe, VP> T; typedef bi::slist<T, bi::member_hook<T, SM_safe, &T::h>, SIZE(false)> C; MHOOK(SM_safe) MAKE enum { is_list = 0, const_size = 0, swapnodes = 1 }; };
struct slist_last : DefCfg { typedef void *VP; typedef BaseVal<SB_safe, VP> T; typedef bi::slist<T, LAST(true)> C; BHOOK(SB_safe) MAKE enum { is_list = 0, cache_last = 1 }; };
struct slist_last_norm : DefCfg { typedef void *VP; typedef MemVal<SM_norm, VP> T; typedef bi::slist<T, bi::member_hook<T, SM_norm, &T::h>, LAST(true), SIZE(false)> C; NOLINK(SM_norm, t.h) MAKE enum { is_list = 0, cache_last = 1, const_size = 0, safe = 0, hookcopy = 0 }; };
struct slist_linear : DefCfg { typedef void *VP; typedef BaseVal<SB_norm, VP> T; typedef bi::slist<T, LINEAR(true)> C; NOLINK(SB_norm, static_cast<SB_norm&>(t)) MAKE enum { is_list = 0, linear = 1, safe = 0, hookcopy = 0, cfe = 0 }; };
struct slist_linear_safe : DefCfg { typedef void *VP; typedef MemVal<SM_norm, VP> T; typedef bi::slist<T, bi::member_hook<T, SM_norm, &T::h>, LINEAR(true), SIZE(false)> C; NOLINK(SM_norm, t.h) MAKE enum { is_list = 0, linear = 1, const_size = 0, safe = 0, hookcopy = 0, cfe = 0 }; };
struct slist_linsafe : DefCfg { typedef void *VP; typedef BaseVal<SB_safe, VP> T; typedef bi::slist<T, LINEAR(true), LAST(true)> C; BHOOK(SB_safe) MAKE enum { is_list = 0, linear = 1, cache_last = 1, cfe = 0 }; };
struct slist_linlast : DefCfg { typedef void *VP; typedef BaseVal<SB_norm, VP> T; typedef bi::slist<T, LINEAR(true), LAST(true)> C; NOLINK(SB_norm, static_cast<SB_norm&>(t)) MAKE enum { is_list = 0, linear = 1, cache_last = 1, safe = 0, hookcopy = 0, cfe = 0 }; };
struct slist_linlast_lin : DefCfg { typedef void *VP; typedef BaseVal<SB_norm, VP> T; typedef bi::slist<T, LINEAR(true), LAST(true), SIZE(false)> C; NOLINK(SB_norm, static_cast<SB_norm&>(t)) MAKE enum { is_list = 0, linear = 1, cache_last = 1, const_size = 0, safe = 0, hookcopy = 0, cfe = 0 }; };
struct slist_auto : DefCfg { typedef void *VP; typedef BaseVal<SB_auto, VP> T; typedef bi::slist<T, SIZE(false)> C; BHOOK(SB_auto) MAKE enum { is_list = 0, autoun = 1, const_size = 0, swapnodes = 1 }; };
struct slist_mauto : DefCfg { typedef void *VP; typedef MemVal<SM_auto, VP> T; typedef bi::slist<T, bi::member_hook<T, SM_auto, &T::h>, SIZE(false)> C; MHOOK(SM_auto) MAKE enum { is_list = 0, autoun = 1, const_size = 0, swapnodes = 1 }; };
struct slist_off : DefCfg { typedef OffV VP; typedef BaseVal<SB_off, VP> T; typedef bi::slist<T, LAST(true)> C; BHOOK(SB_off) MAKE enum { is_list = 0, cache_last = 1, reloc = 1 }; };
struct slist_offlin : DefCfg { typedef OffV VP; typedef MemVal<SM_offnorm, VP> T; typedef bi::slist<T, bi::member_hook<T, SM_offnorm, &T::h>, LINEAR(true)> C; NOLINK(SM_offnorm, t.h) MAKE enum { is_list = 0, linear = 1, safe = 0, reloc = 1, hookcopy = 0, cfe = 0 }; };
struct slist_offcirc : DefCfg { typedef OffV VP; typedef BaseVal<SB_off, VP> T; typedef bi::slist<T, SIZE(false), bi::size_type<unsigned short> > C; BHOOK(SB_off) MAKE enum { is_list = 0, const_size = 0, reloc = 1, swapnodes = 1 }; };
struct slist_hh : DefCfg { typedef void *VP; typedef BaseVal<SB_safe, VP> T; typedef bi::slist<T, HEAPH(SB_safe)> C; BHOOK(SB_safe) MAKE enum { is_list = 0, swapnodes = 1, cfe = 0 }; };
struct slist_hhlast : DefCfg { typedef void *VP; typedef MemVal<SM_norm, VP> T; typedef bi::slist<T, bi::member_hook<T, SM_norm, &T::h>, LAST(true), SIZE(false), HEAPH(SM_norm)> C; NOLINK(SM_norm, t.h) MAKE enum { is_list = 0, cache_last = 1, const_size = 0, safe = 0, hookcopy = 0, cfe = 0 }; };
struct slist_anyb : DefCfg { typedef void *VP; typedef BaseVal<AB_safe, VP> T; typedef bi::any_to_slist_hook<bi::base_hook<AB_safe> > Opt; typedef bi::slist<T, Opt> C; BHOOK(AB_safe) MAKE enum { is_list = 0 }; };
struct slist_anym_last : DefCfg { typedef void *VP; typedef MemVal<AM_safe, VP> T; typedef bi::any_to_slist_hook<bi::member_hook<T, AM_safe, &T::h> > Opt; typedef bi::slist<T, Opt, LAST(true)> C; MHOOK(AM_safe) MAKE enum { is_list = 0, cache_last = 1 }; };
struct SNode { SNode *nx; }; struct SNodeTr { typedef SNode node; typedef SNode *node_ptr; typedef const SNode *const_node_ptr; static node_ptr get_next(const_node_ptr n) { return n->nx; } static void set_next(node_ptr n, node_ptr x) { n->nx = x; } };
struct SDerVal : PolyBase, SNode { Payload p; ByHook<void*>::type by; VALUE_OPS(SDerVal) };
struct slist_der : DefCfg { typedef void *VP; typedef SDerVal T; typedef bi::derivation_value_traits<T, SNodeTr, bi::normal_link> VT; typedef bi::slist<T, bi::value_traits<VT>, LAST(true) > C; NOLINK(SNode, static_cast<SNode&>(t)) MAKE enum { is_list = 0, cache_last = 1, safe = 0, hookcopy = 0 }; };
typedef bi::slist_member_hook<bi::link_mode<bi::safe_link> > SM_s2;
struct slist_fn : DefCfg { typedef void *VP; typedef MemVal<SM_s2, VP> T; typedef FnHook<T, SM_s2> F; typedef bi::slist<T, bi::function_hook<F> > C; MHOOK(SM_s2) MAKE enum { is_list = 0 }; };
struct slist_st : DefCfg { STV(slist_node_traits) typedef bi::slist<T, bi::value_traits<VT>, SIZE(false)> C; MAKEST enum { is_list = 0, const_size = 0, safe = 0, hookcopy = 0, st = 1, s_to = 0 }; };
struct slist_stlast : DefCfg { STS(slist_node_traits, circular_slist_algorithms) typedef bi::slist<T, bi::value_traits<VT>, LAST(true)> C; MAKEST enum { is_list = 0, cache_last = 1, hookcopy = 0, st = 1, s_to = 0 }; };
struct slist_stlin : DefCfg { STV(slist_node_traits) typedef bi::slist<T, bi::value_traits<VT>, LINEAR(true), LAST(true)> C; MAKEST enum { is_list = 0, linear = 1, cache_last = 1, safe = 0, hookcopy = 0, st = 1, s_to = 0, cfe = 0 }; };
