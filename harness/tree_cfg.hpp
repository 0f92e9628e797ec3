// Configurations of the ordered-container driver.
typedef boost::interprocess::offset_ptr<void> OffV;
struct Tag1; struct Tag2;
struct TCfg { enum { wrap = 0, safe = 1, autoun = 0, const_size = 1, greater = 0, kov = 0, pov = 0, fp = 1, hookcopy = 1, swapnodes = 1, reloc = 0, rmnode = 0, cfi = 1, merge2 = 0, merge3 = 0, st = 0 }; };
struct PolyBase { int pad0; virtual ~PolyBase() {} PolyBase():pad0(7){} };
template<class H, class V> struct BaseVal : H { typename ByHook<V>::type by; Payload p; VALUE_OPS(BaseVal) };
template<class H, class V> struct PolyVal : PolyBase, H { Payload p; typename ByHook<V>::type by; VALUE_OPS(PolyVal) };
template<class H, class H2, class V> struct TagVal : H2, H { Payload p; typename ByHook<V>::type by; VALUE_OPS(TagVal) };
template<class H, class V> struct MemVal { Payload p; char pad[3]; H h; typename ByHook<V>::type by; VALUE_OPS(MemVal) };
template<class H, class V> struct MemBVal : PolyBase { typename ByHook<V>::type by; Payload p; char big[37]; H h; VALUE_OPS(MemBVal) };
#define BHOOK(H) typedef H HookT; static HookT &hook(T &t) { return static_cast<HookT&>(t); } static const HookT &hook(const T &t) { return static_cast<const HookT&>(t); } static bool is_linked(const T &t) { return hook(t).is_linked(); }
#define MHOOK(H) typedef H HookT; static HookT &hook(T &t) { return t.h; } static const HookT &hook(const T &t) { return t.h; } static bool is_linked(const T &t) { return t.h.is_linked(); }
#define BNORM(H) typedef H HookT; static HookT &hook(T &t) { return static_cast<HookT&>(t); } static const HookT &hook(const T &t) { return static_cast<const HookT&>(t); } static bool is_linked(const T &) { return false; }
#define MNORM(H) typedef H HookT; static HookT &hook(T &t) { return t.h; } static const HookT &hook(const T &t) { return t.h; } static bool is_linked(const T &) { return false; }
#define MK0 static C *make(void *m, int) { return new(m) C; }
#define MKT static C *make(void *m, int w) { return new(m) C(KCmp<greater>(w)); }                      // stateful comparator
#define MKP static C *make(void *m, int w) { return new(m) C(KCmp<greater>(w), PCmp(w * 10)); }
#define RG0 template<class I> static C range(bool u, I b, I e) { return C(u, b, e); }
#define RG1 template<class I> static C range(bool, I b, I e) { return C(b, e); }
#define RGT0 template<class I> static C range(bool u, I b, I e) { return C(u, b, e, KCmp<greater>(0)); }
#define SIZE(b) bi::constant_time_size<b>
#define OPT(b) bi::optimize_size<b>
#define CMP(g) bi::compare<KCmp<g> >
#define KOV(T) bi::key_of_value<KOf<T> >
#define POV(T) bi::priority_of_value<POf<T> >
#define NOC2 typedef void C2; typedef void C3;
template<class ...O> struct Lst {};

// hooks
typedef bi::set_base_hook<> RB_s; typedef bi::set_base_hook<OPT(true)> RB_sc; typedef bi::set_member_hook<bi::link_mode<bi::normal_link> > RM_n; typedef bi::set_base_hook<bi::link_mode<bi::auto_unlink> > RB_a;
typedef bi::set_member_hook<bi::link_mode<bi::auto_unlink>, OPT(true) > RM_ac; typedef bi::set_base_hook<bi::void_pointer<OffV> > RB_o; typedef bi::set_member_hook<bi::void_pointer<OffV>, OPT(true)> RM_oc;
typedef bi::set_base_hook<bi::void_pointer<OffV>, OPT(true), bi::link_mode<bi::auto_unlink> > RB_oca;
typedef bi::set_base_hook<bi::tag<Tag1> > RB_t1; typedef bi::set_base_hook<bi::tag<Tag2>, bi::link_mode<bi::normal_link> > RB_t2;
typedef bi::any_base_hook<> AB_s; typedef bi::any_member_hook<> AM_s;
typedef bi::avl_set_base_hook<> VB_s; typedef bi::avl_set_base_hook<OPT(true)> VB_sc; typedef bi::avl_set_member_hook<bi::link_mode<bi::normal_link> > VM_n; typedef bi::avl_set_member_hook<> VM_s; typedef bi::avl_set_base_hook<bi::link_mode<bi::auto_unlink> > VB_a; typedef bi::avl_set_member_hook<bi::link_mode<bi::auto_unlink>, OPT(true)> VM_ac; typedef bi::avl_set_base_hook<bi::void_pointer<OffV>, OPT(true)> VB_oc; typedef bi::avl_set_base_hook<bi::void_pointer<OffV> > VB_o;
typedef bi::bs_set_base_hook<> BB_s; typedef bi::bs_set_member_hook<> BM_s; typedef bi::bs_set_member_hook<bi::link_mode<bi::normal_link> > BM_n; typedef bi::bs_set_base_hook<bi::link_mode<bi::auto_unlink> > BB_a; typedef bi::bs_set_base_hook<bi::void_pointer<OffV> > BB_o; typedef bi::bs_set_member_hook<bi::void_pointer<OffV>, bi::link_mode<bi::normal_link> > BM_on; typedef bi::bs_set_member_hook<bi::link_mode<bi::auto_unlink> > BM_a;

// user-provided header: the end node of the container lives in a node of its own, anywhere in memory
template<class Ptr> class HeapHeader { typedef bi::pointer_traits<Ptr> PT; typedef typename PT::element_type E; Ptr p; public:
  HeapHeader() : p(PT::pointer_to(*new E)) {} ~HeapHeader() { delete &*p; } Ptr get_node() { return p; } typename bi::pointer_rebind<Ptr, const E>::type get_node() const { return p; } };
#define HEAPH(H) bi::header_holder_type<HeapHeader<H::hooktags::node_traits::node_ptr> >
#define TC(name) struct name : TCfg
// ---------------------------------------------------------------- red-black
TC(rb_tree) { enum { kind = RB, rmnode = 0, merge2 = 1 }; typedef void *VP; typedef BaseVal<RB_s, VP> T; typedef bi::rbtree<T, CMP(false)> C; typedef bi::rbtree<T, CMP(true)> C2; typedef void C3; BHOOK(RB_s) MKT RGT0 };
TC(rb_set) { enum { kind = RB, wrap = 1, merge2 = 1, merge3 = 1 }; typedef void *VP; typedef PolyVal<RB_sc, VP> T; typedef bi::set<T> C; typedef bi::set<T, CMP(true)> C2; typedef bi::multiset<T> C3; BHOOK(RB_sc) MK0 RG1 };
TC(rb_mset) { enum { kind = RB, wrap = 2, safe = 0, greater = 1, hookcopy = 0, const_size = 0, rmnode = 1, merge2 = 1, merge3 = 1 }; typedef void *VP; typedef MemVal<RM_n, VP> T; typedef bi::member_hook<T, RM_n, &T::h> MO; typedef bi::multiset<T, MO, CMP(true), SIZE(false)> C; typedef bi::multiset<T, MO, CMP(false), SIZE(false)> C2; typedef bi::set<T, MO, CMP(true), SIZE(false)> C3; MNORM(RM_n) MK0 RG1 };
TC(rb_auto) { enum { kind = RB, autoun = 1, const_size = 0, rmnode = 1 }; typedef void *VP; typedef BaseVal<RB_a, VP> T; typedef bi::rbtree<T, SIZE(false)> C; NOC2 BHOOK(RB_a) MK0 RG0 };
TC(rb_cauto) { enum { kind = RB, wrap = 2, autoun = 1, const_size = 0, rmnode = 1 }; typedef void *VP; typedef MemVal<RM_ac, VP> T; typedef bi::multiset<T, bi::member_hook<T, RM_ac, &T::h>, SIZE(false)> C; NOC2 MHOOK(RM_ac) MK0 RG1 };
TC(rb_off) { enum { kind = RB, reloc = 1 }; typedef OffV VP; typedef BaseVal<RB_o, VP> T; typedef bi::rbtree<T> C; NOC2 BHOOK(RB_o) MK0 RG0 };
TC(rb_offc) { enum { kind = RB, wrap = 2, reloc = 1 }; typedef OffV VP; typedef MemVal<RM_oc, VP> T; typedef bi::multiset<T, bi::member_hook<T, RM_oc, &T::h>, bi::size_type<unsigned short> > C; NOC2 MHOOK(RM_oc) MK0 RG1 };
TC(rb_offca) { enum { kind = RB, autoun = 1, const_size = 0, reloc = 1, rmnode = 1 }; typedef OffV VP; typedef PolyVal<RB_oca, VP> T; typedef bi::rbtree<T, SIZE(false)> C; NOC2 BHOOK(RB_oca) MK0 RG0 };
TC(rb_anyb) { enum { kind = RB, swapnodes = 0 }; typedef void *VP; typedef BaseVal<AB_s, VP> T; typedef bi::any_to_set_hook<bi::base_hook<AB_s> > Opt; typedef bi::rbtree<T, Opt> C; NOC2 BHOOK(AB_s) MK0 RG0 };
TC(rb_anym) { enum { kind = RB, wrap = 1, swapnodes = 0, const_size = 0, rmnode = 1 }; typedef void *VP; typedef MemVal<AM_s, VP> T; typedef bi::any_to_set_hook<bi::member_hook<T, AM_s, &T::h> > Opt; typedef bi::set<T, Opt, SIZE(false)> C; NOC2 MHOOK(AM_s) MK0 RG1 };
TC(rb_kov) { enum { kind = RB, wrap = 1, kov = 1 }; typedef void *VP; typedef TagVal<RB_t1, RB_t2, VP> T; typedef bi::set<T, bi::base_hook<RB_t1>, KOV(T), CMP(false), bi::size_type<unsigned char> > C; NOC2 BHOOK(RB_t1) MK0 RG1 };
TC(rb_tag2) { enum { kind = RB, safe = 0, kov = 1, greater = 1, hookcopy = 0 }; typedef void *VP; typedef TagVal<RB_t1, RB_t2, VP> T; typedef bi::rbtree<T, bi::base_hook<RB_t2>, KOV(T), CMP(true) > C; NOC2 BNORM(RB_t2) MKT RGT0 };
struct RNode { RNode *p_, *l_, *r_; int c_; };
template<class Nd> struct RTr { typedef Nd node; typedef Nd *node_ptr; typedef const Nd *const_node_ptr; typedef int color;
  static node_ptr get_parent(const_node_ptr n) { return n->p_; } static void set_parent(node_ptr n, node_ptr x) { n->p_ = x; } static node_ptr get_left(const_node_ptr n) { return n->l_; } static void set_left(node_ptr n, node_ptr x) { n->l_ = x; } static node_ptr get_right(const_node_ptr n) { return n->r_; } static void set_right(node_ptr n, node_ptr x) { n->r_ = x; }
  static color get_color(const_node_ptr n) { return n->c_; } static void set_color(node_ptr n, color c) { n->c_ = c; } static color black() { return 11; } static color red() { return 22; } };
struct RDer : PolyBase, RNode { Payload p; ByHook<void*>::type by; VALUE_OPS(RDer) };
TC(rb_der) { enum { kind = RB, safe = 0, hookcopy = 0, swapnodes = 0, merge2 = 0, merge3 = 1 }; typedef void *VP; typedef RDer T; typedef bi::derivation_value_traits<T, RTr<RNode>, bi::normal_link> VT; typedef bi::rbtree<T, bi::value_traits<VT> > C; NOC2 BNORM(RNode) MK0 RG0 };
struct RMvt { Payload p; RNode h; ByHook<void*>::type by; VALUE_OPS(RMvt) };
TC(rb_mvt) { enum { kind = RB, wrap = 2, safe = 0, hookcopy = 0, swapnodes = 0 }; typedef void *VP; typedef RMvt T; typedef bi::member_value_traits<T, RTr<RNode>, &T::h, bi::normal_link> VT; typedef bi::multiset<T, bi::value_traits<VT> > C; NOC2 MNORM(RNode) MK0 RG1 };
template<class V, class H> struct FnHook { typedef H hook_type; typedef hook_type *hook_ptr; typedef const hook_type *const_hook_ptr; typedef V value_type; typedef value_type *pointer; typedef const value_type *const_pointer;
  static hook_ptr to_hook_ptr(value_type &v) { return &v.h; } static const_hook_ptr to_hook_ptr(const value_type &v) { return &v.h; }
  static pointer to_value_ptr(hook_ptr n) { return bi::get_parent_from_member<value_type>(n, &value_type::h); } static const_pointer to_value_ptr(const_hook_ptr n) { return bi::get_parent_from_member<value_type>(n, &value_type::h); } };
typedef bi::set_member_hook<> RM_s;
TC(rb_fn) { enum { kind = RB }; typedef void *VP; typedef MemBVal<RM_s, VP> T; typedef FnHook<T, RM_s> F; typedef bi::rbtree<T, bi::function_hook<F> > C; NOC2 MHOOK(RM_s) MK0 RG0 };
// ---------------------------------------------------------------- AVL
TC(avl_tree) { enum { kind = AVL, merge2 = 1 }; typedef void *VP; typedef BaseVal<VB_s, VP> T; typedef bi::avltree<T, CMP(false)> C; typedef bi::avltree<T, CMP(true)> C2; typedef void C3; BHOOK(VB_s) MKT RGT0 };
TC(avl_set) { enum { kind = AVL, wrap = 1, merge2 = 1, merge3 = 1 }; typedef void *VP; typedef PolyVal<VB_sc, VP> T; typedef bi::avl_set<T> C; typedef bi::avl_set<T, CMP(true)> C2; typedef bi::avl_multiset<T> C3; BHOOK(VB_sc) MK0 RG1 };
TC(avl_mset) { enum { kind = AVL, wrap = 2, safe = 0, hookcopy = 0, const_size = 0, greater = 1, rmnode = 1, merge2 = 1, merge3 = 1 }; typedef void *VP; typedef MemVal<VM_n, VP> T; typedef bi::member_hook<T, VM_n, &T::h> MO; typedef bi::avl_multiset<T, MO, CMP(true), SIZE(false)> C; typedef bi::avl_multiset<T, MO, CMP(false), SIZE(false)> C2; typedef bi::avl_set<T, MO, CMP(true), SIZE(false)> C3; MNORM(VM_n) MK0 RG1 };
TC(avl_auto) { enum { kind = AVL, autoun = 1, const_size = 0, rmnode = 1 }; typedef void *VP; typedef BaseVal<VB_a, VP> T; typedef bi::avltree<T, SIZE(false)> C; NOC2 BHOOK(VB_a) MK0 RG0 };
TC(avl_cauto) { enum { kind = AVL, wrap = 2, autoun = 1, const_size = 0, rmnode = 1 }; typedef void *VP; typedef MemBVal<VM_ac, VP> T; typedef bi::avl_multiset<T, bi::member_hook<T, VM_ac, &T::h>, SIZE(false)> C; NOC2 MHOOK(VM_ac) MK0 RG1 };
TC(avl_offc) { enum { kind = AVL, reloc = 1 }; typedef OffV VP; typedef BaseVal<VB_oc, VP> T; typedef bi::avltree<T> C; NOC2 BHOOK(VB_oc) MK0 RG0 };
TC(avl_off) { enum { kind = AVL, wrap = 1, reloc = 1, const_size = 0, rmnode = 1 }; typedef OffV VP; typedef PolyVal<VB_o, VP> T; typedef bi::avl_set<T, SIZE(false)> C; NOC2 BHOOK(VB_o) MK0 RG1 };
TC(avl_anyb) { enum { kind = AVL, swapnodes = 0 }; typedef void *VP; typedef BaseVal<AB_s, VP> T; typedef bi::any_to_avl_set_hook<bi::base_hook<AB_s> > Opt; typedef bi::avltree<T, Opt> C; NOC2 BHOOK(AB_s) MK0 RG0 };
TC(avl_kov) { enum { kind = AVL, wrap = 1, kov = 1 }; typedef void *VP; typedef MemVal<VM_s, VP> T; typedef bi::avl_set<T, bi::member_hook<T, VM_s, &T::h>, KOV(T), CMP(false) > C; NOC2 MHOOK(VM_s) MK0 RG1 };
// ---------------------------------------------------------------- plain binary
TC(bs_tree) { enum { kind = BS, merge2 = 1 }; typedef void *VP; typedef BaseVal<BB_s, VP> T; typedef bi::bstree<T, CMP(false)> C; typedef bi::bstree<T, CMP(true)> C2; typedef void C3; BHOOK(BB_s) MKT RGT0 };
TC(bs_set) { enum { kind = BS, wrap = 1, merge2 = 1, merge3 = 1, kov = 1 }; typedef void *VP; typedef MemVal<BM_s, VP> T; typedef bi::member_hook<T, BM_s, &T::h> MO; typedef bi::bs_set<T, MO, KOV(T), CMP(false)> C; typedef bi::bs_set<T, MO, KOV(T), CMP(true)> C2; typedef bi::bs_multiset<T, MO, KOV(T), CMP(false)> C3; MHOOK(BM_s) MK0 RG1 };
TC(bs_mset) { enum { kind = BS, wrap = 2, safe = 0, hookcopy = 0, const_size = 0, greater = 1, rmnode = 1 }; typedef void *VP; typedef MemVal<BM_n, VP> T; typedef bi::bs_multiset<T, bi::member_hook<T, BM_n, &T::h>, CMP(true), SIZE(false)> C; NOC2 MNORM(BM_n) MK0 RG1 };
TC(bs_auto) { enum { kind = BS, autoun = 1, const_size = 0, rmnode = 1 }; typedef void *VP; typedef BaseVal<BB_a, VP> T; typedef bi::bstree<T, SIZE(false)> C; NOC2 BHOOK(BB_a) MK0 RG0 };
TC(bs_off) { enum { kind = BS, wrap = 2, reloc = 1 }; typedef OffV VP; typedef BaseVal<BB_o, VP> T; typedef bi::bs_multiset<T> C; NOC2 BHOOK(BB_o) MK0 RG1 };
TC(bs_anyb) { enum { kind = BS, swapnodes = 0 }; typedef void *VP; typedef BaseVal<AB_s, VP> T; typedef bi::any_to_bs_set_hook<bi::base_hook<AB_s> > Opt; typedef bi::bstree<T, Opt> C; NOC2 BHOOK(AB_s) MK0 RG0 };
// ---------------------------------------------------------------- scapegoat
TC(sg_tree) { enum { kind = SG, merge2 = 1 }; typedef void *VP; typedef BaseVal<BB_s, VP> T; typedef bi::sgtree<T, CMP(false)> C; typedef bi::sgtree<T, CMP(true)> C2; typedef void C3; BHOOK(BB_s) MKT RGT0 };
TC(sg_set) { enum { kind = SG, wrap = 1, fp = 0, merge2 = 1, merge3 = 1 }; typedef void *VP; typedef PolyVal<BB_s, VP> T; typedef bi::sg_set<T, bi::floating_point<false> > C; typedef bi::sg_set<T, CMP(true), bi::floating_point<false> > C2; typedef bi::sg_multiset<T, bi::floating_point<false> > C3; BHOOK(BB_s) MK0 RG1 };
TC(sg_mset) { enum { kind = SG, wrap = 2, safe = 0, hookcopy = 0, greater = 1, kov = 1 }; typedef void *VP; typedef MemVal<BM_n, VP> T; typedef bi::sg_multiset<T, bi::member_hook<T, BM_n, &T::h>, KOV(T), CMP(true)> C; NOC2 MNORM(BM_n) MK0 RG1 };
TC(sg_off) { enum { kind = SG, reloc = 1, fp = 0 }; typedef OffV VP; typedef BaseVal<BB_o, VP> T; typedef bi::sgtree<T, bi::floating_point<false>, bi::size_type<unsigned int> > C; NOC2 BHOOK(BB_o) MK0 RG0 };
TC(sg_anyb) { enum { kind = SG, swapnodes = 0, wrap = 2 }; typedef void *VP; typedef BaseVal<AB_s, VP> T; typedef bi::any_to_bs_set_hook<bi::base_hook<AB_s> > Opt; typedef bi::sg_multiset<T, Opt> C; NOC2 BHOOK(AB_s) MK0 RG1 };
// ---------------------------------------------------------------- splay
TC(sp_tree) { enum { kind = SP, merge2 = 1 }; typedef void *VP; typedef BaseVal<BB_s, VP> T; typedef bi::splaytree<T, CMP(false)> C; typedef bi::splaytree<T, CMP(true)> C2; typedef void C3; BHOOK(BB_s) MKT RGT0 };
TC(sp_set) { enum { kind = SP, wrap = 1, merge2 = 1, merge3 = 1, kov = 1 }; typedef void *VP; typedef PolyVal<BB_s, VP> T; typedef bi::splay_set<T, KOV(T), CMP(false)> C; typedef bi::splay_set<T, KOV(T), CMP(true)> C2; typedef bi::splay_multiset<T, KOV(T), CMP(false)> C3; BHOOK(BB_s) MK0 RG1 };
TC(sp_mset) { enum { kind = SP, wrap = 2, safe = 0, hookcopy = 0, const_size = 0, greater = 1, rmnode = 1 }; typedef void *VP; typedef MemVal<BM_n, VP> T; typedef bi::splay_multiset<T, bi::member_hook<T, BM_n, &T::h>, CMP(true), SIZE(false)> C; NOC2 MNORM(BM_n) MK0 RG1 };
TC(sp_auto) { enum { kind = SP, autoun = 1, const_size = 0, rmnode = 1 }; typedef void *VP; typedef BaseVal<BB_a, VP> T; typedef bi::splaytree<T, SIZE(false)> C; NOC2 BHOOK(BB_a) MK0 RG0 };
TC(sp_off) { enum { kind = SP, wrap = 2, reloc = 1 }; typedef OffV VP; typedef BaseVal<BB_o, VP> T; typedef bi::splay_multiset<T> C; NOC2 BHOOK(BB_o) MK0 RG1 };
TC(sp_anyb) { enum { kind = SP, swapnodes = 0, wrap = 1 }; typedef void *VP; typedef BaseVal<AB_s, VP> T; typedef bi::any_to_bs_set_hook<bi::base_hook<AB_s> > Opt; typedef bi::splay_set<T, Opt> C; NOC2 BHOOK(AB_s) MK0 RG1 };
// ---------------------------------------------------------------- treap
TC(tr_tree) { enum { kind = TR, merge2 = 1 }; typedef void *VP; typedef BaseVal<BB_s, VP> T; typedef bi::treap<T, CMP(false), bi::priority<PCmp> > C; typedef bi::treap<T, CMP(true), bi::priority<PCmp> > C2; typedef void C3; BHOOK(BB_s) MKP RGT0 };
TC(tr_set) { enum { kind = TR, wrap = 1, merge2 = 1, merge3 = 1 }; typedef void *VP; typedef PolyVal<BB_s, VP> T; typedef bi::treap_set<T> C; typedef bi::treap_set<T, CMP(true)> C2; typedef bi::treap_multiset<T> C3; BHOOK(BB_s) MK0 RG1 };
TC(tr_mset) { enum { kind = TR, wrap = 2, safe = 0, hookcopy = 0, const_size = 0, greater = 1 }; typedef void *VP; typedef MemVal<BM_n, VP> T; typedef bi::treap_multiset<T, bi::member_hook<T, BM_n, &T::h>, CMP(true), SIZE(false)> C; NOC2 MNORM(BM_n) MK0 RG1 };
TC(tr_auto) { enum { kind = TR, autoun = 1, const_size = 0 }; typedef void *VP; typedef MemVal<BM_a, VP> T; typedef bi::treap_multiset<T, bi::member_hook<T, BM_a, &T::h>, SIZE(false)> C; enum { wrap = 2 }; NOC2 MHOOK(BM_a) MK0 RG1 };
TC(tr_off) { enum { kind = TR, wrap = 1, reloc = 1, kov = 1, pov = 1 }; typedef OffV VP; typedef BaseVal<BB_o, VP> T; typedef bi::treap_set<T, KOV(T), CMP(false), POV(T), bi::priority<PCmp> > C; NOC2 BHOOK(BB_o) MK0 RG1 };
TC(tr_anyb) { enum { kind = TR, swapnodes = 0 }; typedef void *VP; typedef BaseVal<AB_s, VP> T; typedef bi::any_to_bs_set_hook<bi::base_hook<AB_s> > Opt; typedef bi::treap<T, Opt> C; NOC2 BHOOK(AB_s) MK0 RG0 };
// ---------------------------------------------------------------- stateful value traits
template<class H> struct StVal { Payload p; char pad[5]; H h; ByHook<void*>::type by; VALUE_OPS(StVal) };
#define STV(NT) typedef bi::NT<void*>::node HN; typedef StVal<HN> T; typedef StTr<T, bi::NT<void*> > VT; typedef void *VP; NOC2 MNORM(HN) static VT vt() { return VT(offsetof(T, h)); }
#define STS(NT) typedef StHook<bi::NT<void*>::node, bi::bstree_algorithms<bi::NT<void*> > > HN; typedef StVal<HN> T; typedef StTr<T, bi::NT<void*>, bi::safe_link> VT; typedef void *VP; NOC2 MHOOK(HN) static VT vt() { return VT(offsetof(T, h)); }
#define MKST static C *make(void *m, int) { return new(m) C(C::key_compare(), vt()); }
#define RGS0 template<class I> static C range(bool u, I b, I e) { return C(u, b, e, C::key_compare(), vt()); }
#define RGS1 template<class I> static C range(bool, I b, I e) { return C(b, e, C::key_compare(), vt()); }
TC(rb_st) { enum { kind = RB, st = 1, safe = 0, hookcopy = 0, swapnodes = 0 }; STV(rbtree_node_traits) typedef bi::rbtree<T, bi::value_traits<VT> > C; MKST RGS0 };
TC(rb_sts) { enum { kind = RB, wrap = 2, st = 1, hookcopy = 0, swapnodes = 0 }; STS(rbtree_node_traits) typedef bi::multiset<T, bi::value_traits<VT> > C; MKST RGS1 };
TC(avl_st) { enum { kind = AVL, wrap = 1, st = 1, hookcopy = 0, swapnodes = 0, const_size = 0, kov = 1 }; STS(avltree_node_traits) typedef bi::avl_set<T, bi::value_traits<VT>, KOV(T), CMP(false), SIZE(false)> C; MKST RGS1 };
TC(bs_st) { enum { kind = BS, wrap = 2, st = 1, safe = 0, hookcopy = 0, swapnodes = 0 }; STV(tree_node_traits) typedef bi::bs_multiset<T, bi::value_traits<VT> > C; MKST RGS1 };
TC(sg_st) { enum { kind = SG, st = 1, hookcopy = 0, swapnodes = 0 }; STS(tree_node_traits) typedef bi::sgtree<T, bi::value_traits<VT> > C; MKST RGS0 };
TC(sp_st) { enum { kind = SP, wrap = 1, st = 1, safe = 0, hookcopy = 0, swapnodes = 0 }; STV(tree_node_traits) typedef bi::splay_set<T, bi::value_traits<VT> > C; MKST RGS1 };
TC(tr_st) { enum { kind = TR, st = 1, hookcopy = 0, swapnodes = 0, pov = 1 }; STS(tree_node_traits) typedef bi::treap<T, bi::value_traits<VT>, POV(T), bi::priority<PCmp> > C; static C *make(void *m, int) { return new(m) C(C::key_compare(), PCmp(), vt()); } template<class I> static C range(bool u, I b, I e) { return C(u, b, e, C::key_compare(), PCmp(), vt()); } };
// ---------------------------------------------------------------- user-provided header nodes
TC(rb_hh) { enum { kind = RB, cfi = 0 }; typedef void *VP; typedef BaseVal<RB_sc, VP> T; typedef bi::rbtree<T, HEAPH(RB_sc)> C; NOC2 BHOOK(RB_sc) MK0 RG0 };
TC(rb_hhoff) { enum { kind = RB, cfi = 0, wrap = 2, const_size = 0, rmnode = 1 }; typedef OffV VP; typedef BaseVal<RB_o, VP> T; typedef bi::multiset<T, SIZE(false), HEAPH(RB_o)> C; NOC2 BHOOK(RB_o) MK0 RG1 };
TC(avl_hh) { enum { kind = AVL, cfi = 0, wrap = 2 }; typedef void *VP; typedef MemVal<VM_s, VP> T; typedef bi::avl_multiset<T, bi::member_hook<T, VM_s, &T::h>, HEAPH(VM_s)> C; NOC2 MHOOK(VM_s) MK0 RG1 };
TC(bs_hh) { enum { kind = BS, cfi = 0, wrap = 1 }; typedef void *VP; typedef BaseVal<BB_s, VP> T; typedef bi::bs_set<T, HEAPH(BB_s)> C; NOC2 BHOOK(BB_s) MK0 RG1 };
TC(sg_hh) { enum { kind = SG, cfi = 0 }; typedef void *VP; typedef BaseVal<BB_s, VP> T; typedef bi::sgtree<T, HEAPH(BB_s)> C; NOC2 BHOOK(BB_s) MK0 RG0 };
TC(sp_hh) { enum { kind = SP, cfi = 0, wrap = 2 }; typedef void *VP; typedef BaseVal<BB_s, VP> T; typedef bi::splay_multiset<T, HEAPH(BB_s)> C; NOC2 BHOOK(BB_s) MK0 RG1 };
TC(tr_hh) { enum { kind = TR, cfi = 0, wrap = 1 }; typedef void *VP; typedef BaseVal<BB_s, VP> T; typedef bi::treap_set<T, HEAPH(BB_s)> C; NOC2 BHOOK(BB_s) MK0 RG1 };
