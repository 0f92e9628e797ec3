// Configurations of the unordered-container driver.
typedef boost::interprocess::offset_ptr<void> OffV;
struct Tag1; struct Tag2;
enum { MOD, P2, INC, FM };
struct HCfg { enum { wrap = 0, safe = 1, autoun = 0, const_size = 1, kov = 0, mode = MOD, lin = 0, store = 0, mk = 0, cmph = 0, hookcopy = 1, reloc = 0, custom = 1, finer = 1, cfi = 1, bigh = 0, copybt = 0, st = 0 }; };
struct PolyBase { int pad0; virtual ~PolyBase() {} PolyBase():pad0(7){} };
template<class H, class V> struct BaseVal : H { typename ByHook<V>::type by; Payload p; VALUE_OPS(BaseVal) };
template<class H, class V> struct PolyVal : PolyBase, H { Payload p; typename ByHook<V>::type by; VALUE_OPS(PolyVal) };
template<class H, class H2, class V> struct TagVal : H2, H { Payload p; typename ByHook<V>::type by; VALUE_OPS(TagVal) };
template<class H, class V> struct MemVal { Payload p; char pad[3]; H h; typename ByHook<V>::type by; VALUE_OPS(MemVal) };
template<class H, class V> struct MemBVal : PolyBase { typename ByHook<V>::type by; Payload p; char big[37]; H h; VALUE_OPS(MemBVal) };
#define BHOOK(H) typedef H HookT; static HookT &hook(T &t) { return static_cast<HookT&>(t); } static const HookT &hook(const T &t) { return static_cast<const HookT&>(t); } static bool is_linked(const T &t) { return hook(t).is_linked(); }
#define MHOOK(H) typedef H HookT; static HookT &hook(T &t) { return t.h; } static const HookT &hook(const T &t) { return t.h; } static bool is_linked(const T &t) { return t.h.is_linked(); }
#define BNORM(H) typedef H HookT; static HookT &hook(T &t) { return static_cast<HookT&>(t); } static const HookT &hook(const T &t) { return static_cast<const HookT&>(t); } static bool is_linked(const T &) { return false; }
#define MNORM(H) typedef H HookT; static HookT &hook(T &t) { return t.h; } static const HookT &hook(const T &t) { return t.h; } static bool is_linked(const T &) { return false; }
#define SIZE(b) bi::constant_time_size<b>
#define FUN bi::hash<Hsh>, bi::equal<Eql>
#define KOV(T) bi::key_of_value<KOf<T> >
#define STO bi::store_hash<true>
#define MKY bi::optimize_multikey<true>
#define PW2 bi::power_2_buckets<true>
#define INCR bi::incremental<true>
#define FMB bi::fastmod_buckets<true>
#define LINB bi::linear_buckets<true>
#define CACHE bi::cache_begin<true>
#define CMPH bi::compare_hash<true>
#define UH bi::unordered_set_base_hook
#define UM bi::unordered_set_member_hook
typedef UH<> H_s; typedef UH<STO> H_st; typedef UH<MKY> H_mk; typedef UH<STO, MKY> H_stmk; typedef UH<bi::link_mode<bi::auto_unlink> > H_a; typedef UH<bi::link_mode<bi::auto_unlink>, STO, MKY> H_astmk;
typedef UH<bi::void_pointer<OffV> > H_o; typedef UH<bi::tag<Tag1>, STO> H_t1; typedef UH<bi::tag<Tag2>, bi::link_mode<bi::normal_link> > H_t2;
typedef UM<> M_s; typedef UM<STO> M_st; typedef UM<MKY> M_mk; typedef UM<STO, MKY> M_stmk; typedef UM<bi::link_mode<bi::normal_link> > M_n; typedef UM<bi::link_mode<bi::normal_link>, STO, MKY> M_nstmk; typedef UM<bi::link_mode<bi::auto_unlink> > M_a; typedef UM<bi::link_mode<bi::auto_unlink>, MKY> M_amk; typedef UM<bi::void_pointer<OffV>, STO, MKY> M_ostmk;
typedef bi::any_base_hook<> AB_s; typedef bi::any_member_hook<> AM_s;
// user-provided bucket traits: an object that hands over its bucket array when moved
template<class BO> struct MyBT { typedef typename bi::unordered_bucket_ptr<BO>::type BP; BP p; unsigned n; void *self;
  MyBT(BP b, std::size_t k) : p(b), n((unsigned)k), self(this) {} MyBT(const MyBT &o) : p(o.p), n(o.n), self(this) {} MyBT(MyBT &&o) : p(o.p), n(o.n), self(this) { o.p = BP(); o.n = 0; }
  MyBT &operator=(const MyBT &o) { p = o.p; n = o.n; return *this; } MyBT &operator=(MyBT &&o) { p = o.p; n = o.n; if (this != &o) { o.p = BP(); o.n = 0; } return *this; }
  BP bucket_begin() const { return p; } std::size_t bucket_count() const { return n; } };
template<class BO> struct DocBT { typedef typename bi::unordered_bucket_ptr<BO>::type BP; BP p; std::size_t n; DocBT(BP b, std::size_t k) : p(b), n(k) {} BP bucket_begin() const { return p; } std::size_t bucket_count() const { return n; } };   // as documented: a plain copyable object
#define BTR(BO) bi::bucket_traits<MyBT<BO> >
#define HC(name) struct name : HCfg
#define BV(H) typedef void *VP; typedef BaseVal<H, VP> T
#define PV(H) typedef void *VP; typedef PolyVal<H, VP> T
#define MV(H) typedef void *VP; typedef MemVal<H, VP> T; typedef bi::member_hook<T, H, &T::h> MO
#define MB(H) typedef void *VP; typedef MemBVal<H, VP> T; typedef bi::member_hook<T, H, &T::h> MO
// ---- modulo
HC(mod_tab) { BV(H_s); typedef bi::hashtable<T, FUN> C; BHOOK(H_s) };
HC(mod_set) { enum { wrap = 1, custom = 0, finer = 0 }; PV(H_s); typedef bi::unordered_set<T> C; BHOOK(H_s) };
HC(mod_mset) { enum { wrap = 2, store = 1, mk = 1, safe = 0, hookcopy = 0, const_size = 0 }; MV(M_nstmk); typedef bi::unordered_multiset<T, MO, FUN, SIZE(false)> C; MNORM(M_nstmk) };
HC(mod_mkc) { enum { wrap = 2, mk = 1 }; BV(H_mk); typedef bi::unordered_multiset<T, FUN, CACHE> C; BHOOK(H_mk) };
HC(mod_lin) { enum { wrap = 2, lin = 1 }; MV(M_s); typedef bi::unordered_multiset<T, MO, FUN, LINB> C; MHOOK(M_s) };
HC(mod_linmk) { enum { lin = 1, mk = 1, store = 1, cmph = 1, const_size = 0 }; MB(M_stmk); typedef bi::hashtable<T, MO, FUN, LINB, CMPH, SIZE(false), CACHE> C; MHOOK(M_stmk) };
HC(mod_auto) { enum { autoun = 1, const_size = 0 }; BV(H_a); typedef bi::hashtable<T, FUN, SIZE(false)> C; BHOOK(H_a) };
HC(mod_automk) { enum { autoun = 1, const_size = 0, store = 1, mk = 1, wrap = 2 }; PV(H_astmk); typedef bi::unordered_multiset<T, FUN, SIZE(false)> C; BHOOK(H_astmk) };
HC(mod_anyb) { BV(AB_s); typedef bi::any_to_unordered_set_hook<bi::base_hook<AB_s> > Opt; typedef bi::hashtable<T, Opt, FUN> C; BHOOK(AB_s) };
HC(mod_off) { enum { reloc = 1, wrap = 2 }; typedef OffV VP; typedef BaseVal<H_o, VP> T; typedef bi::unordered_multiset<T, FUN> C; BHOOK(H_o) };
HC(mod_kov) { enum { wrap = 1, kov = 1, store = 1 }; typedef void *VP; typedef TagVal<H_t1, H_t2, VP> T; typedef bi::unordered_set<T, bi::base_hook<H_t1>, KOV(T), FUN, CACHE, bi::size_type<unsigned short> > C; BHOOK(H_t1) };
struct UNode { UNode *n_; };
template<class Nd> struct UTr { typedef Nd node; typedef Nd *node_ptr; typedef const Nd *const_node_ptr; static node_ptr get_next(const_node_ptr n) { return n->n_; } static void set_next(node_ptr n, node_ptr x) { n->n_ = x; } };
struct UDer : PolyBase, UNode { Payload p; ByHook<void*>::type by; VALUE_OPS(UDer) };
HC(mod_der) { enum { safe = 0, hookcopy = 0 }; typedef void *VP; typedef UDer T; typedef bi::derivation_value_traits<T, UTr<UNode>, bi::normal_link> VT; typedef bi::hashtable<T, bi::value_traits<VT>, FUN> C; BNORM(UNode) };
// ---- power of two
HC(p2_tab) { enum { mode = P2, store = 1, cmph = 1 }; MB(M_st); typedef bi::hashtable<T, MO, FUN, PW2, CMPH> C; MHOOK(M_st) };
HC(p2_set) { enum { mode = P2, wrap = 1 }; BV(H_s); typedef bi::unordered_set<T, FUN, PW2, CACHE> C; BHOOK(H_s) };
HC(p2_mset) { enum { mode = P2, wrap = 2, mk = 1, store = 1, kov = 1 }; BV(H_stmk); typedef bi::unordered_multiset<T, KOV(T), FUN, PW2, CACHE> C; BHOOK(H_stmk) };
HC(p2_lin) { enum { mode = P2, wrap = 1, lin = 1, store = 1 }; BV(H_st); typedef bi::unordered_set<T, FUN, PW2, LINB, CACHE> C; BHOOK(H_st) };
HC(p2_tag2) { enum { mode = P2, safe = 0, hookcopy = 0, kov = 1 }; typedef void *VP; typedef TagVal<H_t1, H_t2, VP> T; typedef bi::hashtable<T, bi::base_hook<H_t2>, KOV(T), FUN, PW2, bi::size_type<unsigned char> > C; BNORM(H_t2) };
HC(p2_auto) { enum { mode = P2, autoun = 1, const_size = 0, mk = 1 }; MV(M_amk); typedef bi::hashtable<T, MO, FUN, SIZE(false), PW2> C; MHOOK(M_amk) };
// ---- incremental
HC(inc_tab) { enum { mode = INC }; BV(H_s); typedef bi::hashtable<T, FUN, INCR> C; BHOOK(H_s) };
HC(inc_set) { enum { mode = INC, wrap = 1, store = 1, const_size = 0 }; MV(M_st); typedef bi::unordered_set<T, MO, FUN, INCR, SIZE(false), CACHE> C; MHOOK(M_st) };
HC(inc_mset) { enum { mode = INC, wrap = 2, mk = 1 }; BV(H_mk); typedef bi::unordered_multiset<T, FUN, INCR, CACHE> C; BHOOK(H_mk) };
HC(inc_lin) { enum { mode = INC, wrap = 2, mk = 1, store = 1, lin = 1, cmph = 1 }; BV(H_stmk); typedef bi::unordered_multiset<T, FUN, INCR, LINB, CMPH, CACHE> C; BHOOK(H_stmk) };
HC(inc_auto) { enum { mode = INC, autoun = 1, const_size = 0 }; MV(M_a); typedef bi::hashtable<T, MO, FUN, SIZE(false), INCR> C; MHOOK(M_a) };
HC(inc_offm) { enum { mode = INC, reloc = 1, wrap = 2, store = 1, mk = 1 }; typedef OffV VP; typedef MemVal<M_ostmk, VP> T; typedef bi::unordered_multiset<T, bi::member_hook<T, M_ostmk, &T::h>, FUN, INCR> C; MHOOK(M_ostmk) };
// ---- fastmod
HC(fm_tab) { enum { mode = FM, bigh = 1 }; BV(H_s); typedef bi::hashtable<T, FUN, FMB> C; BHOOK(H_s) };
HC(fm_set) { enum { mode = FM, wrap = 1, store = 1, bigh = 1 }; BV(H_st); typedef bi::unordered_set<T, FUN, FMB, CACHE> C; BHOOK(H_st) };
HC(fm_mset) { enum { mode = FM, wrap = 2, mk = 1, store = 1, safe = 0, hookcopy = 0, const_size = 0 }; MV(M_nstmk); typedef bi::unordered_multiset<T, MO, FUN, FMB, SIZE(false)> C; MNORM(M_nstmk) };
HC(fm_lin) { enum { mode = FM, lin = 1, mk = 1, bigh = 1 }; MV(M_mk); typedef bi::hashtable<T, MO, FUN, FMB, LINB> C; MHOOK(M_mk) };
HC(fm_anym) { enum { mode = FM, wrap = 1, const_size = 0 }; MV(AM_s); typedef bi::any_to_unordered_set_hook<bi::member_hook<T, AM_s, &T::h> > Opt; typedef bi::unordered_set<T, Opt, FUN, FMB, SIZE(false)> C; MHOOK(AM_s) };
// ---- user-provided bucket traits
HC(mod_bt) { BV(H_s); typedef bi::hashtable<T, FUN, BTR(bi::base_hook<H_s>)> C; BHOOK(H_s) };
HC(inc_bt) { enum { mode = INC, wrap = 2, mk = 1, store = 1 }; MV(M_stmk); typedef bi::unordered_multiset<T, MO, FUN, INCR, BTR(MO)> C; MHOOK(M_stmk) };
HC(p2_bt) { enum { mode = P2, wrap = 1, lin = 1 }; BV(H_s); typedef bi::unordered_set<T, FUN, PW2, LINB, CACHE, BTR(bi::base_hook<H_s>)> C; BHOOK(H_s) };
HC(mod_alin) { enum { autoun = 1, const_size = 0, lin = 1 }; BV(H_a); typedef bi::hashtable<T, FUN, SIZE(false), LINB> C; BHOOK(H_a) };
HC(mod_btdoc) { enum { copybt = 1 }; BV(H_s); typedef bi::hashtable<T, FUN, bi::bucket_traits<DocBT<bi::base_hook<H_s> > > > C; BHOOK(H_s) };
// ---- stateful value traits
template<class H> struct StVal { Payload p; char pad[5]; H h; ByHook<void*>::type by; VALUE_OPS(StVal) };
#define STV(NT) typedef NT::node HN; typedef StVal<HN> T; typedef StTr<T, NT > VT; typedef void *VP; MNORM(HN) static VT vt() { return VT(offsetof(T, h)); }
#define STS(NT) typedef StHook<NT::node, bi::circular_slist_algorithms<NT > > HN; typedef StVal<HN> T; typedef StTr<T, NT, bi::safe_link> VT; typedef void *VP; MHOOK(HN) static VT vt() { return VT(offsetof(T, h)); }
HC(mod_st) { enum { safe = 0, hookcopy = 0, st = 1 }; STV(bi::slist_node_traits<void*>) typedef bi::hashtable<T, bi::value_traits<VT>, FUN> C; };
HC(inc_st) { enum { mode = INC, wrap = 2, hookcopy = 0, st = 1, kov = 1 }; STS(bi::slist_node_traits<void*>) typedef bi::unordered_multiset<T, bi::value_traits<VT>, KOV(T), FUN, INCR, CACHE> C; };
HC(fm_st) { enum { mode = FM, wrap = 1, hookcopy = 0, st = 1, lin = 1, const_size = 0 }; STS(bi::slist_node_traits<void*>) typedef bi::unordered_set<T, bi::value_traits<VT>, FUN, FMB, LINB, SIZE(false)> C; };
