// Analysis root: instantiates every public operation of a coroutine pair for one
// payload kind.  It is only compiled to IR for the analyser and never executed;
// the payload P, the callable F, the allocator A and the marker L are opaque
// (declared, never defined), so the analyser sees the library code alone.
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <new>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <cxxabi.h>
#include <boost/coroutine2/all.hpp>

namespace h {

struct P {                       // payload, every operation opaque
    P( P const&);
    P( P &&);
    ~P();
    P & operator=( P const&);
    P & operator=( P &&);
    unsigned char b[24];
};
struct M {                       // move-only payload, not assignable
    M( M const&) = delete;
    M( M &&) noexcept;
    ~M();
    M & operator=( M const&) = delete;
    unsigned char b[8];
};
struct alignas( 128) W {         // over-aligned, large payload
    W( W const&);
    W( W &&);
    ~W();
    unsigned char b[640];
};
struct B {                       // trivially copyable aggregate
    int a[24];
};
struct alignas( 32) Q {          // over-aligned aggregate
    int a[8];
};
struct E final {                 // no data members, final, no assignment
    E( E const&);
    E( E &&);
    ~E();
    E & operator=( E const&) = delete;
};
struct O {                       // hostile operators
    O( O const&) noexcept;
    O( O &&) noexcept;
    ~O();
    void operator&() const = delete;
    void operator,( O const&) const = delete;
    void * b[2];
};
struct N {                       // trivial destructor, everything else opaque
    N( N const&);
    N( N &&);
    ~N() = default;
    int b[3];
};
struct I {                       // greedy constructors
    I( I const&);
    I( I &&);
    I( std::initializer_list< I >);
    ~I();
    void * b;
};
struct G {                       // larger than a page
    G( G const&);
    G( G &&);
    ~G();
    unsigned char b[5000];
};
struct H {                       // polymorphic
    H( H const&);
    H( H &&);
    ~H();
    virtual void v() const;
    int b[2];
};
struct alignas( 1024) K {        // aligned beyond what the context's own bookkeeping asks for
    K( K const&);
    K( K &&);
    ~K();
    unsigned char b[1024];
};
enum class U : unsigned short {};
struct Agg { P p; };              // aggregate that is not trivial: its member is what is followed
template< typename X, bool = std::is_class< X >::value && ! std::is_trivially_copyable< X >::value >
struct letter { static constexpr int value = 0; };
template< typename X > struct letter< X const, true > : letter< X, true > {};
#define LETTER(X) template<> struct letter< X, true > { static constexpr int value = # X[0]; };
LETTER(P) LETTER(M) LETTER(W) LETTER(E) LETTER(O) LETTER(N) LETTER(I) LETTER(G) LETTER(H) LETTER(K)
template<> struct letter< Agg, true > : letter< P, true > {};

#if KIND == 1
using T = P;
#elif KIND == 2
using T = int;
#elif KIND == 3
using T = P &;
#elif KIND == 4
using T = void;
#elif KIND == 5
using T = M;
#elif KIND == 6
using T = W;
#elif KIND == 7
using T = B;
#elif KIND == 8
using T = int const&;
#elif KIND == 9
using T = P *;
#elif KIND == 10
using T = E;
#elif KIND == 11
using T = char;
#elif KIND == 12
using T = int const;
#elif KIND == 13
using T = O;
#elif KIND == 14
using T = Q;
#elif KIND == 15
using T = N;
#elif KIND == 16
using T = I;
#elif KIND == 17
using T = G;
#elif KIND == 18
using T = P const&;
#elif KIND == 19
using T = E &;
#elif KIND == 20
using T = double;
#elif KIND == 21
using T = bool;
#elif KIND == 22
using T = U;
#elif KIND == 23
using T = H;
#elif KIND == 24
using T = K;
#elif KIND == 25
using T = int (&)[4];
#elif KIND == 26
using T = void (*)();
#elif KIND == 27
using T = P const;
#elif KIND == 28
using T = Agg;
#endif
#define IS_VOID (KIND == 4)
#define IS_REF (KIND == 3 || KIND == 8 || KIND == 18 || KIND == 19 || KIND == 25)
#define MOVE_ONLY (KIND == 5)
#define COPY_ONLY_F (KIND == 12)
#if ! IS_VOID
using V = std::remove_reference< T >::type;
constexpr int size_v = sizeof( V);
#else
using V = void;
constexpr int size_v = 0;
#endif

using pull_t = boost::coroutines2::coroutine< T >::pull_type;
using push_t = boost::coroutines2::coroutine< T >::push_type;

#if MAINPULL
using main_t = pull_t; using peer_t = push_t;
#else
using main_t = push_t; using peer_t = pull_t;
#endif

// shapes of the coroutine-function and of the allocator vary with the payload kind
#if KIND == 6 || KIND == 14 || KIND == 16
# define F_STATE alignas( 64) unsigned char state[192];
#elif KIND == 17
# define F_STATE unsigned char state[3000];
#elif KIND == 10 || KIND == 13
# define F_STATE
#else
# define F_STATE void * state;
#endif
#if KIND == 10 || KIND == 11
# define A_STATE
#elif KIND == 7
# define A_STATE unsigned char state[300];
#else
# define A_STATE void * state;
#endif
struct F {                       // coroutine-function
#if KIND == 8 || KIND == 18 || KIND == 26
    F( F const&) noexcept;
#else
    F( F const&);
#endif
#if KIND == 14
    F( F &&);                    // its move may throw
#elif ! COPY_ONLY_F
    F( F &&) noexcept;
#endif
    ~F();
#if KIND == 23
    void operator()( peer_t &) const;
#else
    void operator()( peer_t &);
#endif
#if KIND == 13 || KIND == 16 || KIND == 25
    explicit operator bool() const noexcept;     // says nothing about being callable
    bool operator!() const noexcept;
#endif
    F_STATE
};
struct A {                       // stack allocator
    A( A const&) noexcept;
    A( A &&) noexcept;
    ~A();
    boost::context::stack_context allocate();
    void deallocate( boost::context::stack_context &) noexcept;
    A_STATE
};
struct user_exc { int i; };
struct user_derived : std::exception { int i; };

}

using namespace h;

// type_infos of what the coroutine-function may throw
extern "C" void k_types( int k) {
    switch ( k) {
    case 0: throw user_exc{ 1 };
    case 1: throw 1;
    case 2: throw user_derived{};
    case 3: throw boost::context::detail::forced_unwind{};
    case 4: throw static_cast< char const* >( "x");
    }
}
// forced unwinding of a thread (cancellation)
// named by its symbol: typeid is not there without RTTI
extern char const foreign_type __asm__( "_ZTIN10__cxxabiv115__forced_unwindE");
extern "C" void const* k_foreign() { return & foreign_type; }
extern "C" int const k_size_main = sizeof( main_t);
extern "C" int const k_size_F = sizeof( F);
extern "C" int const k_size_A = sizeof( A);
extern "C" int const k_size_ctx = sizeof( boost::context::stack_context);
extern "C" int const k_size_V = size_v;
extern "C" int const k_obj_type = letter< V >::value;
extern "C" int const k_copy_only_f = COPY_ONLY_F;
extern "C" int const k_move_throws_f = ! std::is_nothrow_move_constructible< F >::value;
extern "C" int const k_is_ref = IS_REF;
extern "C" int const k_is_const = std::is_const< T >::value;
extern "C" int const k_is_void = IS_VOID;
extern "C" int const k_push_l = ! MOVE_ONLY;
extern "C" int const k_push_r = ! IS_REF && ! IS_VOID;
#define TYPE(X) \
extern "C" int const k_ty_ ## X ## _size = sizeof( X); \
extern "C" int const k_ty_ ## X ## _align = alignof( X); \
extern "C" int const k_ty_ ## X ## _trivial = std::is_trivially_destructible< X >::value;
TYPE(P) TYPE(M) TYPE(W) TYPE(E) TYPE(O) TYPE(N) TYPE(I) TYPE(G) TYPE(H) TYPE(K) TYPE(F) TYPE(A)

extern "C" {
// --- handle in the resuming context ------------------------------------------------
void k_ctor( main_t * m, F & f) { ::new ( m) main_t( f); }
void k_ctor_c( main_t * m, F const& f) { ::new ( m) main_t( f); }
void k_ctor_r( main_t * m, F && f) { ::new ( m) main_t( std::move( f) ); }
void k_ctor_al( main_t * m, A & a, F & f) { ::new ( m) main_t( a, f); }
void k_ctor_ar( main_t * m, A && a, F && f) { ::new ( m) main_t( std::move( a), std::move( f) ); }
void k_dtor( main_t * m) { m->~main_t(); }
void k_mctor( main_t * m, main_t & o) { ::new ( m) main_t( std::move( o) ); }
void k_massign( main_t * m, main_t & o) { * m = std::move( o); }
void k_swap( main_t * m, main_t & o) { using std::swap; swap( * m, o); }
bool k_bool( main_t const* m) { return static_cast< bool >( * m); }
bool k_not( main_t const* m) { return ! * m; }
// --- handle passed to the coroutine-function -----------------------------------------
void s_dtor( peer_t * m) { m->~peer_t(); }
void s_mctor( peer_t * m, peer_t & o) { ::new ( m) peer_t( std::move( o) ); }
void s_massign( peer_t * m, peer_t & o) { * m = std::move( o); }
bool s_bool( peer_t const* m) { return static_cast< bool >( * m); }
bool s_not( peer_t const* m) { return ! * m; }
// --- transfer -------------------------------------------------------------------------
void pull_call( pull_t * m, void ** ret) { * ret = & ( * m)(); }
#if IS_VOID
void push_call( push_t * m, void ** ret) { * ret = & ( * m)(); }
#elif IS_REF
void push_call( push_t * m, void ** ret, V & v) { * ret = & ( * m)( v); }
void pull_get( pull_t * m, V ** out) { V & r = m->get(); * out = & r; }
#else
# if ! MOVE_ONLY
void push_call_l( push_t * m, void ** ret, V const& v) { * ret = & ( * m)( v); }
# endif
void push_call_r( push_t * m, void ** ret, V && v) { * ret = & ( * m)( std::move( v) ); }
void pull_get( pull_t * m, V * out) { ::new ( const_cast< void * >( static_cast< void const* >( out) ) ) V( m->get() ); }
#endif
// --- iterators ------------------------------------------------------------------------
#if ! IS_VOID
using pit_t = pull_t::iterator;
using oit_t = push_t::iterator;
void pit_begin( pit_t * i, pull_t * m) { ::new ( i) pit_t( m->begin() ); }
void pit_begin_nm( pit_t * i, pull_t * m) { ::new ( i) pit_t( begin( * m) ); }
void pit_inc( pit_t * i, void ** ret) { * ret = & ++ * i; }
void pit_postinc( pit_t * i) { ( * i)++; }
void pit_deref( pit_t const* i, void const** out) { * out = std::addressof( ** i); }
void pit_arrow( pit_t const* i, void const** out) { * out = i->operator->(); }
bool pit_eq_end( pit_t const* i, pull_t * m) { return * i == m->end(); }
bool pit_ne_end( pit_t const* i, pull_t * m) { return * i != m->end(); }
bool pit_eq_nmend( pit_t const* i, pull_t * m) { return * i == end( * m); }
bool pit_eq_def( pit_t const* i, pull_t *) { return * i == pit_t(); }
bool pit_eq_begin( pit_t const* i, pull_t * m) { return * i == m->begin(); }
bool pit_eq_copy( pit_t const* i, pull_t *) { pit_t j( * i); return * i == j && ! ( * i != j); }
void oit_begin( oit_t * i, push_t * m) { ::new ( i) oit_t( begin( * m) ); }
void oit_inc( oit_t * i, void ** ret) { * ret = & ++ * i; }
void oit_deref( oit_t * i, void ** ret) { * ret = & ** i; }
bool oit_eq_end( oit_t const* i, push_t * m) { return * i == end( * m); }
bool oit_ne_end( oit_t const* i, push_t * m) { return * i != end( * m); }
bool oit_eq_def( oit_t const* i, push_t *) { return * i == oit_t(); }
bool oit_eq_begin( oit_t const* i, push_t * m) { return * i == begin( * m); }
bool oit_eq_copy( oit_t const* i, push_t *) { oit_t j( * i); return * i == j && ! ( * i != j); }
# if IS_REF
void oit_assign( oit_t * i, void ** ret, V & v) { * ret = & ( * i = v); }
# elif ! MOVE_ONLY
void oit_assign( oit_t * i, void ** ret, V const& v) { * ret = & ( * i = v); }
# endif
#endif
}
