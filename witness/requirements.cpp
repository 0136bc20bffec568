// C20: every payload and callable within the documented requirements instantiates.
// Each archetype offers the bare minimum.  Compiled with -fsyntax-only, never run.
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <boost/coroutine2/all.hpp>

namespace w {
template< typename T > using pull = typename boost::coroutines2::coroutine< T >::pull_type;
template< typename T > using push = typename boost::coroutines2::coroutine< T >::push_type;

// --- payload archetypes -------------------------------------------------------------
struct movable { movable( movable &&); ~movable(); movable & operator=( movable const&) = delete; };           // nothing else
struct nothrow_movable { nothrow_movable( nothrow_movable &&) noexcept; ~nothrow_movable() noexcept; nothrow_movable & operator=( nothrow_movable const&) = delete; };
struct no_addr { no_addr( no_addr &&); no_addr( no_addr const&); ~no_addr(); void operator&() const = delete; template< typename X > void operator,( X const&) const = delete; };
struct no_new { no_new( no_new &&); no_new( no_new const&); ~no_new(); static void * operator new( std::size_t) = delete; static void * operator new( std::size_t, void *) = delete; static void operator delete( void *) = delete; };
struct final_ final { final_( final_ &&); final_( final_ const&); ~final_(); };
struct alignas( 256) aligned { aligned( aligned &&); aligned( aligned const&); ~aligned(); char c; };
struct aggregate { int i; char const* s; double d[3]; };
struct const_members { const_members( const_members const&) = default; int const i; int & r; };
struct no_compare { no_compare( no_compare &&); no_compare( no_compare const&); bool operator==( no_compare const&) const = delete; bool operator!() const = delete; explicit operator bool() const = delete; };
struct greedy { greedy( greedy const&); greedy( greedy &&); template< typename X > explicit greedy( X &&) = delete; };
struct list_ctor { list_ctor( list_ctor const&); list_ctor( list_ctor &&); list_ctor( std::initializer_list< list_ctor >) = delete; };
struct polymorphic { polymorphic( polymorphic const&); polymorphic( polymorphic &&); virtual ~polymorphic(); virtual void f(); };
struct abstract { virtual ~abstract() = 0; virtual void f() = 0; };
struct incomplete;
struct immovable { immovable() = delete; immovable( immovable const&) = delete; immovable & operator=( immovable const&) = delete; ~immovable(); };
struct private_dtor { private: ~private_dtor(); };
struct empty {};
struct template_ops { template_ops( template_ops &&); template_ops( template_ops const&); template< typename X > void operator=( X &&) = delete; template< typename X > operator X() const = delete; };
struct throwing_dtor { throwing_dtor( throwing_dtor &&); ~throwing_dtor() noexcept( false); };
union uni { int i; float f; };
enum class color { red };
enum plain { a0 };
struct big { big( big const&); big( big &&); ~big(); char c[100000]; };

template< typename X > X && make();
template< typename C > struct callee { callee( callee &&); callee( callee const&); ~callee(); void operator()( C &); };

template< typename T > void common( pull< T > & p, push< T > & s) {
    pull< T > p2( std::move( p) ); p = std::move( p2); p(); (void)static_cast< bool >( p); (void)! p;
    push< T > s2( std::move( s) ); s = std::move( s2); (void)static_cast< bool >( s); (void)! s;
    { pull< T > q{ callee< push< T > >( make< callee< push< T > > >() ) }; }
    { push< T > q{ callee< pull< T > >( make< callee< pull< T > > >() ) }; }
    { callee< push< T > > & f = make< callee< push< T > > & >(); pull< T > q( f); pull< T > r( boost::coroutines2::fixedsize_stack(), f); }
    { callee< pull< T > > & f = make< callee< pull< T > > & >(); push< T > q( f); push< T > r( boost::coroutines2::fixedsize_stack(), f); }
}
template< typename T > void iterate( pull< T > & p) {
    for ( auto & x : p) { (void)x; }
    auto i = begin( p); auto e = end( p); (void)( i == e); (void)( i != e); ++i; i++; (void)i.operator->(); typename pull< T >::iterator j; j = i; (void)* j;
}
template< typename T > void value_by_move( pull< T > & p, push< T > & s, T & t) {
    common< T >( p, s); s( std::move( t) ); T x( p.get() ); iterate< T >( p); auto i = begin( s); auto e = end( s); (void)( i == e); (void)( i != e); ++i; * i; }
template< typename T > void value( pull< T > & p, push< T > & s, T & t) {
    value_by_move< T >( p, s, t); s( t); T const& c = t; s( c); auto i = begin( s); * i = c; }
template< typename T > void refers( pull< T & > & p, push< T & > & s, T & t) {
    common< T & >( p, s); s( t); T & r = p.get(); (void)r; iterate< T & >( p); auto i = begin( s); * i = t; auto e = end( s); (void)( i == e); }

#define VALUE_BY_MOVE(T) template void value_by_move< T >( pull< T > &, push< T > &, T &);
#define VALUE(T) template void value< T >( pull< T > &, push< T > &, T &);
#define REFERS(T) template void refers< T >( pull< T & > &, push< T & > &, T &);
typedef std::unique_ptr< int > uptr; typedef std::vector< std::string > vec; typedef pull< int > cpull; typedef push< int > cpush;
typedef std::function< int( int) > func; typedef int ( * fptr)( int); typedef int empty::* mptr; typedef std::pair< int const, std::string > pr; typedef int fun( int); typedef int arr[4];
VALUE_BY_MOVE( movable) VALUE_BY_MOVE( nothrow_movable) VALUE_BY_MOVE( uptr) VALUE_BY_MOVE( cpull) VALUE_BY_MOVE( cpush) VALUE_BY_MOVE( throwing_dtor)
VALUE( no_addr) VALUE( no_new) VALUE( final_) VALUE( aligned) VALUE( aggregate) VALUE( const_members) VALUE( no_compare) VALUE( greedy) VALUE( list_ctor) VALUE( polymorphic) VALUE( empty) VALUE( template_ops)
VALUE( uni) VALUE( color) VALUE( plain) VALUE( big) VALUE( bool) VALUE( char) VALUE( long double) VALUE( int *) VALUE( int const*) VALUE( void *) VALUE( void const*) VALUE( incomplete *) VALUE( abstract *) VALUE( func) VALUE( fptr) VALUE( mptr) VALUE( vec) VALUE( pr) VALUE( std::string) VALUE( std::nullptr_t) VALUE( std::shared_ptr< int >)
VALUE( int const) VALUE( std::string const) VALUE( aggregate const) VALUE( int * const)
REFERS( int) REFERS( int const) REFERS( std::string) REFERS( std::string const) REFERS( movable) REFERS( movable const) REFERS( uptr) REFERS( immovable) REFERS( immovable const) REFERS( abstract) REFERS( abstract const) REFERS( incomplete) REFERS( incomplete const) REFERS( no_addr) REFERS( final_) REFERS( private_dtor) REFERS( aligned) REFERS( cpull) REFERS( polymorphic) REFERS( int * const) REFERS( volatile int) REFERS( arr) REFERS( empty)
template void common< void >( pull< void > &, push< void > &);

// --- explicit instantiation of the class templates -------------------------------------
}
#define EXPLICIT(T) template class boost::coroutines2::detail::pull_coroutine< T >; template class boost::coroutines2::detail::push_coroutine< T >; template struct boost::coroutines2::coroutine< T >;
EXPLICIT( long) EXPLICIT( long &) EXPLICIT( long const&) EXPLICIT( w::aggregate) EXPLICIT( w::aggregate *) EXPLICIT( w::no_addr) EXPLICIT( w::final_ &) EXPLICIT( w::aligned)
namespace w {
// --- callables ---------------------------------------------------------------------------
template< typename C > void function( C &) {}
template< typename C > int returns( C &) { return 1; }
template< typename C > void by_const( C const&) {}
template< typename C > struct const_call { void operator()( C &) const {} };
template< typename C > struct lvalue_call { lvalue_call() {} void operator()( C &) & {} void operator()( C &) && = delete; void operator()( C &) const& = delete; };
template< typename C > struct const_lvalue_call { void operator()( C &) const& {} };
template< typename C > struct move_only_call { move_only_call() {} move_only_call( move_only_call &&) {} move_only_call & operator=( move_only_call &&) = delete; void operator()( C &) {} };
template< typename C > struct final_call final { void operator()( C &) {} };
template< typename C > struct hostile_call { hostile_call() {} hostile_call( hostile_call const&) {} hostile_call( hostile_call &&) {} void operator()( C &) {} void operator&() const = delete; static void * operator new( std::size_t) = delete; static void * operator new( std::size_t, void *) = delete; static void operator delete( void *) = delete; template< typename X > void operator,( X &&) const = delete; hostile_call & operator=( hostile_call const&) = delete; };
template< typename C > struct greedy_call { greedy_call() {} greedy_call( greedy_call const&) {} greedy_call( greedy_call &&) {} template< typename X, typename = typename std::enable_if< ! std::is_base_of< greedy_call, typename std::decay< X >::type >::value >::type > greedy_call( X &&) = delete; void operator()( C &) {} };
template< typename C > struct overloaded_call { void operator()( C &) {} void operator()( int) {} void operator()() {} };
template< typename C > struct noexcept_call { void operator()( C &) noexcept {} };
template< typename C > struct virtual_call { virtual ~virtual_call() {} virtual void operator()( C &) {} };
template< typename C > struct aligned_call { alignas( 128) char c[128]; void operator()( C &) {} };
struct any_call { template< typename C > void operator()( C &) {} };
struct any_fwd_call { template< typename C > void operator()( C &&) {} };
template< typename C > struct big_call { char c[2048]; void operator()( C &) {} };
struct plain_alloc { boost::context::stack_context allocate(); void deallocate( boost::context::stack_context &); };
struct const_alloc { boost::context::stack_context allocate() const; void deallocate( boost::context::stack_context &) const; };
struct movable_alloc { movable_alloc(); movable_alloc( movable_alloc &&); boost::context::stack_context allocate(); void deallocate( boost::context::stack_context &) noexcept; };
template< typename X, typename C > void callables() {
    X x0( function< C >); X x1( & function< C >); X x2( returns< C >); X x3( by_const< C >);
    { const_call< C > f; X a( f); X b( const_call< C >{}); const_call< C > const g{}; X c( g); }
    { lvalue_call< C > f; X a( f); X b( std::move( f) ); X c{ lvalue_call< C >() }; }
    { const_lvalue_call< C > f; X a( f); const_lvalue_call< C > const g{}; X b( g); }
    { X a{ move_only_call< C >() }; move_only_call< C > f; X b( std::move( f) ); X c( plain_alloc(), move_only_call< C >() ); }
    { final_call< C > f; X a( f); X b( std::move( f) ); }
    { hostile_call< C > f; X a( f); X b( std::move( f) ); hostile_call< C > const g; X c( g); }
    { greedy_call< C > f; X a( f); X b( std::move( f) ); }
    { overloaded_call< C > f; X a( f); X b{ overloaded_call< C >() }; noexcept_call< C > n; X c( n); virtual_call< C > v; X d( v); aligned_call< C > l; X e( l); big_call< C > g; X h( g); any_call y; X i( y); any_fwd_call z; X j( z); }
    { int i = 0; uptr u; auto f = [&i]( C &) { ++i; }; X a( f); X b( std::move( f) ); X c( [i]( C &) mutable { ++i; }); X d( []( C &) noexcept {}); auto const k = [i]( C &) { (void)i; }; X e( k); }
    { std::function< void( C &) > f; X a( f); X b( std::move( f) ); X c( std::bind( & function< C >, std::placeholders::_1) ); const_call< C > g; X d( std::ref( g) ); X e( std::cref( g) ); }
#if __cplusplus >= 201402L
    { uptr u; X a( [u=std::move( u)]( C &) {}); X b( []( auto &) {}); X c( []( auto &&) {}); }
#endif
#if __cplusplus >= 201703L
    { void ( * f)( C &) noexcept = nullptr; X a( f); }
#endif
    { const_call< C > f; plain_alloc a; X x( a, f); X y( plain_alloc(), f); const_alloc const c{}; X z( c, f); X m( movable_alloc(), f); X n( std::move( a), std::move( f) ); X o( boost::coroutines2::protected_fixedsize_stack( 65536), f); boost::coroutines2::pooled_fixedsize_stack p; X q( p, f); }
    { const_call< C > f; X x{ f }; X y = X( f); X z = X{ plain_alloc(), f }; std::vector< X > v; v.push_back( std::move( x) ); v.emplace_back( f); std::pair< int, X > pp( 1, std::move( y) ); std::unique_ptr< X > up( new X( f) ); }
}
#define BOTH(T) template void callables< pull< T >, push< T > >(); template void callables< push< T >, pull< T > >();
BOTH( int) BOTH( int &) BOTH( void) BOTH( uptr) BOTH( std::string)
}
int main() {}
