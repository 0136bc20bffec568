// C19: the documented interface, decided by the compiler's own overload resolution and
// exception-specification analysis.  Compiled with -fsyntax-only, never run.
#include <cstddef>
#include <iterator>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <boost/coroutine2/all.hpp>

namespace w {
template< typename T > using pull = typename boost::coroutines2::coroutine< T >::pull_type;
template< typename T > using push = typename boost::coroutines2::coroutine< T >::push_type;
template< typename... > struct make_void { typedef void type; };
template< typename... X > using void_t = typename make_void< X... >::type;

// is  X( Args...)  a valid call, and what is its type
template< typename V, typename X, typename... A > struct call_ { static constexpr bool ok = false; typedef void type; };
template< typename X, typename... A > struct call_< void_t< decltype( std::declval< X >()( std::declval< A >()...) ) >, X, A... > {
    static constexpr bool ok = true; typedef decltype( std::declval< X >()( std::declval< A >()...) ) type; };
template< typename X, typename... A > constexpr bool callable() { return call_< void, X, A... >::ok; }
template< typename R, typename X, typename... A > constexpr bool call_is() { return std::is_same< R, typename call_< void, X, A... >::type >::value; }
template< typename X, typename V = void > struct get_ { static constexpr bool ok = false, nothrow = false; typedef void type; };
template< typename X > struct get_< X, void_t< decltype( std::declval< X & >().get() ) > > {
    static constexpr bool ok = true, nothrow = noexcept( std::declval< X & >().get() ); typedef decltype( std::declval< X & >().get() ) type; };
template< typename X, typename V = void > struct begin_ { static constexpr bool ok = false; };
template< typename X > struct begin_< X, void_t< decltype( begin( std::declval< X & >() ) ) > > { static constexpr bool ok = true; };
template< typename X, typename Y, typename V = void > struct assignable_from_ { static constexpr bool ok = false; };
template< typename X, typename Y > struct assignable_from_< X, Y, void_t< decltype( std::declval< X & >() = std::declval< Y >() ) > > { static constexpr bool ok = true; };
template< typename X, typename V = void > struct arith_ { static constexpr bool ok = false; };
template< typename X > struct arith_< X, void_t< decltype( std::declval< X const& >() + 1) > > { static constexpr bool ok = true; };

struct unrelated {};
struct move_only { move_only( move_only &&); move_only & operator=( move_only &&); ~move_only(); };
struct salloc { boost::context::stack_context allocate(); void deallocate( boost::context::stack_context &) noexcept; };
template< typename C > struct fn { void operator()( C &); };

// every coroutine object, C its counterpart
template< typename X, typename C >
struct object {
    static_assert( ! std::is_copy_constructible< X >::value, "C19: coroutine objects are not copy constructible");
    static_assert( ! std::is_copy_assignable< X >::value, "C19: coroutine objects are not copy assignable");
    static_assert( ! std::is_constructible< X, X & >::value, "C19: a coroutine is not constructible from an lvalue coroutine");
    static_assert( ! std::is_assignable< X &, X & >::value, "C19: a coroutine is not assignable from an lvalue coroutine");
    static_assert( ! std::is_constructible< X, X const&& >::value, "C19: a coroutine is not constructible from a const coroutine");
    static_assert( ! std::is_default_constructible< X >::value, "C19: coroutine objects are not default constructible");
    static_assert( std::is_nothrow_move_constructible< X >::value, "C19: move construction does not throw");
    static_assert( std::is_nothrow_move_assignable< X >::value, "C19: move assignment does not throw");
    static_assert( std::is_nothrow_destructible< X >::value, "C19: destruction does not throw");
    static_assert( ! std::is_convertible< X, bool >::value, "C19: the validity conversion is explicit");
    static_assert( ! std::is_convertible< X const&, int >::value, "C19: no conversion to an arithmetic type");
    static_assert( ! arith_< X >::ok, "C19: a coroutine does not take part in arithmetic");
    static_assert( std::is_constructible< bool, X const& >::value, "C19: const coroutines can be tested");
    static_assert( noexcept( static_cast< bool >( std::declval< X const& >() ) ), "C19: the validity test does not throw");
    static_assert( noexcept( ! std::declval< X const& >() ), "C19: negation does not throw");
    static_assert( std::is_same< decltype( ! std::declval< X const& >() ), bool >::value, "C19: negation yields bool");
    static_assert( std::is_constructible< X, fn< C > >::value, "C19: constructible from an rvalue callable");
    static_assert( std::is_constructible< X, fn< C > & >::value, "C19: constructible from an lvalue callable");
    static_assert( std::is_constructible< X, fn< C > const& >::value, "C19: constructible from a const callable");
    static_assert( std::is_constructible< X, void (*)( C &) >::value, "C19: constructible from a function pointer");
    static_assert( std::is_constructible< X, void ( &)( C &) >::value, "C19: constructible from a function");
    static_assert( std::is_constructible< X, salloc, fn< C > >::value, "C19: constructible from an rvalue allocator");
    static_assert( std::is_constructible< X, salloc &, fn< C > & >::value, "C19: constructible from an lvalue allocator");
    static_assert( ! std::is_convertible< fn< C >, X >::value, "C19: no implicit conversion from a callable");
    static_assert( ! std::is_convertible< fn< C > &, X >::value, "C19: no implicit conversion from an lvalue callable");
    static_assert( ! std::is_convertible< void (*)( C &), X >::value, "C19: no implicit conversion from a function pointer");
    static_assert( ! std::is_assignable< X &, fn< C > >::value, "C19: a callable is not assignable to a coroutine");
    static_assert( ! callable< X &, unrelated >(), "C19: a coroutine is not callable with an unrelated argument");
    static_assert( ! callable< X const& >() , "C19: a const coroutine cannot be resumed");
};
template< typename X > struct get_const_ {
    template< typename Y > static std::true_type test( decltype( std::declval< Y const& >().get() ) *);
    template< typename Y > static std::false_type test( ...);
};

template< typename T >
struct pull_checks : object< pull< T >, push< T > > {
    static_assert( call_is< pull< T > &, pull< T > & >(), "C19: pull operator() takes nothing and returns the coroutine");
    static_assert( ! callable< pull< T > &, int >(), "C19: pull operator() takes no argument");
};
template< typename T >
struct pull_get_checks : pull_checks< T > {
    static_assert( get_< pull< T > >::ok, "C19: a pull coroutine can be read");
    static_assert( std::is_same< typename get_< pull< T > >::type, T >::value, "C19: get() returns the payload by value, or the reference type");
    static_assert( get_< pull< T > >::nothrow, "C19: get() does not throw");
    static_assert( begin_< pull< T > >::ok, "C19: begin() is found for pull coroutines");
    typedef typename pull< T >::iterator it;
    typedef typename std::remove_reference< T >::type V;
    static_assert( std::is_same< typename std::iterator_traits< it >::iterator_category, std::input_iterator_tag >::value, "C19: pull iterators are input iterators");
    static_assert( std::is_same< typename std::iterator_traits< it >::value_type, V >::value, "C19: value_type of pull iterators");
    static_assert( std::is_same< typename std::iterator_traits< it >::reference, V & >::value, "C19: reference of pull iterators");
    static_assert( std::is_same< typename std::iterator_traits< it >::pointer, V * >::value, "C19: pointer of pull iterators");
    static_assert( std::is_same< typename std::iterator_traits< it >::difference_type, std::ptrdiff_t >::value, "C19: difference_type of pull iterators");
    static_assert( std::is_nothrow_default_constructible< it >::value, "C19: the end iterator is default constructible");
    static_assert( std::is_nothrow_copy_constructible< it >::value && std::is_copy_assignable< it >::value, "C19: pull iterators are copyable");
    static_assert( std::is_same< decltype( * std::declval< it const& >() ), V & >::value, "C19: dereferencing yields a reference to the value in place");
    static_assert( std::is_same< decltype( std::declval< it const& >().operator->() ), V * >::value, "C19: operator-> yields a pointer");
    static_assert( std::is_same< decltype( ++std::declval< it & >() ), it & >::value, "C19: increment yields the iterator");
    static_assert( noexcept( * std::declval< it const& >() ) && noexcept( std::declval< it const& >().operator->() ), "C19: dereferencing does not throw");
    static_assert( noexcept( std::declval< it const& >() == std::declval< it const& >() ) && noexcept( std::declval< it const& >() != std::declval< it const& >() ), "C19: comparing iterators does not throw");
    static_assert( std::is_same< decltype( std::declval< pull< T > & >().begin() ), it >::value && std::is_same< decltype( std::declval< pull< T > & >().end() ), it >::value, "C19: member begin() and end()");
    static_assert( std::is_same< decltype( begin( std::declval< pull< T > & >() ) ), it >::value && std::is_same< decltype( end( std::declval< pull< T > & >() ) ), it >::value, "C19: non-member begin() and end()");
};
// classes derived from a coroutine are moved like one
template< typename B >
struct derived : B {
    template< typename Fn > explicit derived( int, Fn && fn) : B( std::forward< Fn >( fn) ) {}
    derived( derived && other) noexcept : B( std::move( other) ) {}
    derived & operator=( derived && other) noexcept { B::operator=( std::move( other) ); return * this; }
};
#define DERIVED( B) template struct derived< B >; static_assert( ! std::is_constructible< B, derived< B > & >::value && ! std::is_constructible< B, derived< B > const& >::value, "C19: a class derived from a coroutine is not taken for a callable");
DERIVED( pull< int >) DERIVED( pull< int & >) DERIVED( pull< void >) DERIVED( push< int >) DERIVED( push< int & >) DERIVED( push< void >)
template< typename T >
struct push_checks : object< push< T >, pull< T > > {
    static_assert( ! callable< push< T > & >(), "C19: pushing nothing is rejected");
    static_assert( ! callable< push< T > &, unrelated >(), "C19: pushing an unrelated type is rejected");
    static_assert( ! get_< push< T > >::ok, "C19: a push coroutine cannot be read");
    typedef typename push< T >::iterator it;
    static_assert( std::is_same< typename std::iterator_traits< it >::iterator_category, std::output_iterator_tag >::value, "C19: push iterators are output iterators");
    static_assert( std::is_nothrow_default_constructible< it >::value, "C19: the end iterator is default constructible");
    static_assert( std::is_nothrow_copy_constructible< it >::value && std::is_copy_assignable< it >::value, "C19: push iterators are copyable");
    static_assert( std::is_same< decltype( * std::declval< it & >() ), it & >::value && std::is_same< decltype( ++std::declval< it & >() ), it & >::value, "C19: dereferencing and incrementing a push iterator yield itself");
    static_assert( noexcept( std::declval< it const& >() == std::declval< it const& >() ) && noexcept( std::declval< it const& >() != std::declval< it const& >() ), "C19: comparing iterators does not throw");
    static_assert( std::is_same< decltype( begin( std::declval< push< T > & >() ) ), it >::value && std::is_same< decltype( end( std::declval< push< T > & >() ) ), it >::value, "C19: non-member begin() and end()");
    static_assert( ! assignable_from_< it, unrelated >::ok, "C19: a push iterator does not take an unrelated type");
};
template< typename T >
struct push_value_checks : push_checks< T > {
    static_assert( call_is< push< T > &, push< T > &, T const& >(), "C19: a const lvalue can be pushed, the coroutine is returned");
    static_assert( call_is< push< T > &, push< T > &, T & >(), "C19: an lvalue can be pushed, the coroutine is returned");
    static_assert( call_is< push< T > &, push< T > &, T && >(), "C19: an rvalue can be pushed, the coroutine is returned");
    static_assert( ! callable< push< T > &, T, T >(), "C19: pushing two values is rejected");
    static_assert( assignable_from_< typename push< T >::iterator, T const& >::ok, "C19: a push iterator takes the payload");
};
template< typename T >
struct push_ref_checks : push_checks< T & > {
    static_assert( call_is< push< T & > &, push< T & > &, T & >(), "C19: an lvalue can be pushed, the coroutine is returned");
    static_assert( assignable_from_< typename push< T & >::iterator, T & >::ok, "C19: a push iterator takes the payload");
};
template< typename T >
struct push_mutable_ref_checks : push_ref_checks< T > {
    static_assert( ! callable< push< T & > &, T >(), "C19: a temporary does not bind to a reference payload");
    static_assert( ! callable< push< T & > &, T const& >(), "C19: a const object does not bind to a mutable reference payload");
    static_assert( ! assignable_from_< typename push< T & >::iterator, T >::ok, "C19: a temporary does not bind to a reference payload through the iterator");
};

template struct pull_get_checks< int >; template struct push_value_checks< int >;
template struct pull_get_checks< std::string >; template struct push_value_checks< std::string >;
template struct pull_get_checks< unrelated * >; template struct push_value_checks< unrelated * >;
template struct pull_get_checks< move_only >; template struct push_checks< move_only >;
template struct pull_get_checks< std::unique_ptr< int > >; template struct push_checks< std::unique_ptr< int > >;
template struct pull_get_checks< int & >; template struct push_mutable_ref_checks< int >;
template struct pull_get_checks< std::string & >; template struct push_mutable_ref_checks< std::string >;
template struct pull_get_checks< std::string const& >; template struct push_ref_checks< std::string const >;
template struct pull_get_checks< move_only & >; template struct push_mutable_ref_checks< move_only >;
template struct pull_checks< void >;
template struct object< push< void >, pull< void > >;
static_assert( callable< push< move_only > &, move_only >(), "C19: a move-only payload can be pushed");
static_assert( call_is< push< void > &, push< void > & >(), "C19: a void push takes nothing and returns the coroutine");
static_assert( ! callable< push< void > &, int >(), "C19: a void push takes no argument");
static_assert( ! get_< pull< void > >::ok, "C19: a void pull coroutine has nothing to read");
static_assert( ! get_< push< void > >::ok, "C19: a push coroutine has nothing to read");
static_assert( ! callable< push< int > &, char const* >(), "C19: a pointer is not pushed as int");
static_assert( ! callable< push< std::unique_ptr< int > > &, int * >(), "C19: no explicit conversion is applied to a pushed value");
static_assert( callable< push< std::string > &, char const* >(), "C19: implicit conversions to the payload apply");
static_assert( ! std::is_constructible< pull< int >, pull< int > const& >::value, "C19: no copies through the callable constructor");
static_assert( std::is_same< boost::coroutines2::asymmetric_coroutine< int >::pull_type, pull< int > >::value, "C19: asymmetric_coroutine names the same types");
static_assert( std::is_same< boost::coroutines2::asymmetric_coroutine< int & >::push_type, push< int & > >::value, "C19: asymmetric_coroutine names the same types");
static_assert( ! std::is_same< pull< int >, pull< int & > >::value && ! std::is_same< push< int >, push< void > >::value, "C19: payload forms are distinct types");

// documented uses
void uses() {
    using std::swap;
    pull< int > p( []( push< int > & s) { s( 1); int i = 2; s( i)( 3); if ( s) { return; } if ( ! s) { return; } });
    for ( auto & x : p) { x = 1; }
    for ( int x : p) { (void)x; }
    if ( p) { int i = p.get(); (void)i; }
    if ( p() ) { }
    pull< int > p2( std::move( p) ); p = std::move( p2); swap( p, p2);
    auto e = end( p); for ( auto i = begin( p); i != e; ++i) { (void)* i; } 
    for ( auto i = p.begin(); i != p.end(); i++) { (void)* i; }
    push< std::string > s( boost::coroutines2::fixedsize_stack( 65536), []( pull< std::string > & q) { while ( q) { std::string x = q.get(); (void)x; q(); } });
    s( std::string( "a") )( "b");
    auto o = begin( s); * o = std::string( "c"); ++o; if ( o == end( s) ) { }
    pull< void > v( []( push< void > & y) { y(); y()(); }); v()();
    push< void > v2( []( pull< void > & y) { y(); }); v2()();
    pull< int & > r( []( push< int & > & y) { int i = 1; y( i); }); int & ri = r.get(); ri = 2; for ( int & x : r) { x = 3; }
    pull< std::unique_ptr< int > > u( []( push< std::unique_ptr< int > > & y) { y( std::unique_ptr< int >( new int( 1) ) ); });
    std::unique_ptr< int > ui = u.get();
    pull< int > a1( boost::coroutines2::default_stack(), []( push< int > &) {});
    pull< int > a2( boost::coroutines2::protected_fixedsize_stack(), []( push< int > &) {});
    boost::coroutines2::pooled_fixedsize_stack pool; pull< int > a3( pool, []( push< int > &) {});
}
#ifdef MISUSE
struct movable_fn { movable_fn( movable_fn &&); void operator()( push< int > &); };
struct int_fn { void operator()( int); };
struct other_fn { void operator()( pull< int > &); };
struct bad_alloc_ {};
void misuse( movable_fn & f, movable_fn && g, pull< int > & a, salloc & sa) {
    (void)f; (void)g; (void)a; (void)sa;
# if MISUSE == 1
    pull< int > p( f);                                    // lvalue move-only callable
# elif MISUSE == 2
    pull< int > p( int_fn{});                            // callable does not take the counterpart
    pull< int > q{ int_fn{} };
# elif MISUSE == 3
    pull< int > p{ other_fn{} };                          // callable takes the wrong side
# elif MISUSE == 4
    pull< int > p = a;                                    // copy
# elif MISUSE == 5
    pull< int > p{ bad_alloc_{}, std::move( g) };         // not an allocator
# elif MISUSE == 6
    push< int > p = []( pull< int > &) {};                // implicit conversion
# elif MISUSE == 7
    push< int > p{ []( push< int > &) {} };               // a push coroutine's function receives a pull_type
# elif MISUSE == 8
    pull< int > p{ []( pull< int > ) {} };                // counterpart by value
# else
    pull< int > p{ std::move( g) }; (void)p;              // valid: the positive twin of the above
    push< int > q{ other_fn{} }; pull< int > r{ sa, []( push< int > &) {} };
# endif
}
#endif
}
int main() {}
