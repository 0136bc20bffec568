// C17, C18: what the iterators tell generic algorithms about themselves; an algorithm that
// dispatches on these names believes them.  Compiled with -fsyntax-only, never run.
#include <algorithm>
#include <cstddef>
#include <iterator>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <boost/coroutine2/all.hpp>

namespace w {
template< typename T > using pull = typename boost::coroutines2::coroutine< T >::pull_type;
template< typename T > using push = typename boost::coroutines2::coroutine< T >::push_type;
template< typename T > using rr = typename std::remove_reference< T >::type;

#ifdef PULLS
template< typename T >
struct checks {
    typedef typename pull< T >::iterator it;
    typedef std::iterator_traits< it > tr;
    static_assert( std::is_convertible< typename tr::iterator_category, std::input_iterator_tag >::value, "C17: a pull iterator declares itself an input iterator");
    static_assert( ! std::is_convertible< typename tr::iterator_category, std::forward_iterator_tag >::value, "C17: the range is single-pass, its iterators do not claim to be multi-pass");
    static_assert( std::is_same< typename std::remove_cv< typename tr::value_type >::type, typename std::remove_cv< rr< T > >::type >::value, "C17: the elements of the range are the payloads");
    static_assert( std::is_same< typename tr::reference, rr< T > & >::value && std::is_same< decltype( * std::declval< it & >() ), rr< T > & >::value, "C17: dereferencing refers to the current value in place");
    static_assert( std::is_same< typename tr::pointer, rr< T > * >::value, "C17: operator-> points to the current value in place");
    static_assert( std::is_integral< typename tr::difference_type >::value && std::is_signed< typename tr::difference_type >::value && sizeof( typename tr::difference_type) >= sizeof( std::ptrdiff_t), "C17: distances are signed and wide enough");
    static_assert( std::is_default_constructible< it >::value && std::is_copy_constructible< it >::value && std::is_copy_assignable< it >::value, "C17: iterators are values, the end iterator needs no coroutine");
    static_assert( std::is_convertible< decltype( std::declval< it const& >() == std::declval< it const& >() ), bool >::value && std::is_convertible< decltype( std::declval< it const& >() != std::declval< it const& >() ), bool >::value, "C17: iterators are compared with == and !=");
    static_assert( std::is_same< decltype( begin( std::declval< pull< T > & >() ) ), decltype( std::declval< pull< T > & >().begin() ) >::value, "C17: member and non-member begin agree");
    static_assert( std::is_same< decltype( end( std::declval< pull< T > & >() ) ), decltype( std::declval< pull< T > & >().end() ) >::value, "C17: member and non-member end agree");
};
template struct checks< int >; template struct checks< int & >; template struct checks< int const& >;
template struct checks< std::string >; template struct checks< std::string const& >; template struct checks< void * >;
template struct checks< std::unique_ptr< int > >; template struct checks< std::unique_ptr< int > & >;
// algorithms over single-pass ranges
inline std::ptrdiff_t use( pull< int > & c) {
    for ( int & i : c) { (void) i; }
    std::vector< int > v;
    std::copy( begin( c), end( c), std::back_inserter( v) );
    std::for_each( c.begin(), c.end(), []( int) {});
    if ( std::find( begin( c), end( c), 3) != end( c) ) { return 1; }
    return std::distance( begin( c), end( c) );
}
#endif

#ifdef PUSHES
template< typename T >
struct checks {
    typedef typename push< T >::iterator it;
    typedef std::iterator_traits< it > tr;
    static_assert( std::is_convertible< typename tr::iterator_category, std::output_iterator_tag >::value, "C18: a push iterator declares itself an output iterator");
    static_assert( ! std::is_convertible< typename tr::iterator_category, std::input_iterator_tag >::value, "C18: a push iterator does not claim to be readable");
    static_assert( std::is_default_constructible< it >::value && std::is_copy_constructible< it >::value && std::is_copy_assignable< it >::value, "C18: iterators are values, the end iterator needs no coroutine");
    static_assert( std::is_convertible< decltype( std::declval< it const& >() == std::declval< it const& >() ), bool >::value && std::is_convertible< decltype( std::declval< it const& >() != std::declval< it const& >() ), bool >::value, "C18: iterators are compared with == and !=");
    static_assert( std::is_assignable< decltype( * std::declval< it & >() ), T >::value, "C18: the payload can be assigned through the iterator");
    static_assert( std::is_same< decltype( begin( std::declval< push< T > & >() ) ), it >::value && std::is_same< decltype( end( std::declval< push< T > & >() ) ), it >::value, "C18: begin and end yield the output iterator");
};
template struct checks< int >; template struct checks< int & >; template struct checks< int const& >;
template struct checks< std::string >; template struct checks< std::string const& >; template struct checks< void * >;
template struct checks< std::unique_ptr< int > & >; template struct checks< std::unique_ptr< int > >;
inline void use( push< int > & c, std::vector< int > & v) {
    std::copy( v.begin(), v.end(), begin( c) );
    std::fill_n( begin( c), 3, 1);
    std::transform( v.begin(), v.end(), begin( c), []( int i) { return i + 1; });
    auto i = begin( c);
    while ( i != end( c) ) { * i = 1; ++i; }
}
#endif
}
