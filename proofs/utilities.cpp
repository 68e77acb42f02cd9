// C22: splitting and merging containers, observer collections
#include <utility>
#include <vector>
#include <cassert>
#include <boost/assert.hpp>
#include <boost/numeric/odeint/util/split_adaptor.hpp>
#include <boost/numeric/odeint/integrate/observer_collection.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
#include <boost/numeric/odeint/util/same_size.hpp>
#include "omp.h"
#include <boost/numeric/odeint/external/openmp/openmp_state.hpp>
#include "irv.h"
using namespace boost::numeric::odeint;
typedef std::pair< std::size_t , std::size_t > off;
// a vector of any length with arbitrary elements
static std::vector< double > any( long n )
{
    irv_assume( n < 1000000000000L );
    double *m = new double[ n ]; if( irv_native() ) for( long i = 0 ; i < n ; ++i ) m[i] = irv_real( "element" );
    return std::vector< double >( m , m + n );
}

// ---------------------------------------------------------------- split_adaptor: any length, any number of parts
IRV_HARNESS( C22_offsets_first_last )
{
    long n = irv_nat( "n" , 0 , 50 ) , p = irv_nat( "parts" , 1 , 9 );
    off a = detail::split_offsets( n , 0 , p ) , z = detail::split_offsets( n , p - 1 , p );
    irv_assert( a.first == 0 , "the first part starts at the first element" );
    irv_assert( z.second == (std::size_t) n , "the last part ends after the last element" );
    irv_cover( "end" );
}
IRV_HARNESS( C22_offsets_contiguous )
{
    long n = irv_nat( "n" , 0 , 50 ) , p = irv_nat( "parts" , 1 , 9 ) , i = irv_nat( "index" , 0 , 8 );
    irv_assume( i + 1 < p );
    off a = detail::split_offsets( n , i , p ) , b = detail::split_offsets( n , i + 1 , p );
    irv_assert( a.first <= a.second , "a part does not end before it starts" );
    irv_assert( a.second == b.first , "each part starts where the previous one ends" );
    irv_cover( "end" );
}
IRV_HARNESS( C22_offsets_balanced )
{
    long n = irv_nat( "n" , 0 , 50 ) , p = irv_nat( "parts" , 1 , 9 ) , i = irv_nat( "index" , 0 , 8 ) , j = irv_nat( "index" , 0 , 8 );
    irv_assume( ( i < p ) & ( j < p ) );
    off a = detail::split_offsets( n , i , p ) , b = detail::split_offsets( n , j , p );
    long la = (long) a.second - (long) a.first , lb = (long) b.second - (long) b.first;
    irv_assert( ( la - lb <= 1 ) & ( lb - la <= 1 ) , "part sizes differ by at most one" );
    irv_assert( ( la >= 0 ) & ( (long) a.second <= n ) , "every part lies within the container" );
    irv_cover( "end" );
}
template< class R > void ranges( R &v , long n )
{
    long p = irv_nat( "parts" , 1 , 9 ) , i = irv_nat( "index" , 0 , 8 ); irv_assume( i < p );
    const R &c = v; off o = detail::split_offsets( n , i , p );
    irv_assert( ( boost::begin( detail::make_split_range( v , i , p ) ) == v.begin() + o.first ) & ( boost::end( detail::make_split_range( v , i , p ) ) == v.begin() + o.second ) , "the split range is the part of the container with the computed offsets" );
    irv_assert( ( boost::begin( detail::make_split_range( c , i , p ) ) == c.begin() + o.first ) & ( boost::end( detail::make_split_range( c , i , p ) ) == c.begin() + o.second ) , "the same for constant containers" );
    irv_assert( ( boost::begin( v | detail::split( i , p ) ) == v.begin() + o.first ) & ( boost::end( v | detail::split( i , p ) ) == v.begin() + o.second ) , "range | split( index , parts ) is that range" );
    irv_assert( ( boost::begin( c | detail::split( i , p ) ) == c.begin() + o.first ) & ( boost::end( c | detail::split( i , p ) ) == c.begin() + o.second ) , "the same for constant containers" );
    irv_cover( "end" );
}
IRV_HARNESS( C22_ranges_vector ) { long n = irv_nat( "n" , 0 , 50 ); std::vector< double > v = any( n ); ranges( v , n ); }

// ---------------------------------------------------------------- openmp_state: containers of any length, 1..6 parts
template< int P > void omp_split()
{
    long n = irv_nat( "n" , 0 , 30 ) , k = irv_nat( "k" , 0 , 30 ); irv_assume( k < n );
    std::vector< double > v = any( n ) , w; double vk = v[k];
    openmp_state< double > s; if( P > 0 ) s.resize( P );
    split( v , s );
    const int Q = P > 0 ? P : omp_get_max_threads();
    irv_assert( s.size() == (std::size_t) Q , "the number of parts is the size of the target" );
    long sum = 0 , hit = 0;
    for( int i = 0 ; i < Q ; ++i )
    {
        long l = s[i].size();
        if( ( k >= sum ) & ( k < sum + l ) ) { ++hit; irv_assert( irv_same( s[i][ k - sum ] , vk ) , "every element is found at its place in order" ); }
        sum += l;
    }
    irv_assert( sum == n , "the parts together have as many elements as the container" );
    irv_assert( hit == 1 , "every element belongs to one part" );
    irv_assert( ( v.size() == (std::size_t) n ) && irv_same( v[k] , vk ) , "splitting leaves the container unchanged" );
    unsplit( s , w );
    irv_assert( w.size() == (std::size_t) n , "merging restores the size" );
    irv_assert( irv_same( w[k] , vk ) , "merging restores every element" );
    irv_cover( "end" );
}
#define SPLIT( P ) IRV_HARNESS( C22_omp_split_##P ) { omp_split< P >(); }
SPLIT( 0 ) SPLIT( 1 ) SPLIT( 2 ) SPLIT( 3 ) SPLIT( 4 ) SPLIT( 5 ) SPLIT( 6 )
template< int P > void omp_copy()
{
    openmp_state< double > a , b , c; double vk[ P ? P : 1 ]; long k[ P ? P : 1 ];
    for( int i = 0 ; i < P ; ++i ) { long n = irv_nat( "n" , 1 , 9 ); k[i] = irv_nat( "k" , 0 , 8 ); irv_assume( k[i] < n ); a.push_back( any( n ) ); vk[i] = a[i][ k[i] ]; }
    boost::numeric::odeint::resize( b , a );
    irv_assert( same_size( a , b ) , "a resized state has the same size" );
    for( int i = 0 ; i < P ; ++i ) irv_assert( b[i].size() == a[i].size() , "part by part" );
    boost::numeric::odeint::copy( a , b );
    for( int i = 0 ; i < P ; ++i ) irv_assert( irv_same( b[i][ k[i] ] , vk[i] ) & irv_same( a[i][ k[i] ] , vk[i] ) , "copying a split state copies every element and leaves the source alone" );
    if( P > 0 ) { int q = irv_choose( "part" , P ); long m = irv_nat( "m" , 0 , 9 ); irv_assume( m != (long) b[q].size() ); b[q] = any( m ); irv_assert( !same_size( a , b ) , "states with parts of different size do not have the same size" ); }
    c.resize( P + 1 ); irv_assert( !same_size( a , c ) , "states with different numbers of parts do not have the same size" );
    irv_cover( "end" );
}
#define COPY( P ) IRV_HARNESS( C22_omp_copy_##P ) { omp_copy< P >(); }
COPY( 1 ) COPY( 2 ) COPY( 3 )

// ---------------------------------------------------------------- observer_collection: any number of observers
typedef observer_collection< double , double > coll; typedef coll::observer_type fn;
static const fn* g_base; static long g_n , g_calls; static const double* g_x; static double g_t;
extern "C" void spec_observer( const fn *f , const double &x , const double &t )
{
    irv_assert( g_calls < g_n , "no observer is called twice" );
    irv_assert( f == g_base + g_calls , "the observers are called in the order they were registered" );
    irv_assert( ( &x == g_x ) & irv_same( t , g_t ) , "with the given state and time" );
    ++g_calls;
}
IRV_HARNESS( C22_observers )
{
    if( irv_native() ) return;
    irv_contract( "boost::function2<void, double const&, double const&>::operator()" , "spec_observer" );
    double x = irv_real( "x" ); g_t = irv_real( "t" ); g_x = &x; g_calls = 0; g_n = irv_nat( "n" , 0 , 9 );
    fn *p = (fn*) ::operator new( g_n * sizeof( fn ) ); g_base = p;
    coll c; struct rep { fn *b , *e , *s; } r = { p , p + g_n , p + g_n }; __builtin_memcpy( (void*) &c.m_observers , &r , sizeof r );
    c( x , g_t );
    irv_assert( g_calls == g_n , "every observer is called once" );
    irv_cover( "end" );
    struct rep z = { 0 , 0 , 0 }; __builtin_memcpy( (void*) &c.m_observers , &z , sizeof z );
}
// the same with registered function objects and the real boost::function (three observers)
static int g_order; static double g_seen[3]; 
struct Obs { int id; void operator()( const double &x , const double &t ) const { irv_assert( g_order == id , "the observers are called in the order they were registered" ); irv_assert( ( &x == g_x ) & irv_same( t , g_t ) , "with the given state and time" ); ++g_order; } };
IRV_HARNESS( C22_observers_registered )
{
    coll c; double x = irv_real( "x" ); g_x = &x; int n = irv_choose( "observers" , 4 );
    for( int i = 0 ; i < n ; ++i ) { Obs o = { i }; c.observers().push_back( fn( o ) ); }
    for( int r = 0 ; r < 2 ; ++r ) { g_order = 0; g_t = irv_real( "t" ); c( x , g_t ); irv_assert( g_order == n , "every observer is called once" ); }
    irv_assert( static_cast< const coll& >( c ).observers().size() == (std::size_t) n , "the observers stay registered" );
    irv_cover( "end" );
}
