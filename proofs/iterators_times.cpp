// C11: iterators and ranges over a sequence of times
#include <utility>
#include <vector>
#include <boost/ref.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include "spec_steppers.hpp"
#include "spec_times.hpp"
using namespace boost::numeric::odeint;
static bool g_dense;
static void visit( const double &x )
{
    irv_assert( g_obs < g_n , "not more elements than times" );
    irv_assert( solution_at( x , tm( g_obs ) ) , "element is the solution at the requested time" );
    g_obs++; g_since = 0;
    g_has_limit = g_obs < g_n; if( g_has_limit ) g_limit = g_dense ? tm( g_n - 1 ) : tm( g_obs );
}
static void visit( const std::pair< const double& , const double& > &p )
{
    irv_assert( near( p.second , tm( g_obs ) ) , "element carries the requested time" );
    visit( p.first );
}
extern "C" bool irv_inv_near( double a ) { return near( a , g_t ); }
extern "C" bool irv_inv_time( double a ) { return irv_eq( a , g_t ); }
extern "C" bool irv_inv_dtsign( double a ) { return a * g_s > 0; }
extern "C" bool irv_inv_row( void ) { return g_row <= 999; }
extern "C" bool irv_inv_curt( double a ) { return irv_eq( a , tm( g_obs ) ); }
extern "C" bool irv_inv_cur( void ) { return near( g_t , tm( g_obs ) ); }
extern "C" bool irv_inv_notpast( double a ) { return ( a - tm( g_obs ) ) * g_s <= EPS; }
extern "C" bool irv_inv_notpast_last( void ) { return ( g_t - tm( g_n - 1 ) ) * g_s <= EPS; }
extern "C" bool irv_inv_lim( void ) { return irv_eq( g_limit , g_dense ? tm( g_n - 1 ) : tm( g_obs ) ) & g_has_limit; }
extern "C" bool irv_inv_lim0( void ) { return irv_eq( g_limit , tm( g_n - 1 ) ) | !g_has_limit; }
extern "C" bool irv_inv_dts( void ) { return ( g_dts * g_s > 0 ) & g_init; }
extern "C" bool irv_inv_valid( void ) { return g_valid | irv_eq( g_t , tm( 0 ) ); }
extern "C" bool irv_inv_prev( void ) { return ( g_prev - g_t ) * g_s <= 0; }
extern "C" bool irv_inv_prev_last( void ) { return ( g_obs >= g_n ) | ( ( g_prev - tm( g_obs ) ) * g_s <= EPS ); }
extern "C" bool irv_inv_prev_last1( void ) { return ( g_obs == 0 ) | ( ( g_prev - tm( g_obs - 1 ) ) * g_s <= EPS ); }
extern "C" bool irv_inv_past( void ) { return ( g_obs >= g_n ) | ( ( tm( g_obs ) - g_t ) * g_s <= EPS ); }
extern "C" bool irv_inv_obs_n( void ) { return g_obs <= g_n; }
extern "C" bool irv_inv_obs_n1( void ) { return g_obs < g_n; }
extern "C" bool irv_inv_sol( double a ) { return irv_eq( a , g_x ); }
extern "C" bool irv_inv_sola( double a ) { return ( g_obs < g_n ) & ( ( irv_eq( a , g_x ) & near( g_t , tm( g_obs ) ) ) | ( irv_eq( a , g_cx ) & near( g_ct , tm( g_obs ) ) ) ); }
template< class It > static void loop( It b , It e ) { for( It i = b ; i != e ; ++i ) visit( *i ); }
struct R { template< class S , class D > static void go( S st , double &x , TimeIter a , TimeIter b , D dt ) { auto r = make_times_range( st , SYS , x , a , b , dt ); loop( r.first , r.second ); } };
struct B { template< class S , class D > static void go( S st , double &x , TimeIter a , TimeIter b , D dt ) { loop( make_times_iterator_begin( st , SYS , x , a , b , dt ) , make_times_iterator_end< TimeIter >( st , SYS , x ) ); } };
struct RT { template< class S , class D > static void go( S st , double &x , TimeIter a , TimeIter b , D dt ) { auto r = make_times_time_range( st , SYS , x , a , b , dt ); loop( r.first , r.second ); } };
struct BT { template< class S , class D > static void go( S st , double &x , TimeIter a , TimeIter b , D dt ) { loop( make_times_time_iterator_begin( st , SYS , x , a , b , dt ) , make_times_time_iterator_end< TimeIter >( st , SYS , x ) ); } };
template< class S , class H > static void times( double s , bool dense , bool empty )
{
    double x = irv_real( "x0" ) , dt = irv_real( "dt" );
    if( irv_native() ) dt = s * ( absd( dt ) + 0.01 );
    irv_assume( dt * s > 8*EPS );
    g_s = s; g_t0 = irv_native() ? irv_real( "t0" ) : 0; g_n = empty ? 0 : irv_nat( "n" , 1 , 8 ); g_dense = dense;
    ghost_init( x , tm( 0 ) , s ); g_maxrow = 999; g_dt = dt;
    double x0 = x;
    try { H::go( ST( S ) , x , TimeIter( 0 ) , TimeIter( g_n ) , dt ); } catch( const std::overflow_error& ) { irv_assert( !dense & ( g_lastrow >= 999 ) , "overflow_error only after 999 consecutive rejections" ); irv_cover( "overflow" ); return; }
    irv_assert( g_obs == g_n , "one element per time" );
    if( empty ) { irv_assert( g_steps == 0 , "no step for an empty sequence of times" ); irv_assert( irv_same( x , x0 ) , "state untouched for an empty sequence of times" ); }
    else irv_assert( solution_at( x , tm( g_n - 1 ) ) , "state variable holds the solution at the last time" );
    irv_cover( "end" );
}
#ifndef HP
#define HP( x ) IRV_HARNESS( C11_##x )
#endif
#define BOTH( N , S , H , D ) HPF( N ) { times< S , H >( 1 , D , false ); } HPB( N ) { times< S , H >( -1 , D , false ); } HP( N##_empty ) { times< S , H >( 1 , D , true ); }
#if defined( IRV_C25 ) && IRV_C25 == 1
#define ALL( N , S , D ) BOTH( N##_range , S , R , D )
#elif defined( IRV_C25 )
#define ALL( N , S , D ) BOTH( N##_time_begin_end , S , BT , D )
#else
#define ALL( N , S , D ) BOTH( N##_range , S , R , D ) BOTH( N##_begin_end , S , B , D ) BOTH( N##_time_range , S , RT , D ) BOTH( N##_time_begin_end , S , BT , D )
#endif
ALL( times_plain , SpecStepper , false )
ALL( times_controlled , SpecControlled , false )
ALL( times_dense , SpecDense , true )
