// C09: integration to a sequence of times
#include <utility>
#include <vector>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include "spec_steppers.hpp"
#include "spec_times.hpp"
#ifndef HP
#define HP( x ) IRV_HARNESS( C09_##x )
#endif
using namespace boost::numeric::odeint;
static bool g_dense;
struct Obs
{
    TAG void operator()( const double &x , double t ) const
    {
        CHK_ID( this , g_id_obs , "observer" )
        irv_assert( g_obs < g_n , "observer not called more often than there are times" );
        irv_assert( irv_eq( t , tm( g_obs ) ) , "observer called at the requested times, in order" );
        irv_assert( solution_at( x , t ) , "observer gets the solution at that time" );
        CHK_OBS g_obs++; g_since = 0;
        g_has_limit = g_obs < g_n; if( g_has_limit ) g_limit = g_dense ? tm( g_n - 1 ) : tm( g_obs );
    }
};
extern "C" bool irv_inv_near( double a ) { return near( a , g_t ); }
extern "C" bool irv_inv_time( double a ) { return irv_eq( a , g_t ); }
extern "C" bool irv_inv_dtsign( double a ) { return a * g_s > 0; }
extern "C" bool irv_inv_row( void ) { return g_row <= 500; }
extern "C" bool irv_inv_lim0c( void ) { return g_since <= g_N; }
extern "C" bool irv_inv_eqt( double a , long k ) { return ( k == 0 ) | irv_eq( a , g_t ); }
extern "C" bool irv_inv_eqt2( double a ) { return irv_eq( a , g_t ) | ( irv_eq( a , tm( g_obs - 1 ) ) & near( g_t , tm( g_obs - 1 ) ) ); }
extern "C" bool irv_inv_cur( void ) { return near( g_t , tm( g_obs ) ); }
extern "C" bool irv_inv_cur1( void ) { return near( g_t , tm( g_obs - 1 ) ); }
extern "C" bool irv_inv_keep( double a ) { return ( g_keep - a ) * g_s <= 0; }
extern "C" bool irv_inv_keepf( double a ) { return !g_failed | irv_eq( a , g_keep ); }
extern "C" bool irv_inv_notpast( double a ) { return ( a - tm( g_obs ) ) * g_s <= EPS; }
extern "C" bool irv_inv_notpast_last( void ) { return ( g_t - tm( g_n - 1 ) ) * g_s <= EPS; }
extern "C" bool irv_inv_lim( void ) { return irv_eq( g_limit , g_dense ? tm( g_n - 1 ) : tm( g_obs ) ) & g_has_limit; }
extern "C" bool irv_inv_lim1( void ) { return ( g_obs >= g_n ) | ( irv_eq( g_limit , g_dense ? tm( g_n - 1 ) : tm( g_obs ) ) & g_has_limit ); }
extern "C" bool irv_inv_cureq( double a ) { return irv_eq( a , tm( g_obs - 1 ) ) & near( g_t , tm( g_obs - 1 ) ); }
extern "C" bool irv_inv_lim0( void ) { return irv_eq( g_limit , tm( g_n - 1 ) ) | !g_has_limit; }
extern "C" bool irv_inv_dts( void ) { return g_dts * g_s > 0; }
extern "C" bool irv_inv_valid( void ) { return g_valid | ( irv_eq( g_t , tm( 0 ) ) & irv_eq( tm( g_obs - 1 ) , tm( 0 ) ) ); }
extern "C" bool irv_inv_valid2( void ) { return g_valid | ( irv_eq( g_t , tm( 0 ) ) & ( ( g_obs >= g_n ) | ( ( tm( g_obs ) - g_t ) * g_s > EPS ) ) ); }
extern "C" bool irv_inv_prev( void ) { return ( g_prev - g_t ) * g_s <= 0; }
extern "C" bool irv_inv_prev_last( void ) { return ( g_obs >= g_n ) | ( ( g_prev - tm( g_obs ) ) * g_s <= EPS ); }
extern "C" bool irv_inv_obs_n( void ) { return g_obs <= g_n; }
extern "C" bool irv_inv_cx( double a ) { return irv_eq( a , g_cx ) & near( g_ct , tm( g_obs - 1 ) ); }
extern "C" bool irv_inv_sol( double a ) { return irv_eq( a , g_x ); }

template< class S > static void times( double s , bool track , bool dense )
{
    double x = irv_real( "x0" ) , dt = irv_real( "dt" );
    if( irv_native() ) dt = s * ( absd( dt ) + 0.01 );
    irv_assume( dt * s > 8*EPS );
    g_s = s; g_t0 = irv_native() ? irv_real( "t0" ) : 0; g_n = irv_nat( "n" , 1 , 8 ); g_dense = dense;
    ghost_init( x , tm( 0 ) , s ); CHK_INIT g_dt = dt; g_track = track; g_keep = dt;
    size_t r;
    try { r = integrate_times( ST( S ) , SYS , x , TimeIter( 0 ) , TimeIter( g_n ) , dt , OBS CHK ); } CHK_CATCH
    irv_assert( g_obs == g_n , "observer called exactly once per time" );
    irv_assert( (long) r == g_steps , "returns the number of steps" );
    irv_assert( solution_at( x , tm( g_n - 1 ) ) , "state variable holds the solution at the last time" );
    irv_cover( "end" );
}
HPF( plain ) { times< SpecStepper >( 1 , false , false ); }
HPB( plain ) { times< SpecStepper >( -1 , false , false ); }
HPF( controlled ) { times< SpecControlled >( 1 , true , false ); }
HPB( controlled ) { times< SpecControlled >( -1 , true , false ); }
HPF( dense ) { times< SpecDense >( 1 , false , true ); }
HPB( dense ) { times< SpecDense >( -1 , false , true ); }
