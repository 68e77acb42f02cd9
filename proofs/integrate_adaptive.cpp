// C08: adaptive integration
#include <utility>
#include <vector>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include "spec_steppers.hpp"
#ifndef HP
#define HP( x ) IRV_HARNESS( C08_##x )
#endif
using namespace boost::numeric::odeint;
struct Obs
{
    TAG void operator()( const double &x , double t ) const
    {
        CHK_ID( this , g_id_obs , "observer" )
        irv_assert( irv_eq( x , g_x ) , "observer gets the current state" );
        irv_assert( near( t , g_t ) , "observer gets the time of that state" );
        irv_assert( g_since == ( g_obs == 0 ? 0 : 1 ) , "exactly one accepted step between two observations" );
        CHK_OBS g_obs++; g_since = 0;
    }
};
extern "C" bool irv_inv_row( void ) { return g_row <= 500; }
extern "C" bool irv_inv_lim0c( void ) { return g_since <= g_N; }
extern "C" bool irv_inv_near( double a ) { return near( a , g_t ); }
extern "C" bool irv_inv_dtsign( double a ) { return a * g_s > 0; }
extern "C" bool irv_inv_time( double a ) { return irv_eq( a , g_t ); }
extern "C" bool irv_inv_target( double a ) { return ( a - g_end ) * g_s <= EPS; }
extern "C" bool irv_inv_dts( void ) { return g_dts * g_s > 0; }
extern "C" bool irv_inv_stepdts( void ) { return ( g_dts * g_s > 0 ) | ( ( ( g_t - g_end ) * g_s <= EPS ) & ( ( g_end - g_t ) * g_s <= EPS ) ); }
extern "C" bool irv_inv_notpast( void ) { return ( g_t - g_end ) * g_s <= EPS; }
extern "C" bool irv_inv_notpast2( void ) { return ( g_t - g_end ) * g_s <= EPS || g_obs == 0; }
extern "C" bool irv_inv_cnt( void ) { return g_obs == g_steps + 1 && g_since == 0; }
extern "C" bool irv_inv_cnt2( void ) { return g_obs == g_steps && g_since == ( g_obs == 0 ? 0 : 1 ); }
extern "C" bool irv_inv_cnt3( void ) { return ( g_obs == g_steps ) & ( ( g_since == 1 ) | ( ( g_obs == 0 ) & ( g_since == 0 ) ) ); }

template< class S > static void adaptive( double s , bool plain )
{
    double x = irv_real( "x0" ) , t = irv_real( "t0" ) , dt = irv_real( "dt" ) , e = irv_real( "t1" );
    if( irv_native() ) { dt = s * ( absd( dt ) + 0.01 ); e = t + s * absd( e ) * 3; if( irv_bool( "exact" ) ) e = t + irv_int( "m" , 0 , 5 ) * dt; }
    irv_assume( dt * s > 8*EPS );
    irv_assume( ( e - t ) * s >= 0 );
    ghost_init( x , t , s ); CHK_INIT g_t0 = t; g_dt = dt; g_end = e; g_has_limit = true; g_limit = e;
    size_t r;
    try { r = integrate_adaptive( ST( S ) , SYS , x , t , e , dt , OBS CHK ); } CHK_CATCH
    irv_assert( irv_eq( x , g_x ) , "state variable holds the final state" );
    irv_assert( near( g_t , e ) , "integration ends at the end time" );
    irv_assert( g_obs == g_steps + 1 , "observer called once at the start and once per step" );
    irv_assert( (long) r == g_steps , "returns the number of steps" );
    irv_cover( "end" );
}
template< class S > static void reversed( double s )
{
    double x = irv_real( "x0" ) , x0 = x , t = irv_real( "t0" ) , dt = irv_real( "dt" ) , e = irv_real( "t1" );
    if( irv_native() ) { dt = s * ( absd( dt ) + 0.01 ); e = t - s * absd( e ) * 3; if( irv_bool( "exact" ) ) e = t; }
    irv_assume( dt * s > 8*EPS );
    irv_assume( ( e - t ) * s <= 0 );
    ghost_init( x , t , s ); CHK_INIT g_t0 = t; g_dt = dt; g_end = e;
    size_t r = integrate_adaptive( ST( S ) , SYS , x , t , e , dt , OBS CHK );
    irv_assert( g_tries == 0 , "no step is made" );
    irv_assert( r == 0 , "returns zero" );
    irv_assert( g_obs == 1 , "initial state observed once" );
    irv_assert( irv_eq( x , x0 ) , "state unchanged" );
    irv_cover( "end" );
}
HPF( plain ) { adaptive< SpecStepper >( 1 , true ); }
HPB( plain ) { adaptive< SpecStepper >( -1 , true ); }
HPF( controlled ) { adaptive< SpecControlled >( 1 , false ); }
HPB( controlled ) { adaptive< SpecControlled >( -1 , false ); }
HPF( dense ) { adaptive< SpecDense >( 1 , false ); }
HPB( dense ) { adaptive< SpecDense >( -1 , false ); }
HPF( empty_plain ) { reversed< SpecStepper >( 1 ); }
HPB( empty_plain ) { reversed< SpecStepper >( -1 ); }
HPF( empty_controlled ) { reversed< SpecControlled >( 1 ); }
HPB( empty_controlled ) { reversed< SpecControlled >( -1 ); }
HPF( empty_dense ) { reversed< SpecDense >( 1 ); }
HPB( empty_dense ) { reversed< SpecDense >( -1 ); }
