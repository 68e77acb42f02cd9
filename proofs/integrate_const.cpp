// C07: constant-step and n-step integration
#include <utility>
#include <vector>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include "spec_steppers.hpp"
#ifndef HP
#define HP( x ) IRV_HARNESS( C07_##x )
#endif
using namespace boost::numeric::odeint;
struct Obs
{
    TAG void operator()( const double &x , double t ) const
    {
        CHK_ID( this , g_id_obs , "observer" )
        irv_assert( irv_eq( t , g_t0 + g_obs * g_dt ) , "observer called at t0 + i*dt, in order" );
        irv_assert( solution_at( x , t ) , "observer gets the solution at that time" );
        CHK_OBS g_obs++; g_since = 0;
    }
};
static long g_n;
// candidate loop invariants (kept only where they are inductive)
extern "C" bool irv_inv_row( void ) { return g_row <= 500; }
extern "C" bool irv_inv_lim0c( void ) { return g_since <= g_N; }
extern "C" bool irv_inv_near( double a ) { return near( a , g_t ); }
extern "C" bool irv_inv_dtsign( double a ) { return a * g_s > 0; }
extern "C" bool irv_inv_next( double a ) { return irv_eq( a , g_t0 + g_obs * g_dt ); }
extern "C" bool irv_inv_target( double a ) { return ( a - ( g_t0 + g_obs * g_dt ) ) * g_s <= EPS; }
extern "C" bool irv_inv_dts( void ) { return ( g_dts * g_s > 0 ) | !g_init; }
extern "C" bool irv_inv_valid( void ) { return g_valid | ( irv_eq( g_t , g_t0 ) & ( g_obs <= 1 ) ); }
extern "C" bool irv_inv_prev( void ) { return ( g_prev - g_t ) * g_s <= 0; }
extern "C" bool irv_inv_prev_next( void ) { return ( g_prev - ( g_t0 + g_obs * g_dt ) ) * g_s <= EPS; }
extern "C" bool irv_inv_notpast( void ) { return ( g_t - g_end ) * g_s <= 0; }
extern "C" bool irv_inv_obs_end( void ) { return ( g_t0 + ( g_obs - 1 ) * g_dt - g_end ) * g_s <= EPS; }
extern "C" bool irv_inv_obs_end0( void ) { return ( g_t0 + g_obs * g_dt - g_end ) * g_s <= EPS; }
extern "C" bool irv_inv_obs_n( void ) { return g_obs <= g_n; }
extern "C" bool irv_inv_sol( double a ) { return irv_eq( a , g_x ) & near( g_t , g_t0 + g_obs * g_dt ); }
extern "C" bool irv_inv_sol2( double a ) { return irv_eq( a , g_cx ) & near( g_ct , g_t0 + ( g_obs - 1 ) * g_dt ); }
extern "C" bool irv_inv_eqt( double a , long k ) { return ( k == 0 ) | irv_eq( a , g_t ); }
extern "C" bool irv_inv_sol1( double a ) { return solution_at( a , g_t0 + ( g_obs - 1 ) * g_dt ); }

static void setup( double &x , double &t , double &dt , double s )
{
    x = irv_real( "x0" ); t = irv_real( "t0" ); dt = irv_real( "dt" );
    if( irv_native() ) dt = s * ( absd( dt ) + 0.01 );
    irv_assume( dt * s > 8*EPS );
    ghost_init( x , t , s ); CHK_INIT g_t0 = t; g_dt = dt;
}
template< class S > static void n_steps( double s )
{
    double x , t , dt; setup( x , t , dt , s );
    long n = irv_nat( "n" , 0 , 12 ); g_end = t + n * dt; g_n = n; double r;
    try { r = integrate_n_steps( ST( S ) , SYS , x , t , dt , (size_t) n , OBS CHK ); } CHK_CATCH
    irv_assert( irv_eq( r , t + n * dt ) , "returns t0 + n*dt" );
    irv_assert( g_obs == n + 1 , "observer called n+1 times" );
    irv_assert( irv_eq( x , g_x ) , "state variable holds the final state" );
    irv_assert( near( g_t , t + n * dt ) , "final state belongs to t0 + n*dt" );
    irv_cover( "end" );
}
template< class S > static void constant( double s )
{
    double x , t , dt; setup( x , t , dt , s );
    double e = irv_real( "t1" ); if( irv_native() ) { e = t + s * absd( e ) * 3; if( irv_bool( "exact" ) ) e = t + irv_int( "m" , 0 , 5 ) * dt; }
    irv_assume( ( e - t ) * s >= 0 );
    g_end = e;
    size_t r;
    try { r = integrate_const( ST( S ) , SYS , x , t , e , dt , OBS CHK ); } CHK_CATCH
    double last = t + ( g_obs - 1 ) * dt;
    irv_assert( g_obs >= 1 , "observer called at least once" );
    irv_assert( ( last + dt - e ) * s > 0 , "no observation point inside the interval is missing" );
    irv_assert( ( last - e ) * s <= 8*EPS || irv_le( last * s , e * s ) , "no observation beyond the end" );
    irv_assert( (long) r == g_steps , "returns the number of steps" );
    irv_assert( solution_at( x , last ) , "state variable holds the solution at the last observed time" );
    irv_cover( "end" );
}
#if !defined( IRV_C10 ) && !defined( IRV_C25 )
template< class S > static void constant_plain_extra( double s )
{
    double x , t , dt; setup( x , t , dt , s );
    double e = irv_real( "t1" ); if( irv_native() ) e = t + s * absd( e ) * 3;
    irv_assume( ( e - t ) * s >= 0 ); g_end = e;
    size_t r = integrate_const( ST( S ) , SYS , x , t , e , dt , OBS CHK );
    irv_assert( g_obs == (long) r + 1 , "one step per interval" );
    irv_cover( "end" );
}
#endif
HPF( n_plain ) { n_steps< SpecStepper >( 1 ); }
HPB( n_plain ) { n_steps< SpecStepper >( -1 ); }
HPF( n_controlled ) { n_steps< SpecControlled >( 1 ); }
HPB( n_controlled ) { n_steps< SpecControlled >( -1 ); }
HPF( n_dense ) { n_steps< SpecDense >( 1 ); }
HPB( n_dense ) { n_steps< SpecDense >( -1 ); }
HPF( const_plain ) { constant< SpecStepper >( 1 ); }
HPB( const_plain ) { constant< SpecStepper >( -1 ); }
HPF( const_controlled ) { constant< SpecControlled >( 1 ); }
HPB( const_controlled ) { constant< SpecControlled >( -1 ); }
HPF( const_dense ) { constant< SpecDense >( 1 ); }
HPB( const_dense ) { constant< SpecDense >( -1 ); }
#if !defined( IRV_C10 ) && !defined( IRV_C25 )
HP( const_one_step_per_interval ) { constant_plain_extra< SpecStepper >( 1 ); }
#endif
