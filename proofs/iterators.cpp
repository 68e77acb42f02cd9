// C11: iterators and ranges over constant-step, n-step and adaptive integration
#include <utility>
#include <vector>
#include <boost/ref.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include "spec_steppers.hpp"
using namespace boost::numeric::odeint;
static long g_n; static bool g_adaptive;
// one visited element
static void visit( const double &x )
{
    if( g_adaptive )
    {
        irv_assert( irv_eq( x , g_x ) , "element is the current state" );
        irv_assert( g_since == ( g_obs == 0 ? 0 : 1 ) , "exactly one accepted step between two elements" );
    }
    else irv_assert( solution_at( x , g_t0 + g_obs * g_dt ) , "element is the solution at t0 + i*dt" );
    g_obs++; g_since = 0;
}
static void visit( const std::pair< const double& , const double& > &p )
{
    if( g_adaptive ) irv_assert( near( p.second , g_t ) , "element carries the time of its state" );
    else irv_assert( irv_eq( p.second , g_t0 + g_obs * g_dt ) , "element carries the time t0 + i*dt" );
    visit( p.first );
}
extern "C" bool irv_inv_row( void ) { return g_row <= 999; }
extern "C" bool irv_inv_near( double a ) { return near( a , g_t ); }
extern "C" bool irv_inv_time( double a ) { return irv_eq( a , g_t ); }
extern "C" bool irv_inv_dtsign( double a ) { return a * g_s > 0; }
extern "C" bool irv_inv_target( double a ) { return ( a - g_end ) * g_s <= EPS; }
extern "C" bool irv_inv_target2( double a ) { return ( a - ( g_t0 + g_obs * g_dt ) ) * g_s <= EPS; }
extern "C" bool irv_inv_dts( void ) { return ( g_dts * g_s > 0 ) & g_init; }
extern "C" bool irv_inv_valid( void ) { return g_valid | ( irv_eq( g_t , g_t0 ) & ( g_obs <= 1 ) ); }
extern "C" bool irv_inv_valid0( void ) { return g_valid | ( irv_eq( g_t , g_t0 ) & ( g_obs == 0 ) ); }
extern "C" bool irv_inv_prev( void ) { return ( g_prev - g_t ) * g_s <= 0; }
extern "C" bool irv_inv_prev_next( void ) { return ( g_prev - ( g_t0 + g_obs * g_dt ) ) * g_s <= EPS; }
extern "C" bool irv_inv_notpast( void ) { return ( g_t - g_end ) * g_s <= EPS; }
extern "C" bool irv_inv_obs_end( void ) { return ( g_obs == 0 ) | ( ( g_t0 + ( g_obs - 1 ) * g_dt - g_end ) * g_s <= EPS ); }
extern "C" bool irv_inv_obs_end0( void ) { return ( g_t0 + g_obs * g_dt - g_end ) * g_s <= EPS; }
extern "C" bool irv_inv_obs_n( void ) { return g_obs <= g_n; }
extern "C" bool irv_inv_reach( void ) { return ( g_obs == 0 ) | ( ( g_t - ( g_t0 + ( g_obs - 1 ) * g_dt ) ) * g_s >= -EPS ); }
extern "C" bool irv_inv_sol( double a ) { return irv_eq( a , g_x ) & near( g_t , g_t0 + g_obs * g_dt ); }
extern "C" bool irv_inv_cur( double a ) { return irv_eq( a , g_x ); }
extern "C" bool irv_inv_sol1( double a ) { return solution_at( a , g_t0 + g_obs * g_dt ); }
extern "C" bool irv_inv_sol2( double a ) { return solution_at( a , g_t0 + ( g_obs - 1 ) * g_dt ); }
extern "C" bool irv_inv_cnt( void ) { return ( g_obs == g_steps ) & ( ( g_since == 1 ) | ( ( g_obs == 0 ) & ( g_since == 0 ) ) ); }
static void setup( double &x , double &t , double &dt , double s )
{
    x = irv_real( "x0" ); t = irv_real( "t0" ); dt = irv_real( "dt" );
    if( irv_native() ) dt = s * ( absd( dt ) + 0.01 );
    irv_assume( dt * s > 8*EPS );
    ghost_init( x , t , s ); g_t0 = t; g_dt = dt; g_maxrow = 999; g_adaptive = false;
}
static double endtime( double t , double dt , double s )
{ double e = irv_real( "t1" ); if( irv_native() ) { e = t + s * absd( e ) * 3; if( irv_bool( "exact" ) ) e = t + irv_int( "m" , 0 , 5 ) * dt; } irv_assume( ( e - t ) * s >= 0 ); g_end = e; return e; }
template< class It > static void loop( It b , It e ) { for( It i = b ; i != e ; ++i ) visit( *i ); }
template< class It > static void loop_post( It i , It e ) { while( !( i == e ) ) { visit( *i ); i++; } }
// how the elements are obtained
struct R { template< class S > static void n( S st , double &x , double t , double dt , long n ) { auto r = make_n_step_range( st , SYS , x , t , dt , (size_t) n ); loop( r.first , r.second ); }
    template< class S > static void c( S st , double &x , double t , double e , double dt ) { auto r = make_const_step_range( st , SYS , x , t , e , dt ); loop( r.first , r.second ); }
    template< class S > static void a( S st , double &x , double t , double e , double dt ) { auto r = make_adaptive_range( st , SYS , x , t , e , dt ); loop( r.first , r.second ); } };
struct B { template< class S > static void n( S st , double &x , double t , double dt , long n ) { loop_post( make_n_step_iterator_begin( st , SYS , x , t , dt , (size_t) n ) , make_n_step_iterator_end( st , SYS , x ) ); }
    template< class S > static void c( S st , double &x , double t , double e , double dt ) { loop_post( make_const_step_iterator_begin( st , SYS , x , t , e , dt ) , make_const_step_iterator_end( st , SYS , x ) ); }
    template< class S > static void a( S st , double &x , double t , double e , double dt ) { loop_post( make_adaptive_iterator_begin( st , SYS , x , t , e , dt ) , make_adaptive_iterator_end( st , SYS , x ) ); } };
struct RT { template< class S > static void n( S st , double &x , double t , double dt , long n ) { auto r = make_n_step_time_range( st , SYS , x , t , dt , (size_t) n ); loop( r.first , r.second ); }
    template< class S > static void c( S st , double &x , double t , double e , double dt ) { auto r = make_const_step_time_range( st , SYS , x , t , e , dt ); loop( r.first , r.second ); }
    template< class S > static void a( S st , double &x , double t , double e , double dt ) { auto r = make_adaptive_time_range( st , SYS , x , t , e , dt ); loop( r.first , r.second ); } };
struct BT { template< class S > static void n( S st , double &x , double t , double dt , long n ) { loop( make_n_step_time_iterator_begin( st , SYS , x , t , dt , (size_t) n ) , make_n_step_time_iterator_end( st , SYS , x ) ); }
    template< class S > static void c( S st , double &x , double t , double e , double dt ) { loop( make_const_step_time_iterator_begin( st , SYS , x , t , e , dt ) , make_const_step_time_iterator_end( st , SYS , x ) ); }
    template< class S > static void a( S st , double &x , double t , double e , double dt ) { loop( make_adaptive_time_iterator_begin( st , SYS , x , t , e , dt ) , make_adaptive_time_iterator_end( st , SYS , x ) ); } };
template< class S , class H > static void n_steps( double s )
{
    double x , t , dt; setup( x , t , dt , s ); S st;
    long n = irv_nat( "n" , 0 , 12 ); g_end = t + n * dt; g_n = n + 1;
    H::n( ST( S ) , x , t , dt , n );
    irv_assert( g_obs == n + 1 , "n+1 elements" );
    irv_assert( solution_at( x , t + n * dt ) , "state variable holds the solution of the last element" );
    irv_cover( "end" );
}
template< class S , class H > static void constant( double s )
{
    double x , t , dt; setup( x , t , dt , s ); double e = endtime( t , dt , s );
    H::c( ST( S ) , x , t , e , dt );
    double last = t + ( g_obs - 1 ) * dt;
    irv_assert( g_obs >= 1 , "at least one element" );
    irv_assert( ( last + dt - e ) * s > 0 , "no element inside the interval is missing" );
    irv_assert( ( last - e ) * s <= 8*EPS || irv_le( last * s , e * s ) , "no element beyond the end" );
    irv_assert( solution_at( x , last ) , "state variable holds the solution of the last element" );
    irv_cover( "end" );
}
template< class S , class H > static void adaptive( double s , bool dense )
{
    double x , t , dt; setup( x , t , dt , s ); double e = endtime( t , dt , s ); g_adaptive = true; g_has_limit = true; g_limit = e;
    try { H::a( ST( S ) , x , t , e , dt ); } catch( const std::overflow_error& ) { irv_assert( !dense & ( g_lastrow >= 999 ) , "overflow_error only after 999 consecutive rejections" ); irv_cover( "overflow" ); return; }
    irv_assert( near( g_t , e ) , "the last element is the solution at the end time" );
    irv_assert( g_obs == g_steps + 1 , "one element at the start and one per step" );
    if( !dense ) irv_assert( irv_eq( x , g_x ) , "state variable holds the final state" );
    irv_cover( "end" );
}
#define COMMA ,
#ifndef HP
#define HP( x ) IRV_HARNESS( C11_##x )
#endif
#define BOTH( N , F , S , H , ... ) HPF( N ) { F< S , H >( 1 __VA_ARGS__ ); } HPB( N ) { F< S , H >( -1 __VA_ARGS__ ); }
#if defined( IRV_C25 ) && IRV_C25 == 1
#define ALL( N , F , S , ... ) BOTH( N##_range , F , S , R , ##__VA_ARGS__ )
#elif defined( IRV_C25 )
#define ALL( N , F , S , ... ) BOTH( N##_time_begin_end , F , S , BT , ##__VA_ARGS__ )
#else
#define ALL( N , F , S , ... ) BOTH( N##_range , F , S , R , ##__VA_ARGS__ ) BOTH( N##_begin_end , F , S , B , ##__VA_ARGS__ ) BOTH( N##_time_range , F , S , RT , ##__VA_ARGS__ ) BOTH( N##_time_begin_end , F , S , BT , ##__VA_ARGS__ )
#endif
ALL( n_plain , n_steps , SpecStepper )
ALL( n_dense , n_steps , SpecDense )
ALL( const_plain , constant , SpecStepper )
ALL( const_dense , constant , SpecDense )
ALL( adaptive_controlled , adaptive , SpecControlled , COMMA false )
ALL( adaptive_dense , adaptive , SpecDense , COMMA true )
