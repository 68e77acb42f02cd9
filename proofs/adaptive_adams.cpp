// C14: adaptive Adams-Bashforth-Moulton stepper and its controlled version
#include <utility>
#include <vector>
#include <cmath>
#include <boost/array.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/util/copy.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/detail/pid_step_adjuster_coefficients.hpp>
#include <boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include "irv.h"
using namespace boost::numeric::odeint;
typedef boost::array< double , 1 > A1;
template< size_t K > using ST = adaptive_adams_bashforth_moulton< K , A1 , double , A1 , double , array_algebra , default_operations >;
// arbitrary reals; native runs (rounded arithmetic) take moderate values
static double mod( double v , double m ) { return v - m * (double) (long) ( v / m ); }
static double val( const char *n ) { double v = irv_real( n ); return irv_native() ? mod( v , 3 ) : v; }
static double len( const char *n , int dir ) { double v = irv_real( n ); if( irv_native() ) { v = mod( v , 1 ); v = dir * ( 0.25 + ( v < 0 ? -v : v ) ); } return v; }
static double ipow( double b , int e ) { double r = 1; for( int i = 0 ; i < e ; ++i ) r *= b; return r; }
// the derivative t^d; calls recorded
static int g_d , g_n; static double g_cx[ 4 ] , g_ct[ 4 ];
struct Mono { void operator()( const A1 &x , A1 &d , double t ) const { if( g_n < 4 ) { g_cx[ g_n ] = x[ 0 ]; g_ct[ g_n ] = t; } ++g_n; d[ 0 ] = ipow( t , g_d ); } };
// complete homogeneous polynomial = divided difference of t^(m+n-1) over n points
static double hom( int m , const double *p , int n ) { if( m < 0 ) return 0; if( n == 1 ) return ipow( p[ 0 ] , m ); double r = 0; for( int a = 0 ; a <= m ; ++a ) r += ipow( p[ 0 ] , a ) * hom( m - a , p + 1 , n - 1 ); return r; }
// modified divided difference phi_i of t^d over the grid p[0], p[1], ...
static double phi( int i , const double *p , int d ) { double r = hom( d - i , p , i + 1 ); for( int j = 1 ; j <= i ; ++j ) r = r * ( p[ 0 ] - p[ j ] ); return r; }
static double ramp( double a , double b , int d ) { return ( ipow( b , d + 1 ) - ipow( a , d + 1 ) ) / ( d + 1 ); }
// the grid time one step before the first one is read but without effect (m_eo >= m_ns always): any value
template< class C > static void first_time( C &c , int K ) { for( int i = 0 ; i <= K ; ++i ) c.m_time_storage[ i ] = val( "garbage" ); }
// Invariant of the stepper between steps: s start-up counter, eo effective order, times of the last s-1 steps and phi_0 .. phi_R of the derivative history, R >= eo-1
static double g_t[ 8 ];
template< class C > static void arbitrary( C &c , int K , int s , int eo , int dir )
{
    for( int i = 0 ; i < s ; ++i ) { g_t[ i ] = val( "t" ); if( irv_native() && i ) g_t[ i ] = g_t[ i - 1 ] - dir * ( 0.25 + mod( g_t[ i ] < 0 ? -g_t[ i ] : g_t[ i ] , 1 ) ); if( i ) irv_assume( dir * ( g_t[ i - 1 ] - g_t[ i ] ) > 0.001 ); }
    c.m_eo = eo; c.m_steps_init = s; c.m_time_storage[ 0 ] = val( "garbage" );
    for( int i = 1 ; i <= K ; ++i ) c.m_time_storage[ i ] = i < s ? g_t[ i ] : val( "garbage" );
    for( int i = 0 ; i < K + 2 ; ++i ) { c.phi[ 0 ][ i ].m_v[ 0 ] = val( "garbage" ); c.phi[ 2 ][ i ].m_v[ 0 ] = val( "garbage" ); c.phi[ 1 ][ i ].m_v[ 0 ] = s > 1 && i < eo ? phi( i , g_t , g_d ) : val( "garbage" ); }
    for( int i = 1 ; i < K + 1 ; ++i ) { c.beta[ 0 ][ i ] = val( "garbage" ); c.beta[ 1 ][ i ] = val( "garbage" ); }
    for( int i = 2 ; i < K + 2 ; ++i ) c.g[ i ] = val( "garbage" );
}
// after a step of size dt taken with effective order eo: everything above holds again with R = eo
template< class C > static void shifted( C &c , int K , int s , int eo , double dt )
{
    double p[ 9 ]; p[ 0 ] = g_t[ 0 ] + dt; for( int i = 0 ; i < s ; ++i ) p[ i + 1 ] = g_t[ i ];
    bool ok = true; for( int i = 1 ; i <= s && i <= K ; ++i ) ok = ok & irv_same( c.m_time_storage[ i ] , p[ i ] );
    irv_assert( ok , "times of the last steps" );
    for( int i = 0 ; i <= eo ; ++i ) irv_assert( irv_eq( c.phi[ 1 ][ i ].m_v[ 0 ] , phi( i , p , g_d ) ) , "modified divided differences of the derivative history" );
    irv_assert( ( c.m_steps_init == (size_t) ( s < K + 1 ? s + 1 : s ) ) & ( c.m_ns == 0 ) & irv_same( c.beta[ 0 ][ 0 ] , 1 ) & irv_same( c.beta[ 1 ][ 0 ] , 1 ) , "start-up counter" );
}
template< size_t K > static void step( int s , int eo )
{
    g_d = irv_choose( "degree" , eo + 1 ); int dir = irv_choose( "backward" , 2 ) ? -1 : 1;
    ST< K > st; if( s == 1 && irv_choose( "after reset" , 2 ) ) { arbitrary( st.coeff() , K , K + 1 , K , dir ); st.reset(); g_t[ 0 ] = val( "t" ); } else arbitrary( st.coeff() , K , s , eo , dir ); double dt = len( "dt" , dir ); irv_assume( dir * dt > 0.001 );
    A1 x , out , xe; x[ 0 ] = val( "x" ); double x0 = x[ 0 ]; out[ 0 ] = irv_real( "old" ); xe[ 0 ] = irv_real( "old" ); g_n = 0; double t = g_t[ 0 ];
    int ov = irv_choose( "overload" , 4 );
    if( ov == 0 ) { st.do_step( Mono() , x , t , out , dt , xe ); irv_assert( irv_same( x[ 0 ] , x0 ) , "input untouched" ); }
    else if( ov == 1 ) { st.do_step( Mono() , x , t , out , dt ); irv_assert( irv_same( x[ 0 ] , x0 ) , "input untouched" ); }
    else if( ov == 2 ) { st.do_step( Mono() , x , t , dt , xe ); out = x; }
    else { st.do_step( Mono() , x , t , dt ); out = x; }
    int f = s == 1 ? 1 : 0;
    irv_assert( g_n == f + 2 , "evaluations" );
    if( f ) irv_assert( irv_same( g_cx[ 0 ] , x0 ) & irv_same( g_ct[ 0 ] , t ) , "first step evaluates the start" );
    irv_assert( irv_eq( g_ct[ f ] , t + dt ) & irv_eq( g_ct[ f + 1 ] , t + dt ) & irv_same( g_cx[ f + 1 ] , out[ 0 ] ) , "predicted and corrected state are evaluated at the end of the step" );
    if( g_d < eo ) irv_assert( irv_eq( g_cx[ f ] , x0 + ramp( t , t + dt , g_d ) ) , "prediction exact below the effective order" );
    irv_assert( irv_eq( out[ 0 ] , x0 + ramp( t , t + dt , g_d ) ) , "correction exact up to the effective order" );
    if( ov == 0 || ov == 2 ) irv_assert( irv_eq( xe[ 0 ] , out[ 0 ] - g_cx[ f ] ) , "error estimate is the last correction" );
    shifted( st.coeff() , K , s , eo , dt );
    irv_assert( st.coeff().m_eo == (size_t) ( eo < (int) K ? eo + 1 : eo ) , "effective order rises up to the template order" );
    irv_cover( "end" );
}
#define STEP( K , S , E ) IRV_HARNESS( C14_step_##K##_##S##_##E ) { step< K >( S , E ); }
STEP( 1 , 1 , 1 ) STEP( 1 , 2 , 1 )
STEP( 2 , 1 , 1 ) STEP( 2 , 2 , 1 ) STEP( 2 , 2 , 2 ) STEP( 2 , 3 , 1 ) STEP( 2 , 3 , 2 )
STEP( 3 , 1 , 1 ) STEP( 3 , 2 , 1 ) STEP( 3 , 2 , 2 ) STEP( 3 , 3 , 1 ) STEP( 3 , 3 , 2 ) STEP( 3 , 3 , 3 ) STEP( 3 , 4 , 1 ) STEP( 3 , 4 , 2 ) STEP( 3 , 4 , 3 )
STEP( 4 , 1 , 1 ) STEP( 4 , 2 , 1 ) STEP( 4 , 2 , 2 ) STEP( 4 , 3 , 1 ) STEP( 4 , 3 , 2 ) STEP( 4 , 3 , 3 ) STEP( 4 , 4 , 1 ) STEP( 4 , 4 , 2 ) STEP( 4 , 4 , 3 ) STEP( 4 , 4 , 4 ) STEP( 4 , 5 , 1 ) STEP( 4 , 5 , 2 ) STEP( 4 , 5 , 3 ) STEP( 4 , 5 , 4 )
STEP( 5 , 1 , 1 ) STEP( 5 , 2 , 1 ) STEP( 5 , 2 , 2 ) STEP( 5 , 3 , 1 ) STEP( 5 , 3 , 2 ) STEP( 5 , 3 , 3 ) STEP( 5 , 4 , 1 ) STEP( 5 , 4 , 2 ) STEP( 5 , 4 , 3 ) STEP( 5 , 4 , 4 ) STEP( 5 , 5 , 1 ) STEP( 5 , 5 , 2 ) STEP( 5 , 5 , 3 ) STEP( 5 , 5 , 4 ) STEP( 5 , 5 , 5 ) STEP( 5 , 6 , 1 ) STEP( 5 , 6 , 2 ) STEP( 5 , 6 , 3 ) STEP( 5 , 6 , 4 ) STEP( 5 , 6 , 5 )

// initialisation: start-up history of K steps of size dt/K
static double g_xs[ 8 ]; static int g_is;
struct Explicit   // contract of the initialising stepper: one step from the state with its derivative
{
    template< class S , class D > void do_step_dxdt_impl( S , A1 &x , const D &d , double t , double dt ) { irv_assert( irv_eq( d[ 0 ] , ipow( t , g_d ) ) , "initialising stepper gets the derivative of its start state" ); x[ 0 ] = irv_real( "explicit" ); g_xs[ g_is++ ] = x[ 0 ]; }
};
template< class C > static void started( C &c , int K , double t0 , double h , int R )
{
    double p[ 9 ]; for( int i = 0 ; i <= K ; ++i ) p[ i ] = t0 + ( K - i ) * h;
    bool ok = true; for( int i = 1 ; i <= K ; ++i ) ok = ok & irv_eq( c.m_time_storage[ i ] , p[ i ] );
    irv_assert( ok , "times of the start-up steps" );
    for( int i = 0 ; i <= R ; ++i ) irv_assert( irv_eq( c.phi[ 1 ][ i ].m_v[ 0 ] , phi( i , p , g_d ) ) , "modified divided differences of the start-up history" );
    irv_assert( ( c.m_eo == (size_t) K ) & ( c.m_steps_init == (size_t) K + 1 ) & ( c.m_ns == 0 ) , "full order after the start-up" );
}
template< size_t K > static void init( bool own )
{
    g_d = irv_choose( "degree" , own ? 2 : K ); int dir = irv_choose( "backward" , 2 ) ? -1 : 1; double dt = len( "dt" , dir ) , t0 = val( "t" ) , t = t0; irv_assume( dir * dt > 0.001 );
    ST< K > st; if( irv_choose( "used" , 2 ) ) arbitrary( st.coeff() , K , K + 1 , K , 1 ); else first_time( st.coeff() , K );
    A1 x; x[ 0 ] = val( "x" ); double x0 = x[ 0 ]; g_n = g_is = 0;
    if( own ) st.initialize( Mono() , x , t , dt ); else st.initialize( Explicit() , Mono() , x , t , dt );
    irv_assert( irv_eq( t , t0 + dt ) , "time advanced by the start-up interval" );
    if( own ) irv_assert( irv_eq( x[ 0 ] , x0 + ramp( t0 , t0 + dt , g_d ) ) , "linear derivative integrated exactly from the first step" ); else irv_assert( irv_same( x[ 0 ] , g_xs[ K - 1 ] ) & ( g_is == K ) , "state of the initialising stepper" );
    started( st.coeff() , K , t0 , dt / K , K - 1 ); irv_cover( "end" );
}
#define INIT( K ) IRV_HARNESS( C14_init_##K ) { init< K >( true ); } IRV_HARNESS( C14_init_with_stepper_##K ) { init< K >( false ); }
INIT( 1 ) INIT( 2 ) INIT( 3 ) INIT( 4 )
// controlled version: any step adjuster and order adjuster
static double g_err , g_ratio , g_dt , g_px , g_pd; static int g_adj , g_ord , g_eo; static size_t g_neo;
struct Adjuster
{
    static double threshold() { return 0.9; }
    template< class D > double adjust_stepsize( const size_t steps , double dt , A1 &err , const A1 &x , const D &d )
    { irv_assert( ( steps == (size_t) g_eo ) & irv_same( dt , g_dt ) , "adjuster gets the order and the tried step" ); ++g_adj; g_err = err[ 0 ]; g_px = x[ 0 ]; g_pd = d[ 0 ]; err[ 0 ] = irv_real( "scaled" ); return dt * g_ratio; }
};
template< int K > struct Orders { template< class E > size_t adjust_order( size_t order , size_t init , E & ) { irv_assert( ( order == (size_t) g_eo ) & ( order <= init ) , "order adjuster gets the current order" ); ++g_ord; size_t m = order < K ? order + 1 : order; g_neo = irv_choose( "new order" , m ) + 1; return g_neo; } };
template< size_t K > using CT = controlled_adams_bashforth_moulton< ST< K > , Adjuster , Orders< K > >;
template< size_t K > static void control( int s , int eo )
{
    g_d = irv_choose( "degree" , eo + 1 ); int dir = irv_choose( "backward" , 2 ) ? -1 : 1; g_eo = eo;
    CT< K > st; arbitrary( st.m_stepper.coeff() , K , s , eo , dir ); double t = g_t[ 0 ] , x0 = val( "x" ); A1 x , out; x[ 0 ] = x0; bool in = irv_choose( "in place" , 2 );
    if( irv_choose( "rejected before" , 2 ) )
    {
        double dt = g_dt = len( "dt" , dir ); irv_assume( dir * dt > 0.001 ); g_ratio = ( irv_native() ? 0.2 + 1.5 * len( "ratio" , 1 ) / 1.25 : irv_real( "ratio" ) ); irv_assume( ( g_ratio > 0.1 ) & ( g_ratio < 0.9 ) ); g_adj = g_ord = g_n = 0; out[ 0 ] = irv_real( "old" );
        controlled_step_result r = in ? st.try_step( Mono() , x , t , dt ) : st.try_step( Mono() , x , t , out , dt );
        irv_assert( ( r == fail ) & irv_same( x[ 0 ] , x0 ) & irv_same( t , g_t[ 0 ] ) & irv_same( dt , g_dt * g_ratio ) & ( g_ord == 0 ) , "rejected: state and time untouched, step of the adjuster" );
        irv_assert( ( st.m_stepper.coeff().m_eo == (size_t) eo ) & ( st.m_stepper.coeff().m_steps_init == (size_t) s ) , "rejected: order untouched" );
    }
    double dt = g_dt = len( "dt" , dir ); irv_assume( dir * dt > 0.001 ); g_ratio = ( irv_native() ? 0.2 + 1.5 * len( "ratio" , 1 ) / 1.25 : irv_real( "ratio" ) ); irv_assume( g_ratio >= 0.9 ); g_adj = g_ord = g_n = 0; out[ 0 ] = irv_real( "old" );
    controlled_step_result r = in ? st.try_step( Mono() , x , t , dt ) : st.try_step( Mono() , x , t , out , dt );
    if( in ) out = x; else irv_assert( irv_same( x[ 0 ] , x0 ) , "input untouched" );
    int f = s == 1 ? 1 : 0;
    irv_assert( ( r == success ) & irv_eq( t , g_t[ 0 ] + g_dt ) & irv_same( dt , g_dt * g_ratio ) & ( g_adj == 1 ) & ( g_ord == 1 ) , "accepted exactly from the threshold on: time advanced by the tried step" );
    irv_assert( ( g_n == f + 2 ) & irv_same( g_cx[ f + 1 ] , out[ 0 ] ) & irv_eq( g_ct[ f ] , g_t[ 0 ] + g_dt ) & irv_eq( g_ct[ f + 1 ] , g_t[ 0 ] + g_dt ) , "predicted and corrected state are evaluated at the end of the step" );
    if( g_d < eo ) irv_assert( irv_eq( g_cx[ f ] , x0 + ramp( g_t[ 0 ] , g_t[ 0 ] + g_dt , g_d ) ) , "prediction exact below the effective order" );
    irv_assert( irv_eq( out[ 0 ] , x0 + ramp( g_t[ 0 ] , g_t[ 0 ] + g_dt , g_d ) ) , "correction exact up to the effective order" );
    irv_assert( irv_eq( g_err , out[ 0 ] - g_cx[ f ] ) & irv_same( g_px , out[ 0 ] ) & irv_eq( g_pd , ipow( g_t[ 0 ] + g_dt , g_d ) ) , "adjuster gets the error estimate, the new state and its derivative" );
    shifted( st.m_stepper.coeff() , K , s , eo , g_dt );
    irv_assert( st.m_stepper.coeff().m_eo == g_neo , "order of the order adjuster" ); irv_cover( "end" );
}
#define CONTROL( K , S , E ) IRV_HARNESS( C14_control_##K##_##S##_##E ) { control< K >( S , E ); }
CONTROL( 1 , 1 , 1 ) CONTROL( 1 , 2 , 1 ) CONTROL( 2 , 1 , 1 ) CONTROL( 2 , 2 , 2 ) CONTROL( 2 , 3 , 1 ) CONTROL( 2 , 3 , 2 )
CONTROL( 3 , 2 , 1 ) CONTROL( 3 , 3 , 2 ) CONTROL( 3 , 3 , 3 ) CONTROL( 3 , 4 , 1 ) CONTROL( 3 , 4 , 2 ) CONTROL( 3 , 4 , 3 )
// start-up of the controlled version by a controlled stepper
static double g_ts[ 8 ];
struct Controlled   // contract: rejects any number of times, an accepted try advances time by the tried step and proposes another
{
    template< class S > controlled_step_result try_step( S , A1 &x , double &t , double &dt )
    {
        irv_assert( irv_same( t , g_ts[ g_is ] ) , "start-up continues from the end of the last step" );
        double n = len( "proposed" , 1 ); irv_assume( n > 0.001 );
        if( irv_choose( "reject" , 2 ) ) { dt = n; return fail; }
        t += dt; dt = n; x[ 0 ] = irv_real( "explicit" ); g_ts[ ++g_is ] = t; return success;
    }
};
template< size_t K > static void cinit()
{
    g_d = irv_choose( "degree" , K ); CT< K > st; A1 x; x[ 0 ] = val( "x" ); double t = val( "t" ) , dt = len( "dt" , 1 ); irv_assume( dt > 0.001 ); g_is = 0; g_ts[ 0 ] = t;
    if( irv_choose( "used" , 2 ) ) arbitrary( st.m_stepper.coeff() , K , K + 1 , K , 1 ); else first_time( st.m_stepper.coeff() , K );
    st.initialize_controlled( Controlled() , Mono() , x , t , dt );
    irv_assert( ( g_is == (int) K ) & irv_same( t , g_ts[ K ] ) , "start-up steps" );
    typename CT< K >::coeff_type &c = st.m_stepper.coeff(); double p[ 9 ]; for( int i = 0 ; i <= (int) K ; ++i ) p[ i ] = g_ts[ K - i ];
    bool ok = true; for( int i = 1 ; i <= (int) K ; ++i ) ok = ok & irv_eq( c.m_time_storage[ i ] , p[ i ] );
    irv_assert( ok , "times of the start-up steps" );
    for( int i = 0 ; i < (int) K ; ++i ) irv_assert( irv_eq( c.phi[ 1 ][ i ].m_v[ 0 ] , phi( i , p , g_d ) ) , "modified divided differences of the start-up history" );
    irv_assert( ( c.m_eo == (size_t) K ) & ( c.m_steps_init == (size_t) K + 1 ) & ( c.m_ns == 0 ) , "full order after the start-up" ); irv_cover( "end" );
}
IRV_HARNESS( C14_controlled_start_1 ) { cinit< 1 >(); }
IRV_HARNESS( C14_controlled_start_2 ) { cinit< 2 >(); }
IRV_HARNESS( C14_controlled_start_3 ) { cinit< 3 >(); }
// default order adjuster: stays within the template order and moves by at most one, whatever the errors
template< size_t M > static void orders( size_t order )
{
    default_order_adjuster< M , A1 > oa; boost::array< state_wrapper< A1 > , 4 > e; for( int i = 0 ; i < 4 ; ++i ) e[ i ].m_v[ 0 ] = irv_real( "err" );
    size_t init = order + irv_choose( "init" , M + 1 - order ); size_t o = oa.adjust_order( order , init , e );
    irv_assert( ( o >= 1 ) & ( o <= M ) & ( o + 1 >= order ) & ( o <= order + 1 ) , "order stays in range" ); irv_cover( "end" );
}
IRV_HARNESS( C14_orders_1 ) { orders< 1 >( 1 ); }
IRV_HARNESS( C14_orders_3 ) { orders< 3 >( 1 + irv_choose( "order" , 3 ) ); }
IRV_HARNESS( C14_orders_6 ) { orders< 6 >( 1 + irv_choose( "order" , 6 ) ); }
// default step adjuster: the proposed step keeps its sign and never exceeds the maximum step
template< size_t Type > static void pid( int n )
{
    detail::pid_step_adjuster< A1 , double , A1 , double , array_algebra , default_operations , Type > pa( irv_real( "atol" ) , irv_real( "rtol" ) , irv_real( "dtmax" ) );
    irv_assume( ( pa.m_abs_tol > 0 ) & ( pa.m_rel_tol >= 0 ) & ( pa.m_dtmax > 0 ) );
    for( int i = 0 ; i < n ; ++i )
    {
        A1 e , x , d; e[ 0 ] = irv_real( "err" ); x[ 0 ] = val( "x" ); d[ 0 ] = irv_real( "dxdt" ); double dt = len( "dt" , 1 ); irv_assume( ( dt > 0.001 ) & ( e[ 0 ] != 0 ) );
        double r = pa.adjust_stepsize( 1 + irv_choose( "order" , 3 ) , dt , e , x , d );
        irv_assert( r > 0 , "proposed step keeps its sign" ); irv_assert( irv_le( r , pa.m_dtmax ) , "maximum step" );
    }
    irv_cover( "end" );
}
IRV_HARNESS( C14_pid_basic ) { pid< detail::BASIC >( 1 ); }
IRV_HARNESS( C14_pid_H211PI ) { pid< detail::H211PI >( 3 ); }
// a new stepper: the order never depends on an estimate that has not been made
template< size_t K > static void fresh()
{
    controlled_adams_bashforth_moulton< ST< K > , Adjuster > st; first_time( st.m_stepper.coeff() , K ); double t = val( "t" ); A1 x; x[ 0 ] = val( "x" ); g_d = 1; int dir = irv_choose( "backward" , 2 ) ? -1 : 1;
    for( int i = 0 ; i < 3 ; ++i ) { double dt = g_dt = len( "dt" , dir ) , t0 = t , x0 = x[ 0 ]; irv_assume( dir * dt > 0.001 ); g_ratio = 1; g_eo = st.m_stepper.coeff().m_eo; g_n = 0;
        irv_assert( ( st.try_step( Mono() , x , t , dt ) == success ) & irv_eq( t , t0 + g_dt ) , "accepted" ); irv_assert( irv_eq( x[ 0 ] , x0 + ramp( t0 , t0 + g_dt , 1 ) ) , "linear derivative integrated exactly from the first step" ); }
    irv_cover( "end" );
}
IRV_HARNESS( C14_fresh_2 ) { fresh< 2 >(); }
IRV_HARNESS( C14_fresh_3 ) { fresh< 3 >(); }
