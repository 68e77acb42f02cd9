// C18: dense output of bulirsch_stoer_dense_out and the midpoint rule that stores its derivatives
#include <utility>
#include <vector>
#include <cmath>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
#include "states.hpp"
using namespace boost::numeric::odeint;
typedef boost::array< double , 1 > S1;
// ---- modified midpoint rule with n substeps; the derivatives are recorded
static int g_n , g_i; static double g_t , g_h , g_z[ 40 ] , g_k[ 40 ];
struct RecSys
{
    template< class S > void operator()( const S &x , S &d , double t ) const
    {
        irv_assert( g_i < g_n , "number of evaluations" ); g_i++;
        irv_assert( irv_eq( x[ 0 ] , g_z[ g_i ] ) & irv_eq( t , g_t + g_i * g_h ) , "evaluated at the midpoint states" );
        d[ 0 ] = g_k[ g_i ] = irv_real( "k" ); g_z[ g_i + 1 ] = g_z[ g_i - 1 ] + 2 * g_h * g_k[ g_i ];
    }
};
template< class S > static S mk();
template<> S1 mk< S1 >() { return S1(); }
template<> vec mk< vec >() { return vec( 1 ); }
template< class S > static void midpoint( int n )
{
    modified_midpoint_dense_out< S > st; typename modified_midpoint_dense_out< S >::deriv_table_type der( n );
    for( int i = 0 ; i < n ; ++i ) der[ i ].m_v = mk< S >();
    S x = mk< S >() , d = mk< S >() , out = mk< S >() , mp = mk< S >(); double x0 = irv_real( "x" ) , d0 = irv_real( "dxdt" ); double t = irv_real( "t" ) , dt = irv_real( "dt" );
    x[ 0 ] = x0; d[ 0 ] = d0; st.set_steps( n ); irv_assert( st.steps() == n , "number of substeps" );
    g_n = n; g_i = 0; g_t = t; g_h = dt / n; g_z[ 0 ] = x0; g_z[ 1 ] = x0 + g_h * d0;
    st.do_step( RecSys() , x , d , t , out , dt , mp , der );
    irv_assert( g_i == n , "all evaluations" );
    irv_assert( irv_eq( out[ 0 ] , ( g_z[ n ] + g_z[ n - 1 ] + g_h * g_k[ n ] ) / 2 ) , "modified midpoint rule" );
    irv_assert( irv_eq( mp[ 0 ] , g_z[ n / 2 ] ) , "state in the middle of the step" );
    bool s = true; for( int i = 0 ; i < n ; ++i ) s = s & irv_same( der[ i ].m_v[ 0 ] , g_k[ i + 1 ] );
    irv_assert( s , "derivatives stored" );
    irv_assert( irv_same( x[ 0 ] , x0 ) & irv_same( d[ 0 ] , d0 ) , "input untouched" );
    irv_cover( "end" );
}
#define M( N ) IRV_HARNESS( C18_midpoint_dense_##N ) { midpoint< S1 >( N ); }
M( 2 ) M( 6 ) M( 10 ) M( 14 ) M( 18 ) M( 22 ) M( 26 ) M( 30 ) M( 34 )
IRV_HARNESS( C18_midpoint_dense_vec ) { midpoint< vec >( 6 ); }
// ---- dense output: exact for polynomial solutions up to degree 2k+1 when the step converged in column k
static int g_conv , g_norms;
struct ConvAlg : array_algebra { template< class S > static double norm_inf( const S & ) { return ++g_norms == g_conv ? 0.5 : 1.5; } };
typedef bulirsch_stoer_dense_out< S1 , double , S1 , double , ConvAlg > BSD;
static double g_a[ 24 ]; static int g_deg;
struct PolySys { void operator()( const S1 & , S1 &d , double t ) const { double r = 0 , p = 1; for( int i = 1 ; i <= g_deg ; ++i ) { r += i * g_a[ i ] * p; p *= t; } d[ 0 ] = r; } };
static double sol( double t ) { double r = g_a[ 0 ] , p = t; for( int i = 1 ; i <= g_deg ; ++i ) { r += g_a[ i ] * p; p *= t; } return r; }
static void interp( int k , double t0 , double dt )
{
    irv_merge( "calc_h_opt" ); irv_merge( "min_abs" ); irv_merge( "less_with_sign" );
    g_deg = 2 * k + 1; for( int i = 0 ; i <= g_deg ; ++i ) g_a[ i ] = irv_real( "a" );
    g_conv = k; g_norms = 0;
    BSD st; S1 x0; x0[ 0 ] = sol( t0 ); st.initialize( x0 , t0 , dt ); st.m_current_k_opt = k > 4 ? k : 4;
    double s = irv_real( "s" );
    st.do_step( PolySys() );
    irv_assert( st.m_k_final == (size_t) k , "converged in this column" );
    irv_assert( irv_eq( st.current_time() , t0 + dt ) & irv_eq( st.previous_time() , t0 ) , "the step" );
    irv_assert( irv_eq( st.current_state()[ 0 ] , sol( t0 + dt ) ) & irv_eq( st.previous_state()[ 0 ] , sol( t0 ) ) , "end points" );
    S1 y; y[ 0 ] = irv_real( "old" ); st.calc_state( t0 + s * dt , y );
    irv_assert( irv_eq( y[ 0 ] , sol( t0 + s * dt ) ) , "dense output reproduces polynomial solutions" );
    irv_cover( "interpolated" );
}
#define I( K ) IRV_HARNESS( C18_interpolation_forward_##K ) { double dt = irv_real( "dt" ); irv_assume( dt > 0.001 ); interp( K , 0 , dt ); } IRV_HARNESS( C18_interpolation_backward_##K ) { double dt = irv_real( "dt" ); irv_assume( dt < -0.001 ); interp( K , 0 , dt ); } \
    IRV_HARNESS( C18_interpolation_start_##K ) { double t = irv_real( "t" ); interp( K , t , 0.5 ); }
I( 1 ) I( 2 ) I( 3 ) I( 4 ) I( 5 ) I( 6 ) I( 7 )
