// C17: implicit Euler
#include <utility>
#include <vector>
#include <cmath>
#define BOOST_UBLAS_NDEBUG
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
#include "irv.h"
using namespace boost::numeric::odeint;
typedef boost::numeric::ublas::vector< double > V; typedef boost::numeric::ublas::matrix< double > M; typedef boost::numeric::ublas::permutation_matrix< size_t > P;
static int g_n; static double g_x[ 3 ] , g_X[ 3 ] , g_f[ 3 ] , g_J[ 3 ][ 3 ] , g_t , g_dt , g_u[ 3 ] , l_b[ 3 ]; static int g_evals , g_jacs , l_facs , g_fresh; static const M *l_m; static const P *l_p;
// the system: any value, evaluated at the current iterate and the end of the step
struct F { void operator()( const V &x , V &d , double t ) const
{
    bool s = irv_eq( t , g_t + g_dt ) & ( g_fresh == 0 ); for( int i = 0 ; i < g_n ; ++i ) s = s & irv_same( x( i ) , g_X[ i ] ); irv_assert( s , "derivative of the current iterate at the end of the step" ); g_fresh = 1;
    for( int i = 0 ; i < g_n ; ++i ) d( i ) = g_f[ i ] = irv_real( "f" );
} };
struct J { void operator()( const V &x , M &j , double t ) const
{
    bool s = irv_eq( t , g_t + g_dt ) & ( g_jacs == 0 ); g_jacs++; for( int i = 0 ; i < g_n ; ++i ) s = s & irv_same( x( i ) , g_x[ i ] ); irv_assert( s , "Jacobian once, at the start state and the end of the step" );
    for( int i = 0 ; i < g_n ; ++i ) for( int k = 0 ; k < g_n ; ++k ) j( i , k ) = g_J[ i ][ k ];
} };
// contracts of the linear solver
extern "C" size_t spec_lu_factorize( M &m , P &p )
{
    irv_assert( l_facs == 0 , "factorised once" ); l_facs = 1; l_m = &m; l_p = &p;
    for( int i = 0 ; i < g_n ; ++i ) { irv_assert( p( i ) == (size_t) i , "permutation starts as the identity" ); for( int k = 0 ; k < g_n ; ++k ) { irv_assert( irv_eq( m( i , k ) , g_dt * g_J[ i ][ k ] - ( i == k ? 1 : 0 ) ) , "matrix dt J - 1" ); m( i , k ) = irv_real( "LU" ); } }
    return 0;
}
// residual r = x + dt f - X of the current iterate X: the Newton update X - u with ( dt J - 1 ) u = r
extern "C" void spec_lu_substitute( const M &m , const P &p , V &v )
{
    irv_assert( ( l_facs == 1 ) & ( &m == l_m ) & ( &p == l_p ) & ( g_fresh == 1 ) , "solves with the factorised matrix" ); g_fresh = 0;
    for( int i = 0 ; i < g_n ; ++i ) { irv_assert( irv_eq( v( i ) , g_x[ i ] + g_dt * g_f[ i ] - g_X[ i ] ) , "right hand side is the residual" ); v( i ) = g_u[ i ] = irv_real( "u" ); g_X[ i ] = g_X[ i ] - g_u[ i ]; }
}
typedef implicit_euler< double > ST; static ST *g_st;
extern "C" bool irv_inv_b0() { return g_st && irv_same( g_st->m_b.m_v( 0 ) , g_u[ 0 ] ); }
extern "C" bool irv_inv_b1() { return g_st && g_n > 1 && irv_same( g_st->m_b.m_v( 1 ) , g_u[ 1 ] ); }
extern "C" bool irv_inv_b2() { return g_st && g_n > 2 && irv_same( g_st->m_b.m_v( 2 ) , g_u[ 2 ] ); }
extern "C" bool irv_inv_x0() { return g_st && irv_same( g_st->m_x.m_v( 0 ) , g_X[ 0 ] ); }
extern "C" bool irv_inv_x1() { return g_st && g_n > 1 && irv_same( g_st->m_x.m_v( 1 ) , g_X[ 1 ] ); }
extern "C" bool irv_inv_x2() { return g_st && g_n > 2 && irv_same( g_st->m_x.m_v( 2 ) , g_X[ 2 ] ); }
static void newton( int n )
{
    if( irv_native() ) return;
    irv_contract( "ublas::lu_factorize<" , "spec_lu_factorize" ); irv_contract( "ublas::lu_substitute<" , "spec_lu_substitute" );
    double eps = irv_real( "epsilon" ); irv_assume( eps > 0 ); ST st( eps ); g_st = &st; g_n = n; V x( n );
    g_t = irv_real( "t" ); g_dt = irv_real( "dt" ); g_evals = g_jacs = l_facs = g_fresh = 0;
    for( int i = 0 ; i < n ; ++i ) { g_x[ i ] = g_X[ i ] = x( i ) = irv_real( "x" ); for( int k = 0 ; k < n ; ++k ) { g_J[ i ][ k ] = irv_real( "J" ); irv_assume( g_dt * g_J[ i ][ k ] != 0 ); irv_assume( g_dt * g_J[ i ][ k ] != 1 ); } }
    if( irv_choose( "sized" , 2 ) ) st.adjust_size( x );
    F f; J j; if( irv_choose( "by reference" , 2 ) ) { std::pair< F , J > p( f , j ); st.do_step( boost::ref( p ) , x , g_t , g_dt ); } else st.do_step( std::make_pair( f , j ) , x , g_t , g_dt );
    double norm = 0; bool s = true; for( int i = 0 ; i < n ; ++i ) { norm += g_u[ i ] * g_u[ i ]; s = s & irv_same( x( i ) , g_X[ i ] ); }
    irv_assert( s , "result is the last Newton iterate" );
    irv_assert( std::sqrt( norm ) <= eps , "stops when the last update is at most the tolerance" );
    irv_assert( ( g_jacs == 1 ) & ( l_facs == 1 ) & ( g_fresh == 0 ) , "one Jacobian" );
    irv_cover( "end" );
}
IRV_HARNESS( C17_newton_1 ) { newton( 1 ); }
IRV_HARNESS( C17_newton_2 ) { newton( 2 ); }
IRV_HARNESS( C17_newton_3 ) { newton( 3 ); }
// linear systems x' = a x + b( t ): solved exactly by the first update, without any contract
struct LF { double a , b; void operator()( const V &x , V &d , double t ) const { d( 0 ) = a * x( 0 ) + irv_uf( "b" , 1 , t ); } };
struct LJ { double a; void operator()( const V & , M &j , double ) const { j( 0 , 0 ) = a; } };
static double l_d , l_r;
extern "C" bool irv_inv_lin() { return g_st && g_n == 0 && irv_eq( g_st->m_x.m_v( 0 ) * l_d , l_r ); }
IRV_HARNESS( C17_linear )
{
    implicit_euler< double > st; g_n = 0; V x( 1 ); double x0 = irv_real( "x" ) , t = irv_real( "t" ) , dt = irv_real( "dt" ); LF f; LJ j; f.a = j.a = irv_real( "a" );
    double d = 1 - dt * f.a; irv_assume( ( d > 0.001 ) | ( d < -0.001 ) );
    if( irv_choose( "used before" , 2 ) ) { LF g; LJ h; g.a = h.a = -1; x( 0 ) = irv_real( "y" ); st.do_step( std::make_pair( g , h ) , x , irv_real( "s" ) , 0.5 ); }
    x( 0 ) = x0; l_d = d; l_r = x0 + dt * irv_uf( "b" , 1 , t + dt ); g_st = &st;
    st.do_step( std::make_pair( f , j ) , x , t , dt );
    irv_assert( irv_eq( x( 0 ) * d , x0 + dt * irv_uf( "b" , 1 , t + dt ) ) , "linear equation solved exactly" ); irv_cover( "end" );
}
