// C16: Rosenbrock stepper, its coefficients, controller and dense output
#include <utility>
#include <vector>
#include <cmath>
#include <algorithm>
#define BOOST_UBLAS_NDEBUG
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include "irv.h"
using namespace boost::numeric::odeint;
typedef boost::numeric::ublas::vector< double > V; typedef boost::numeric::ublas::matrix< double > M; typedef boost::numeric::ublas::permutation_matrix< size_t > P;
// ---- the order conditions of the coefficients ( Hairer & Wanner II, IV.7: u = Gamma k )
typedef default_rosenbrock_coefficients< double > DC;
struct Row
{
    double g , a[ 6 ][ 6 ] , c[ 6 ][ 6 ] , G[ 6 ][ 6 ] , Gi[ 6 ][ 6 ] , al[ 6 ][ 6 ] , be[ 6 ][ 6 ] , as[ 6 ] , gs[ 6 ];
    Row( const DC &k )
    {
        double A[ 6 ][ 6 ] = { {} , { k.a21 } , { k.a31 , k.a32 } , { k.a41 , k.a42 , k.a43 } , { k.a51 , k.a52 , k.a53 , k.a54 } , { k.a51 , k.a52 , k.a53 , k.a54 , 1 } };
        double C[ 6 ][ 6 ] = { {} , { k.c21 } , { k.c31 , k.c32 } , { k.c41 , k.c42 , k.c43 } , { k.c51 , k.c52 , k.c53 , k.c54 } , { k.c61 , k.c62 , k.c63 , k.c64 , k.c65 } };
        g = k.gamma;
        for( int i = 0 ; i < 6 ; ++i ) for( int j = 0 ; j < 6 ; ++j ) { a[ i ][ j ] = A[ i ][ j ]; c[ i ][ j ] = C[ i ][ j ]; Gi[ i ][ j ] = ( i == j ? 1 / g : 0 ) - C[ i ][ j ]; G[ i ][ j ] = 0; }
        for( int j = 0 ; j < 6 ; ++j ) for( int i = j ; i < 6 ; ++i ) { double s = i == j; for( int l = j ; l < i ; ++l ) s -= Gi[ i ][ l ] * G[ l ][ j ]; G[ i ][ j ] = s * g; }      // inverse of a lower triangular matrix
        for( int i = 0 ; i < 6 ; ++i ) { as[ i ] = gs[ i ] = 0; for( int j = 0 ; j < 6 ; ++j ) { double s = 0; for( int l = 0 ; l < 6 ; ++l ) s += a[ i ][ l ] * Gi2( l , j ); al[ i ][ j ] = s; be[ i ][ j ] = s + G[ i ][ j ]; as[ i ] += s; gs[ i ] += G[ i ][ j ]; } }
    }
    double Gi2( int i , int j ) const { return G[ i ][ j ]; }
    double bs( int i ) const { double s = 0; for( int j = 0 ; j < 6 ; ++j ) s += be[ i ][ j ]; return s; }
};
static bool near( double a , double b ) { double d = a - b; return ( d < 1e-9 ) & ( d > -1e-9 ); }
// conditions up to order p for the result x0 + sum m_i u_i at the relative time s
static void order( const Row &r , const double *m , int p , double s )
{
    double b[ 6 ]; for( int j = 0 ; j < 6 ; ++j ) { b[ j ] = 0; for( int i = 0 ; i < 6 ; ++i ) b[ j ] += m[ i ] * r.G[ i ][ j ]; }
    double o1 = 0 , o2 = 0 , o3a = 0 , o3b = 0 , o4a = 0 , o4b = 0 , o4c = 0 , o4d = 0;
    for( int i = 0 ; i < 6 ; ++i )
    {
        double s1 = 0 , s2 = 0 , s3 = 0 , s4 = 0;
        for( int j = 0 ; j < 6 ; ++j ) { s1 += r.be[ i ][ j ] * r.bs( j ); s2 += r.al[ i ][ j ] * r.bs( j ); s3 += r.be[ i ][ j ] * r.as[ j ] * r.as[ j ]; for( int k = 0 ; k < 6 ; ++k ) s4 += r.be[ i ][ j ] * r.be[ j ][ k ] * r.bs( k ); }
        o1 += b[ i ]; o2 += b[ i ] * r.bs( i ); o3a += b[ i ] * r.as[ i ] * r.as[ i ]; o3b += b[ i ] * s1; o4a += b[ i ] * r.as[ i ] * r.as[ i ] * r.as[ i ]; o4b += b[ i ] * r.as[ i ] * s2; o4c += b[ i ] * s3; o4d += b[ i ] * s4;
    }
    irv_assert( near( o1 , s ) , "order 1" ); if( p >= 2 ) irv_assert( near( o2 , s * s / 2 ) , "order 2" );
    if( p >= 3 ) irv_assert( near( o3a , s * s * s / 3 ) & near( o3b , s * s * s / 6 ) , "order 3" );
    if( p >= 4 ) irv_assert( near( o4a , s * s * s * s / 4 ) & near( o4b , s * s * s * s / 8 ) & near( o4c , s * s * s * s / 12 ) & near( o4d , s * s * s * s / 24 ) , "order 4" );
}
IRV_HARNESS( C16_order_conditions )
{
    DC k; Row r( k );
    irv_assert( DC::stepper_order == 4 && DC::error_order == 3 , "advertised orders" ); rosenbrock4< double > st; irv_assert( st.order() == 4 && rosenbrock4< double >::error_order == 3 , "advertised orders" );
    irv_assert( near( r.as[ 0 ] , 0 ) & near( r.as[ 1 ] , k.c2 ) & near( r.as[ 2 ] , k.c3 ) & near( r.as[ 3 ] , k.c4 ) & near( r.as[ 4 ] , 1 ) & near( r.as[ 5 ] , 1 ) , "stage times" );
    irv_assert( near( r.gs[ 0 ] , k.d1 ) & near( r.gs[ 1 ] , k.d2 ) & near( r.gs[ 2 ] , k.d3 ) & near( r.gs[ 3 ] , k.d4 ) & near( r.gs[ 4 ] , 0 ) & near( r.gs[ 5 ] , 0 ) , "weights of the explicit time derivative" );
    double m[ 6 ] = { k.a51 , k.a52 , k.a53 , k.a54 , 1 , 1 } , e[ 6 ] = { k.a51 , k.a52 , k.a53 , k.a54 , 1 , 0 };
    order( r , m , 4 , 1 ); order( r , e , 3 , 1 );
    irv_cover( "order" );
}
IRV_HARNESS( C16_dense_order )
{
    // the dense output is third order accurate: polynomials of degree three in s compared at four points
    DC k; Row r( k ); double m[ 6 ] = { k.a51 , k.a52 , k.a53 , k.a54 , 1 , 1 } , d2[ 6 ] = { k.d21 , k.d22 , k.d23 , k.d24 , k.d25 , 0 } , d3[ 6 ] = { k.d31 , k.d32 , k.d33 , k.d34 , k.d35 , 0 };
    for( int q = 1 ; q <= 5 ; ++q ) { double s = q / 4.0 , w[ 6 ]; for( int i = 0 ; i < 6 ; ++i ) w[ i ] = s * ( m[ i ] + ( 1 - s ) * ( d2[ i ] + s * d3[ i ] ) ); order( r , w , 3 , s ); }
    irv_cover( "dense" );
}
// ---- the stages, for arbitrary coefficients, Jacobians and systems
struct SymCoef
{
    typedef double value_type; typedef unsigned short order_type;
    const double gamma , d1 , d2 , d3 , d4 , c2 , c3 , c4 , c21 , a21 , c31 , c32 , a31 , a32 , c41 , c42 , c43 , a41 , a42 , a43 , c51 , c52 , c53 , c54 , a51 , a52 , a53 , a54 , c61 , c62 , c63 , c64 , c65 , d21 , d22 , d23 , d24 , d25 , d31 , d32 , d33 , d34 , d35;
#define R( n ) n( irv_real( #n ) )
    SymCoef() : R( gamma ) , R( d1 ) , R( d2 ) , R( d3 ) , R( d4 ) , R( c2 ) , R( c3 ) , R( c4 ) , R( c21 ) , R( a21 ) , R( c31 ) , R( c32 ) , R( a31 ) , R( a32 ) , R( c41 ) , R( c42 ) , R( c43 ) , R( a41 ) , R( a42 ) , R( a43 ) , R( c51 ) , R( c52 ) , R( c53 ) , R( c54 ) , R( a51 ) , R( a52 ) , R( a53 ) , R( a54 ) , R( c61 ) , R( c62 ) , R( c63 ) , R( c64 ) , R( c65 ) , R( d21 ) , R( d22 ) , R( d23 ) , R( d24 ) , R( d25 ) , R( d31 ) , R( d32 ) , R( d33 ) , R( d34 ) , R( d35 ) {}
#undef R
    static const order_type stepper_order = 4; static const order_type error_order = 3;
};
static const char *fn[ 3 ] = { "f0" , "f1" , "f2" };
static double fv( const V &x , int i , double t ) { return irv_uf( fn[ i ] , 4 , x( 0 ) , x( x.size() > 1 ? 1 : 0 ) , x( x.size() - 1 ) , t ); }
static double g_J[ 3 ][ 3 ] , g_ft[ 3 ] , g_x[ 3 ] , g_t; static int g_jacs;
struct F { void operator()( const V &x , V &d , double t ) const { V y( x ); for( size_t i = 0 ; i < x.size() ; ++i ) d( i ) = fv( y , i , t ); } };
struct J { void operator()( const V &x , M &j , double t , V &df ) const
{
    bool s = irv_same( t , g_t ); for( size_t i = 0 ; i < x.size() ; ++i ) s = s & irv_same( x( i ) , g_x[ i ] ); irv_assert( s & ( g_jacs++ == 0 ) , "Jacobian once, at the start of the step" );
    for( size_t i = 0 ; i < x.size() ; ++i ) { df( i ) = g_ft[ i ]; for( size_t k = 0 ; k < x.size() ; ++k ) j( i , k ) = g_J[ i ][ k ]; }
} };
// contracts of the linear solver: factorise W once, then every substitution returns the solution u of W u = b
static double l_W[ 3 ][ 3 ] , l_b[ 8 ][ 3 ] , l_u[ 8 ][ 3 ]; static int l_facs , l_subs; static const M *l_m; static const P *l_p;
extern "C" size_t spec_lu_factorize( M &m , P &p )
{
    irv_assert( l_facs++ == 0 , "factorised once" ); l_m = &m; l_p = &p;
    for( size_t i = 0 ; i < m.size1() ; ++i ) { irv_assert( p( i ) == i , "permutation starts as the identity" ); for( size_t k = 0 ; k < m.size2() ; ++k ) { l_W[ i ][ k ] = m( i , k ); m( i , k ) = irv_real( "LU" ); } }
    return 0;
}
extern "C" void spec_lu_substitute( const M &m , const P &p , V &v )
{
    irv_assert( ( l_facs == 1 ) & ( &m == l_m ) & ( &p == l_p ) & ( l_subs < 8 ) , "solves with the factorised matrix" );
    for( size_t i = 0 ; i < v.size() ; ++i ) { l_b[ l_subs ][ i ] = v( i ); v( i ) = l_u[ l_subs ][ i ] = irv_real( "u" ); }
    l_subs++;
}
template< class ST > static void stages( int n , bool contract )
{
    if( contract ) { if( irv_native() ) return; irv_contract( "ublas::lu_factorize<" , "spec_lu_factorize" ); irv_contract( "ublas::lu_substitute<" , "spec_lu_substitute" ); }
    ST st; double t = irv_real( "t" ) , dt = irv_real( "dt" ); irv_assume( ( dt != 0 ) & ( st.m_coef.gamma != 0 ) ); irv_assume( 1.0 / st.m_coef.gamma / dt != 0 );
    V x( n ) , out( n ) , err( n );
    int pass = n < 3 ? irv_choose( "used before" , 2 ) : 0; if( n == 2 && irv_choose( "sized" , 2 ) ) st.adjust_size( x );
    for( ; pass >= 0 ; --pass )
    {
        for( int i = 0 ; i < n ; ++i ) { g_x[ i ] = x( i ) = irv_real( "x" ); out( i ) = irv_real( "old" ); err( i ) = irv_real( "old" ); g_ft[ i ] = irv_real( "ft" ); for( int k = 0 ; k < n ; ++k ) g_J[ i ][ k ] = pass ? i + 2 * k - 1 : irv_real( "J" ); }
        t = irv_real( "t" ); g_t = t; g_jacs = 0; l_facs = l_subs = 0;
        if( n == 1 && !contract ) irv_assume( 1.0 / st.m_coef.gamma / dt - g_J[ 0 ][ 0 ] != 0 );
        int ov = pass || n == 3 ? 0 : irv_choose( "overload" , 4 ); bool haserr = ov < 2;
        if( ov == 0 ) st.do_step( std::make_pair( F() , J() ) , x , t , out , dt , err );
        if( ov == 1 ) { st.do_step( std::make_pair( F() , J() ) , x , t , dt , err ); out = x; }
        if( ov == 2 ) st.do_step( std::make_pair( F() , J() ) , x , t , out , dt );
        if( ov == 3 ) { F f; J j; std::pair< F& , J& > p( f , j ); st.do_step( std::make_pair( F() , J() ) , x , t , dt ); out = x; }
        if( ov == 0 || ov == 2 ) { bool s = true; for( int i = 0 ; i < n ; ++i ) s = s & irv_same( x( i ) , g_x[ i ] ); irv_assert( s , "input state untouched" ); }
        if( pass ) continue;
        const typename ST::rosenbrock_coefficients &c = st.m_coef;
        double a[ 6 ][ 6 ] = { {} , { c.a21 } , { c.a31 , c.a32 } , { c.a41 , c.a42 , c.a43 } , { c.a51 , c.a52 , c.a53 , c.a54 } , { c.a51 , c.a52 , c.a53 , c.a54 , 1 } };
        double cc[ 6 ][ 6 ] = { {} , { c.c21 } , { c.c31 , c.c32 } , { c.c41 , c.c42 , c.c43 } , { c.c51 , c.c52 , c.c53 , c.c54 } , { c.c61 , c.c62 , c.c63 , c.c64 , c.c65 } };
        double th[ 6 ] = { 0 , c.c2 , c.c3 , c.c4 , 1 , 1 } , d[ 6 ] = { c.d1 , c.d2 , c.d3 , c.d4 , 0 , 0 } , u[ 6 ][ 3 ];
        if( contract )
        {
            irv_assert( ( l_facs == 1 ) & ( l_subs == 6 ) & ( g_jacs == 1 ) , "six stages with one matrix" );
            for( int i = 0 ; i < n ; ++i ) for( int k = 0 ; k < n ; ++k ) irv_assert( irv_eq( l_W[ i ][ k ] , ( i == k ? 1 / ( c.gamma * dt ) : 0 ) - g_J[ i ][ k ] ) , "matrix 1/( gamma dt ) - J" );
        }
        V y( n );
        for( int q = 0 ; q < 6 ; ++q )
        {
            for( int i = 0 ; i < n ; ++i ) { y( i ) = g_x[ i ]; for( int l = 0 ; l < q ; ++l ) y( i ) += a[ q ][ l ] * u[ l ][ i ]; }
            for( int i = 0 ; i < n ; ++i )
            {
                double b = fv( y , i , t + th[ q ] * dt ) + dt * d[ q ] * g_ft[ i ]; for( int l = 0 ; l < q ; ++l ) b += cc[ q ][ l ] * u[ l ][ i ] / dt;
                if( contract ) { irv_assert( irv_eq( l_b[ q ][ i ] , b ) , "right hand side of the stage" ); u[ q ][ i ] = l_u[ q ][ i ]; }
                else u[ q ][ i ] = b / ( 1 / ( c.gamma * dt ) - g_J[ 0 ][ 0 ] );
            }
        }
        for( int i = 0 ; i < n ; ++i )
        {
            irv_assert( irv_eq( out( i ) , y( i ) + u[ 5 ][ i ] ) , "result" );
            if( haserr ) irv_assert( irv_eq( err( i ) , u[ 5 ][ i ] ) , "error estimate" );
        }
        // dense output
        st.prepare_dense_output();
        V xo( n ) , xn( n ) , z( n ); for( int i = 0 ; i < n ; ++i ) { xo( i ) = g_x[ i ]; xn( i ) = out( i ); }
        double s = irv_real( "s" ); st.calc_state( t + s * dt , z , xo , t , xn , t + dt );
        double e2[ 5 ] = { c.d21 , c.d22 , c.d23 , c.d24 , c.d25 } , e3[ 5 ] = { c.d31 , c.d32 , c.d33 , c.d34 , c.d35 };
        for( int i = 0 ; i < n ; ++i )
        {
            double w2 = 0 , w3 = 0; for( int l = 0 ; l < 5 ; ++l ) { w2 += e2[ l ] * u[ l ][ i ]; w3 += e3[ l ] * u[ l ][ i ]; }
            irv_assert( irv_eq( z( i ) , ( 1 - s ) * g_x[ i ] + s * out( i ) + s * ( 1 - s ) * ( w2 + s * w3 ) ) , "dense output" );
        }
        st.calc_state( t , z , xo , t , xn , t + dt ); bool e = true; for( int i = 0 ; i < n ; ++i ) e = e & irv_eq( z( i ) , xo( i ) );
        st.calc_state( t + dt , z , xo , t , xn , t + dt ); for( int i = 0 ; i < n ; ++i ) e = e & irv_eq( z( i ) , xn( i ) );
        irv_assert( e , "dense output matches both end states" );
        irv_cover( "step" );
    }
}
IRV_HARNESS( C16_stages_1 ) { stages< rosenbrock4< double , SymCoef > >( 1 , true ); }
IRV_HARNESS( C16_stages_2 ) { stages< rosenbrock4< double , SymCoef > >( 2 , true ); }
IRV_HARNESS( C16_stages_3 ) { stages< rosenbrock4< double , SymCoef > >( 3 , true ); }
IRV_HARNESS( C16_step_scalar ) { stages< rosenbrock4< double > >( 1 , false ); }
// ---- the controller, against the contract of an error stepper
static double c_x[ 2 ] , c_t , c_dt , c_out[ 2 ] , c_err[ 2 ]; static int c_steps , c_preps , c_sized;
struct SpecRos
{
    typedef double value_type; typedef V state_type; typedef V deriv_type; typedef double time_type; typedef state_wrapper< V > wrapped_state_type; typedef state_wrapper< V > wrapped_deriv_type; typedef initially_resizer resizer_type; typedef stepper_tag stepper_category;
    template< class Sys > void do_step( Sys , const V &x , double t , V &out , double dt , V &err )
    {
        irv_assert( irv_same( x( 0 ) , c_x[ 0 ] ) & irv_same( x( 1 ) , c_x[ 1 ] ) & irv_same( t , c_t ) & irv_same( dt , c_dt ) , "steps from the given state and time by the given step" );
        irv_assert( ( out.size() == 2 ) & ( err.size() == 2 ) , "result and error are sized" ); c_steps++;
        for( int i = 0 ; i < 2 ; ++i ) { out( i ) = c_out[ i ] = irv_real( "out" ); err( i ) = c_err[ i ] = irv_real( "err" ); }
    }
    template< class S > void adjust_size( const S & ) { c_sized++; }
    void prepare_dense_output() { c_preps++; }
    double c_tq , c_xo , c_xn , c_to , c_tn;
    void calc_state( double t , V &x , const V &xo , double to , const V &xn , double tn ) { c_tq = t; c_xo = xo( 0 ); c_to = to; c_xn = xn( 0 ); c_tn = tn; x( 0 ) = irv_uf( "dense" , 5 , t , xo( 0 ) , to , xn( 0 ) , tn ); }
};
static double dabs( double x ) { return x < 0 ? -x : x; }
static double dmax( double a , double b ) { return a < b ? b : a; }
static double clamp( double x ) { return x < 1.0 / 6.0 ? 1.0 / 6.0 : 5.0 < x ? 5.0 : x; }
static double g_e;
extern "C" double spec_ros_error( rosenbrock4_controller< SpecRos > *c , const V &x , const V &xold , const V &xerr )
{
    bool s = true; for( int i = 0 ; i < 2 ; ++i ) s = s & irv_same( x( i ) , c_out[ i ] ) & irv_same( xold( i ) , c_x[ i ] ) & irv_same( xerr( i ) , c_err[ i ] );
    irv_assert( s , "error of this step" ); g_e = irv_real( "error" ); irv_assume( g_e >= 0 ); return g_e;
}
IRV_HARNESS( C16_error )
{
    double at = irv_real( "atol" ) , rt = irv_real( "rtol" ); irv_assume( ( at > 0 ) & ( rt >= 0 ) );
    rosenbrock4_controller< SpecRos > c( at , rt ); int n = 1 + irv_choose( "n" , 2 ); V x( n ) , xo( n ) , e( n ); double sum = 0;
    for( int i = 0 ; i < n ; ++i ) { x( i ) = irv_real( "x" ); xo( i ) = irv_real( "xold" ); e( i ) = irv_real( "err" ); double q = e( i ) / ( at + rt * dmax( dabs( xo( i ) ) , dabs( x( i ) ) ) ); sum += q * q; }
    double r = c.error( x , xo , e );
    irv_assert( irv_eq( r , std::sqrt( sum / n ) ) , "root mean square of the scaled error" ); irv_cover( "error" );
}
static void control( int sign , bool limited )
{
    if( irv_native() ) return;
    irv_contract( "rosenbrock4_controller<SpecRos>::error(" , "spec_ros_error" ); irv_merge( "min_abs" ); irv_merge( "less_with_sign" ); irv_merge( "clamp" );
    double M = 0; if( limited ) { M = irv_real( "max_dt" ); irv_assume( sign * M > 0 ); }
    rosenbrock4_controller< SpecRos > c( 1e-6 , 1e-6 , M );
    bool first = irv_choose( "first" , 2 ) , rejected = irv_choose( "last rejected" , 2 ); double eo = irv_real( "err_old" ) , dto = irv_real( "dt_old" ); irv_assume( eo >= 0.01 );
    if( !first ) { c.m_first_step = false; c.m_err_old = eo; c.m_dt_old = dto; } c.m_last_rejected = rejected;
    V x( 2 ) , out( 2 ); for( int i = 0 ; i < 2 ; ++i ) { x( i ) = c_x[ i ] = irv_real( "x" ); out( i ) = irv_real( "old" ); }
    double t = irv_real( "t" ) , dt = irv_real( "dt" ); irv_assume( sign * dt >= 1e-14 ); c_t = t; c_dt = dt; c_steps = 0; bool inplace = irv_choose( "in place" , 2 );
    if( irv_choose( "copied" , 2 ) ) { rosenbrock4_controller< SpecRos > d( c ); c = d; }
    controlled_step_result r = inplace ? c.try_step( std::make_pair( F() , J() ) , x , t , dt ) : c.try_step( std::make_pair( F() , J() ) , x , t , out , dt );
    bool keep = irv_same( x( 0 ) , c_x[ 0 ] ) & irv_same( x( 1 ) , c_x[ 1 ] );
    if( c_steps == 0 )
    {
        irv_assert( limited && r == fail , "a step is tried" ); irv_assert( sign * c_dt > sign * M , "only steps beyond the maximum are refused" ); irv_assert( irv_same( dt , M ) & irv_same( t , c_t ) & keep , "refused: maximum proposed, nothing changed" );
        irv_cover( "beyond maximum" ); return;
    }
    irv_assert( c_steps == 1 , "one step" ); irv_assert( !limited | ( sign * c_dt <= sign * M + 2.220446049250313e-16 ) , "steps beyond the maximum are not tried" );
    irv_assert( ( r == success ) == ( g_e <= 1 ) , "accepted exactly if the error is at most one" );
    double fac = clamp( std::pow( g_e , 0.25 ) / 0.9 );
    irv_assert( ( sign * dt >= sign * c_dt / 5 - 1e-30 ) | ( r == success ) , "shrinks by at most five" );
    irv_assert( sign * dt > 0 , "the step keeps its direction" );
    irv_assert( sign * dt <= 6.0000001 * sign * c_dt , "grows by at most six" );
    if( r == success )
    {
        irv_assert( irv_eq( t , c_t + c_dt ) , "time advances by the tried step" );
        V &res = inplace ? x : out; irv_assert( irv_same( res( 0 ) , c_out[ 0 ] ) & irv_same( res( 1 ) , c_out[ 1 ] ) , "result of the step" ); if( !inplace ) irv_assert( keep , "start state untouched" );
        irv_assert( !rejected | ( sign * dt <= sign * c_dt ) , "no growth directly after a rejection" );
        irv_assert( !limited | ( sign * dt <= sign * M + 2.220446049250313e-16 ) , "maximum step respected" );
        if( !rejected & !limited & first ) irv_assert( irv_eq( dt * fac , c_dt ) , "first step: next step from the error" );
        if( !rejected & !limited & !first ) { double p = clamp( ( dto / c_dt ) * std::pow( g_e * g_e / eo , 0.25 ) / 0.9 ); irv_assert( irv_eq( dt * dmax( fac , p ) , c_dt ) , "next step from the errors and steps of this and the last accepted step" ); }
        irv_assert( ( c.m_first_step == 0 ) & ( c.m_last_rejected == 0 ) & irv_same( c.m_dt_old , c_dt ) & irv_eq( c.m_err_old , dmax( 0.01 , g_e ) ) & irv_same( c.last_error() , c.m_err_old ) , "remembers step and error" );
        irv_cover( "accepted" );
    }
    else
    {
        irv_assert( irv_same( t , c_t ) & keep , "rejected: state and time unchanged" ); irv_assert( sign * dt < sign * c_dt , "rejected: smaller step" );
        irv_assert( irv_eq( dt * fac , c_dt ) , "rejected: next step from the error" ); irv_assert( c.m_last_rejected != 0 , "remembers the rejection" );
        irv_assert( ( first ? c.m_first_step != 0 : ( c.m_first_step == 0 ) & irv_same( c.m_dt_old , dto ) & irv_same( c.m_err_old , eo ) ) , "history of accepted steps kept" );
        irv_cover( "rejected" );
    }
}
IRV_HARNESS( C16_control_forward ) { control( 1 , false ); }
IRV_HARNESS( C16_control_backward ) { control( -1 , false ); }
IRV_HARNESS( C16_control_forward_max ) { control( 1 , true ); }
IRV_HARNESS( C16_control_backward_max ) { control( -1 , true ); }
// ---- the dense output wrapper, against the contract of a controlled stepper
static double s_x , s_t , s_dt , s_nx , s_nt; static bool s_ok;
struct SpecControl
{
    typedef SpecRos stepper_type; SpecRos m_s; SpecRos &stepper() { return m_s; } const SpecRos &stepper() const { return m_s; }
    template< class S > void adjust_size( const S &x ) { m_s.adjust_size( x ); }
    template< class Sys > controlled_step_result try_step( Sys , const V &x , double &t , V &out , double &dt )
    {
        irv_assert( irv_same( x( 0 ) , s_x ) & irv_same( t , s_t ) & irv_same( dt , s_dt ) & ( &x != &out ) & ( out.size() == 1 ) , "tries the next step from the current state and time with the last proposal" );
        s_nt = s_t + s_dt; s_dt = irv_real( "next dt" ); dt = s_dt;
        if( irv_choose( "accept" , 2 ) ) { out( 0 ) = s_nx = irv_real( "new" ); t = s_nt; s_ok = true; return success; }
        if( irv_choose( "scratch" , 2 ) ) out( 0 ) = irv_real( "scratch" );
        return fail;
    }
};
typedef rosenbrock4_dense_output< SpecControl > DO; static DO *s_st;
extern "C" bool irv_inv_ros_time() { return s_st && irv_same( s_st->m_t , s_ok ? s_nt : s_t ); }
extern "C" bool irv_inv_ros_dt() { return s_st && irv_same( s_st->m_dt , s_dt ); }
IRV_HARNESS( C16_dense_output )
{
    DO st; s_st = &st; s_ok = false; V x0( 1 ); x0( 0 ) = s_x = irv_real( "x0" ); s_t = irv_real( "t0" ); s_dt = irv_real( "dt0" ); const double t0 = s_t;
    if( irv_choose( "adjusted" , 2 ) ) { st.adjust_size( x0 ); irv_assert( st.m_x1.m_v.size() == 1 && st.m_x2.m_v.size() == 1 && c_sized == 1 , "adjust_size sizes the states and the stepper" ); }
    st.m_current_state_x1 = irv_choose( "x1" , 2 ); st.initialize( x0 , s_t , s_dt );
    irv_assert( irv_same( st.current_state()( 0 ) , s_x ) & irv_same( st.current_time() , s_t ) & irv_same( st.current_time_step() , s_dt ) , "initialize" );
    std::pair< double , double > r( 0 , 0 ); bool thrown = false; c_preps = 0;
    try { r = st.do_step( std::make_pair( F() , J() ) ); } catch( step_adjustment_error & ) { thrown = true; }
    if( thrown ) { irv_cover( "gives up" ); return; }
    irv_assert( irv_same( r.first , t0 ) & irv_same( r.second , s_nt ) & irv_same( st.previous_time() , t0 ) & irv_same( st.current_time() , s_nt ) & irv_same( st.current_time_step() , s_dt ) , "step from the old to the new time" );
    irv_assert( irv_same( st.previous_state()( 0 ) , s_x ) & irv_same( st.current_state()( 0 ) , s_nx ) , "previous and current state" );
    irv_assert( c_preps == 1 , "interpolation prepared for the accepted step" );
    V y( 1 ); double t = irv_real( "t" ); st.calc_state( t , y );
    irv_assert( irv_same( y( 0 ) , irv_uf( "dense" , 5 , t , s_x , t0 , s_nx , s_nt ) ) , "interpolates between the ends of the step" );
    irv_cover( "step" );
}
