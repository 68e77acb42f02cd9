// C24: extrapolation stepper and the modified midpoint rule it is built from
#include <utility>
#include <vector>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include "rk.hpp"
using namespace boost::numeric::odeint;
// ---- modified midpoint with n substeps: z0 = x, z1 = x + h f(x), z_{i+1} = z_{i-1} + 2h f(z_i), ( z_{n-1} + z_n + h f(z_n) )/2
template< class S > static S midpoint_ref( const S &x , const S &dxdt , double t , double dt , int n )
{
    double h = dt / n; S z0 = x , z1 = x , out = x , d = x;
    for( int c = 0 ; c < St< S >::D ; ++c ) St< S >::at( z1 , c ) += h * St< S >::at( dxdt , c );
    for( int i = 1 ; i < n ; ++i )
    {
        UfSys()( z1 , d , t + i * h );
        for( int c = 0 ; c < St< S >::D ; ++c ) { double z = St< S >::at( z0 , c ) + 2 * h * St< S >::at( d , c ); St< S >::at( z0 , c ) = St< S >::at( z1 , c ); St< S >::at( z1 , c ) = z; }
    }
    UfSys()( z1 , d , t + dt );
    for( int c = 0 ; c < St< S >::D ; ++c ) St< S >::at( out , c ) = ( St< S >::at( z0 , c ) + St< S >::at( z1 , c ) + h * St< S >::at( d , c ) ) / 2;
    return out;
}
template< class S > static void midpoint( int n )
{
    modified_midpoint< S > st( irv_bool( "set by constructor" ) ? n : 2 ); st.set_steps( n );
    irv_assert( st.steps() == n , "substep count" );
    S x = St< S >::make() , out = St< S >::make(); fresh_state( x , "x" ); fresh_state( out , "old out" ); const S x0 = x;
    double t = irv_real( "t" ) , dt = irv_real( "dt" ); S d = uf_deriv( x , t ); const S d0 = d;
    S want = midpoint_ref( x , d , t , dt , n );
    int ov = irv_choose( "overload" , 4 );
    if( ov == 0 ) { st.do_step( UfSys() , x , t , out , dt ); irv_assert( state_eq( x , x0 ) , "input untouched" ); }
    if( ov == 1 ) { st.do_step( UfSys() , x , t , dt ); out = x; }
    if( ov == 2 ) { st.do_step( UfSys() , x , d , t , out , dt ); irv_assert( state_eq( x , x0 ) & state_eq( d , d0 ) , "input untouched" ); }
    if( ov == 3 ) { st.do_step( UfSys() , x , d , t , dt ); out = x; irv_assert( state_eq( d , d0 ) , "input untouched" ); }
    irv_assert( state_eq( out , want ) , "modified midpoint rule" );
    irv_cover( "end" );
}
#define M( N ) IRV_HARNESS( C24_midpoint_##N##_vec ) { midpoint< vec >( N ); } IRV_HARNESS( C24_midpoint_##N##_arr ) { midpoint< arr2 >( N ); }
M( 1 ) M( 2 ) M( 3 ) M( 4 ) M( 5 ) M( 6 ) M( 8 ) M( 10 ) M( 12 ) M( 14 ) M( 16 ) M( 18 )
// ---- the extrapolation
// weights that cancel the first k even error powers: product over the other columns of n_i^2 / ( n_i^2 - n_j^2 )
template< class S > static S combine( const S &x , const S &d , double t , double dt , int from , int to )
{
    S r = x; for( int c = 0 ; c < St< S >::D ; ++c ) St< S >::at( r , c ) = 0;
    for( int i = from ; i <= to ; ++i )
    {
        double w = 1; for( int j = from ; j <= to ; ++j ) if( j != i ) w *= (double) ( i * i ) / (double) ( i * i - j * j );     // n_i = 2 i
        S m = midpoint_ref( x , d , t , dt , 2 * i );
        for( int c = 0 ; c < St< S >::D ; ++c ) St< S >::at( r , c ) += w * St< S >::at( m , c );
    }
    return r;
}
template< class S , int Order > static void overloads( void )
{
    typedef extrapolation_stepper< Order , S > ST; ST st; const int k = Order / 2;
    irv_assert( st.order() == Order && st.stepper_order() == Order && st.error_order() == Order - 2 , "advertised orders" );
    S x = St< S >::make() , out = St< S >::make() , e = St< S >::make(); fresh_state( x , "x" ); fresh_state( out , "old out" ); fresh_state( e , "old err" );
    if( irv_bool( "used before" ) ) { S y = St< S >::make() , z = St< S >::make() , ye = St< S >::make(); fresh_state( y , "y" ); st.do_step( UfSys() , y , irv_real( "s" ) , z , irv_real( "ds" ) , ye ); }
    const S x0 = x; double t = irv_real( "t" ) , dt = irv_real( "dt" ); S d = uf_deriv( x , t ); const S d0 = d;
    S want = combine( x , d , t , dt , 1 , k ) , low = combine( x , d , t , dt , 2 , k );
    int ov = irv_choose( "overload" , 10 ); bool err = true;
    if( ov == 0 ) { st.do_step( UfSys() , x , t , out , dt ); err = false; }
    if( ov == 1 ) { st.do_step( UfSys() , x , t , dt ); out = x; x = x0; err = false; }
    if( ov == 2 ) { st.do_step( UfSys() , x , d , t , out , dt ); err = false; }
    if( ov == 3 ) { st.do_step( UfSys() , x , d , t , dt ); out = x; x = x0; err = false; }
    if( ov == 4 ) st.do_step( UfSys() , x , t , out , dt , e );
    if( ov == 5 ) { st.do_step( UfSys() , x , t , dt , e ); out = x; x = x0; }
    if( ov == 6 ) st.do_step( UfSys() , x , d , t , out , dt , e );
    if( ov == 7 ) { st.do_step( UfSys() , x , d , t , dt , e ); out = x; x = x0; }
    if( ov == 8 ) { st.do_step( UfSys() , x , t , x , dt ); out = x; x = x0; err = false; }
    if( ov == 9 ) { st.do_step_dxdt_impl( UfSys() , x , d , t , x , dt ); out = x; x = x0; err = false; }
    irv_assert( state_eq( x , x0 ) & state_eq( d , d0 ) , "input state and derivative untouched" );
    irv_assert( state_eq( out , want ) , "midpoint results combined with the weights that cancel the even error powers" );
    if( err ) { bool ok = true; for( int c = 0 ; c < St< S >::D ; ++c ) ok = ok & irv_eq( St< S >::at( e , c ) , St< S >::at( want , c ) - St< S >::at( low , c ) ); irv_assert( ok , "error estimate is the difference of the last two extrapolation columns" ); }
    irv_cover( "end" );
}
// the scheme as a Runge-Kutta method: order conditions on rooted trees
template< class S , int Order > static void orders( void )
{
    typedef extrapolation_stepper< Order , S > ST; Tableau tb; realise< WithErr , ST , S >( tb );
    tree_weights( tb , Order );
    irv_assert( order_holds( tb , tb.b , Order ) , "all order conditions up to the advertised order" );
    double low[MAXS]; for( int i = 0 ; i < tb.s ; ++i ) low[i] = tb.b[i] - tb.e[i];
    irv_assert( order_holds( tb , low , Order - 2 ) , "comparison value has the advertised error order" );
    irv_cover( "end" );
}
#define X( O ) IRV_HARNESS( C24_extrapolation_##O##_vec ) { overloads< vec , O >(); } IRV_HARNESS( C24_extrapolation_##O##_arr ) { overloads< arr2 , O >(); } \
IRV_HARNESS( C24_order_##O##_arr ) { orders< arr2 , O >(); }
X( 4 ) X( 6 ) X( 8 )
IRV_HARNESS( C24_extrapolation_10_vec ) { overloads< vec , 10 >(); }
