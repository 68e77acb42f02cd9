// C12: dense output of the Runge-Kutta steppers
#include <utility>
#include <vector>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include "rk.hpp"
#include "spec_error.hpp"
using namespace boost::numeric::odeint;
template< class X > static X fresh( const char *n ) { X x = St< X >::make(); fresh_state( x , n ); return x; }
// ---- the continuous extension of Dormand-Prince
template< class Stepper , class S > static void interpolant()
{
    Tableau tb; realise< NoErr , Stepper , S >( tb ); int s = tb.s;
    irv_assert( s == 7 , "seven stages" );
    double th = irv_real( "theta" ) , t = irv_real( "t" ) , dt = irv_real( "dt" ); if( irv_native() ) { dt = 0.1 + dabs( dt ); th = dabs( th ); while( th > 1 ) th /= 2; } irv_assume( dt != 0 );
    double bt[MAXS];
    r_sym = false;
    for( int j = 0 ; j < s ; ++j )
    {
        Stepper st; S x = St< S >::make() , d = St< S >::make() , o = St< S >::make() , dn = St< S >::make() , y = St< S >::make();
        for( int i = 0 ; i < MAXS ; ++i ) for( int c = 0 ; c < 2 ; ++c ) r_K[i][c] = i == j ? 1.0 : 0.0;
        r_n = 0; RecSys()( x , d , 0.0 ); st.do_step( RecSys() , x , d , 0.0 , o , dn , 1.0 ); irv_assert( r_n == s , "number of stages does not depend on the values" );
        st.calc_state( th , y , x , d , 0.0 , o , dn , 1.0 ); bt[j] = St< S >::at( y , 0 );
        st.calc_state( 0.0 , y , x , d , 0.0 , o , dn , 1.0 ); irv_assert( irv_eq( St< S >::at( y , 0 ) , 0.0 ) , "interpolant at the start is the old state" );
        st.calc_state( 1.0 , y , x , d , 0.0 , o , dn , 1.0 ); irv_assert( irv_eq( St< S >::at( y , 0 ) , tb.b[j] ) , "interpolant at the end is the new state" );
    }
    tree_weights( tb , 4 );
    irv_assert( order_holds_at( tb , bt , 4 , th ) , "continuous extension: order conditions up to order four for every fraction of the step" );
    // the interpolated state is that combination of the stages, for all states, times and steps, and nothing else changes
    Stepper st; S x = fresh< S >( "x" ) , o = St< S >::make() , d = St< S >::make() , dn = St< S >::make() , y = fresh< S >( "old y" ); const S x0 = x;
    r_sym = true; r_n = 0; RecSys()( x , d , t ); st.do_step( RecSys() , x , d , t , o , dn , dt ); S o0 = o , d0 = d , dn0 = dn;
    bool ok = true;
    for( int k = 0 ; k < 2 ; ++k )
    {
        if( k == 1 ) { S z = St< S >::make(); st.calc_state( irv_real( "another time" ) , z , x , d , t , o , dn , t + dt ); }      // earlier interpolations do not matter
        y = fresh< S >( "old y" ); st.calc_state( t + th * dt , y , x , d , t , o , dn , t + dt );
        for( int c = 0 ; c < St< S >::D ; ++c ) { double w = 0; for( int j = 0 ; j < s ; ++j ) w += bt[j] * r_K[j][c]; ok = ok & irv_eq( St< S >::at( y , c ) , St< S >::at( x0 , c ) + dt * w ); }
    }
    irv_assert( ok , "interpolated state is x_old + dt*sum b_i(theta) k_i" );
    irv_assert( state_eq( x , x0 ) & state_eq( o , o0 ) & state_eq( d , d0 ) & state_eq( dn , dn0 ) & ( r_n == s ) , "interpolation modifies nothing and evaluates nothing" );
    irv_cover( "end" );
}
IRV_HARNESS( C12_dopri5_interpolant_vec ) { interpolant< runge_kutta_dopri5< vec > , vec >(); }
IRV_HARNESS( C12_dopri5_interpolant_arr ) { interpolant< runge_kutta_dopri5< arr2 > , arr2 >(); }
IRV_HARNESS( C12_dopri5_interpolant_scalar ) { interpolant< runge_kutta_dopri5< double , double , double , double , vector_space_algebra > , double >(); }
// ---- histories: ghost end points of the last step
static double c_x[2] , c_t , p_x[2] , p_t , s_dt; static bool g_stepped; static long g_row;
template< class X > static X st2( const double *v ) { X x = St< X >::make(); x[0] = v[0]; x[1] = v[1]; return x; }
template< class D , class X > static bool cur( const D &st ) { return state_eq( st.current_state() , st2< X >( c_x ) ) & irv_eq( st.current_time() , c_t ); }
template< class D , class X > static bool prev( const D &st ) { return state_eq( st.previous_state() , st2< X >( p_x ) ) & irv_eq( st.previous_time() , p_t ); }
template< class D , class X > static bool points( const D &st ) { return cur< D , X >( st ) & ( !g_stepped | prev< D , X >( st ) ); }
// ---- contract of a controlled FSAL stepper with dense output
template< class X > struct DenseFsal : SpecBase< X >
{
    typedef explicit_error_stepper_fsal_tag stepper_category;
    template< class Y > void calc_state( double t , Y &y , const X &xo , const X &dxo , double to , const X &xn , const X &dxn , double tn ) const
    {
        irv_assert( state_eq( xo , st2< X >( p_x ) ) & irv_eq( to , p_t ) & state_eq( xn , st2< X >( c_x ) ) & irv_eq( tn , c_t ) , "interpolation between the end points of the last step" );
        irv_assert( state_eq( dxo , uf_deriv( xo , to ) ) & state_eq( dxn , uf_deriv( xn , tn ) ) , "interpolation uses the derivatives at both end points" );
        y[0] = irv_uf( "y0" , 1 , t ); y[1] = irv_uf( "y1" , 1 , t );
    }
};
template< class X > struct SpecCtrl
{
    typedef DenseFsal< X > stepper_type; typedef explicit_controlled_stepper_fsal_tag stepper_category; typedef typename stepper_type::resizer_type resizer_type;
    stepper_type m_st; stepper_type& stepper() { return m_st; } const stepper_type& stepper() const { return m_st; }
    template< class S > void adjust_size( const S & ) {}
    template< class Sys > controlled_step_result try_step( Sys sys , const X &in , const X &d , double &t , X &out , X &dout , double &dt )
    {
        irv_assert( state_eq( in , st2< X >( c_x ) ) & irv_eq( t , c_t ) & irv_eq( dt , s_dt ) , "the step continues from the current state and time with the current step size" );
        irv_assert( state_eq( d , uf_deriv( in , t ) ) , "the step is given the derivative at its start" );
        if( irv_bool( "reject" ) ) { ++g_row; fresh_state( out , "garbage" ); fresh_state( dout , "garbage" ); dt = irv_real( "smaller dt" ); s_dt = dt; return fail; }
        out = uf_out( in , d , t , dt ); dout = uf_deriv( out , t + dt );
        p_x[0] = c_x[0]; p_x[1] = c_x[1]; p_t = c_t; c_x[0] = out[0]; c_x[1] = out[1]; c_t = t + dt; t = t + dt; dt = irv_real( "next dt" ); s_dt = dt; g_stepped = true; return success;
    }
};
template< class X > static void ini( dense_output_runge_kutta< SpecCtrl< X > > &st )
{
    const X x = fresh< X >( "x" ); double t = irv_real( "t" ) , dt = irv_real( "dt" ); st.initialize( x , t , dt );
    c_x[0] = x[0]; c_x[1] = x[1]; c_t = t; s_dt = dt; g_stepped = false;
    irv_assert( points< dense_output_runge_kutta< SpecCtrl< X > > , X >( st ) & irv_eq( st.current_time_step() , dt ) , "initialize sets state, time and step" );
}
template< class D , class X > static bool op_step( D &st )
{
    const double o = c_t; g_row = 0; std::pair< double , double > r;
    try { r = st.do_step( UfSys() ); } catch( const step_adjustment_error& ) { irv_assert( g_row >= 500 , "step_adjustment_error only after 500 rejected tries" ); return false; }
    irv_assert( irv_eq( r.first , o ) & irv_eq( r.second , c_t ) & irv_eq( st.previous_time() , o ) , "the interval starts where the previous one ended and ends at the current time" );
    irv_assert( points< D , X >( st ) , "current and previous state and time are the end points of the accepted step" );
    irv_assert( irv_eq( st.current_time_step() , s_dt ) , "current time step is the one suggested by the controller" );
    return true;
}
template< class D , class X > static void op_calc( D &st )
{
    double t = irv_real( "t interp" ); X y = fresh< X >( "old y" );
    st.calc_state( t , y ); irv_assert( irv_eq( y[0] , irv_uf( "y0" , 1 , t ) ) & irv_eq( y[1] , irv_uf( "y1" , 1 , t ) ) , "interpolated state" );
    irv_assert( points< D , X >( st ) & irv_eq( st.current_time_step() , s_dt ) , "interpolation leaves the stepper alone" );
}
typedef dense_output_runge_kutta< SpecCtrl< arr2 > > DA; static DA *g_d; static bool g_started;
extern "C" bool irv_inv_row( void ) { return g_row <= 501; }
static const arr2 *g_first; static bool side() { return &g_d->current_state() == g_first; }   // which of the two buffers is current
extern "C" bool irv_inv_cur( void ) { return cur< DA , arr2 >( *g_d ); }
extern "C" bool irv_inv_prev( void ) { return !g_stepped | prev< DA , arr2 >( *g_d ); }
extern "C" bool irv_inv_pt( void ) { return irv_eq( g_d->previous_time() , c_t ); }
extern "C" bool irv_inv_dt( void ) { return irv_eq( g_d->current_time_step() , s_dt ); }
// the stored derivatives belong to the end points held in the same half of the double buffer
#define FC( I ) irv_eq( a , irv_uf( "f" #I , 3 , c_x[0] , c_x[1] , c_t ) )
#define FPREV( I ) irv_eq( a , irv_uf( "f" #I , 3 , p_x[0] , p_x[1] , p_t ) )
#define INVS( I ) \
extern "C" bool irv_inv_a##I( double a ) { return !side() | FC( I ); } \
extern "C" bool irv_inv_b##I( double a ) { return side() | FC( I ); } \
extern "C" bool irv_inv_sa##I( double a ) { return !g_stepped | !side() | FC( I ); } \
extern "C" bool irv_inv_sb##I( double a ) { return !g_stepped | side() | FC( I ); } \
extern "C" bool irv_inv_sc##I( double a ) { return !g_stepped | !side() | FPREV( I ); } \
extern "C" bool irv_inv_sd##I( double a ) { return !g_stepped | side() | FPREV( I ); }
INVS( 0 ) INVS( 1 )
// every operation after every operation (resizable state)
template< class X > static void seq( int a , int b , int c )
{
    typedef dense_output_runge_kutta< SpecCtrl< X > > D; D st; ini< X >( st );
    int op[3] = { a , b , c };
    for( int i = 0 ; i < 3 ; ++i ) { if( op[i] == 0 ) { if( !op_step< D , X >( st ) ) return; } else if( op[i] == 1 ) { if( g_stepped ) op_calc< D , X >( st ); } else ini< X >( st ); }
    irv_cover( "end" );
}
#define SQ( A ) IRV_HARNESS( C12_controlled_seq##A ) { seq< vec >( A , irv_choose( "second" , 3 ) , irv_choose( "third" , 2 ) ); }
SQ( 0 ) SQ( 1 ) SQ( 2 )
// any number of operations
IRV_HARNESS( C12_controlled_history )
{
    DA st; g_d = &st; g_first = &st.current_state(); ini< arr2 >( st ); if( !op_step< DA , arr2 >( st ) ) return; ini< arr2 >( st ); if( !op_step< DA , arr2 >( st ) ) return;
    long n = irv_nat( "n" , 0 , 6 );
    for( long i = 0 ; i < n ; ++i )
    {
        int op = irv_choose( "op" , 3 );
        if( op == 0 ) { if( !op_step< DA , arr2 >( st ) ) return; } else if( op == 1 ) { if( g_stepped ) op_calc< DA , arr2 >( st ); } else ini< arr2 >( st );
    }
    if( !op_step< DA , arr2 >( st ) ) return; op_calc< DA , arr2 >( st );
    irv_cover( "end" );
}
// ---- Euler with linear interpolation
template< class X > static void euler_ini( dense_output_runge_kutta< euler< X > > &st )
{
    const X x = fresh< X >( "x" ); double t = irv_real( "t" ) , dt = irv_real( "dt" ); st.initialize( x , t , dt );
    c_x[0] = x[0]; c_x[1] = x[1]; c_t = t; s_dt = dt; g_stepped = false;
    irv_assert( points< dense_output_runge_kutta< euler< X > > , X >( st ) & irv_eq( st.current_time_step() , dt ) , "initialize sets state, time and step (Euler)" );
}
template< class X > static void euler_step( dense_output_runge_kutta< euler< X > > &st )
{
    typedef dense_output_runge_kutta< euler< X > > D;
    const X c = st2< X >( c_x ) , d = uf_deriv( c , c_t ); std::pair< double , double > r = st.do_step( UfSys() );
    for( int i = 0 ; i < 2 ; ++i ) { p_x[i] = c_x[i]; c_x[i] = c_x[i] + s_dt * d[i]; } p_t = c_t; c_t = c_t + s_dt; g_stepped = true;
    irv_assert( irv_eq( r.first , p_t ) & irv_eq( r.second , c_t ) , "contiguous intervals (Euler)" );
    irv_assert( points< D , X >( st ) & irv_eq( st.current_time_step() , s_dt ) , "end points and step size (Euler)" );
}
template< class X > static void euler_calc( dense_output_runge_kutta< euler< X > > &st )
{
    typedef dense_output_runge_kutta< euler< X > > D;
    double t = irv_real( "t interp" ); X y = fresh< X >( "old y" ) , z = fresh< X >( "old z" ); const X d = uf_deriv( st2< X >( p_x ) , p_t );
    st.calc_state( t , y ); irv_assert( irv_eq( y[0] , p_x[0] + ( t - p_t ) * d[0] ) & irv_eq( y[1] , p_x[1] + ( t - p_t ) * d[1] ) , "linear interpolation" );
    st.calc_state( st.previous_time() , y ); st.calc_state( st.current_time() , z );
    irv_assert( state_eq( y , st2< X >( p_x ) ) & state_eq( z , st2< X >( c_x ) ) , "interpolation reproduces both end states" );
    irv_assert( points< D , X >( st ) & irv_eq( st.current_time_step() , s_dt ) , "interpolation leaves the stepper alone (Euler)" );
}
typedef dense_output_runge_kutta< euler< arr2 > > EA; static EA *g_e;
extern "C" bool irv_inv_ecur( void ) { return cur< EA , arr2 >( *g_e ); }
extern "C" bool irv_inv_eprev( void ) { return !g_stepped | prev< EA , arr2 >( *g_e ); }
extern "C" bool irv_inv_elin( void ) { const arr2 d = uf_deriv( st2< arr2 >( p_x ) , p_t ); return !g_stepped | ( irv_eq( c_x[0] , p_x[0] + ( c_t - p_t ) * d[0] ) & irv_eq( c_x[1] , p_x[1] + ( c_t - p_t ) * d[1] ) ); }
extern "C" bool irv_inv_ef0( double a ) { return !g_stepped | FPREV( 0 ); }
extern "C" bool irv_inv_ef1( double a ) { return !g_stepped | FPREV( 1 ); }
extern "C" bool irv_inv_edt( void ) { return irv_eq( g_e->current_time_step() , s_dt ); }
template< class X > static void euler_seq()
{
    dense_output_runge_kutta< euler< X > > st; euler_ini< X >( st ); euler_step< X >( st );
    for( int i = 0 ; i < 3 ; ++i ) { int op = irv_choose( "op" , 3 ); if( op == 0 ) euler_step< X >( st ); else if( op == 1 ) { if( g_stepped ) euler_calc< X >( st ); } else euler_ini< X >( st ); }
    irv_cover( "end" );
}
IRV_HARNESS( C12_euler_seq ) { euler_seq< vec >(); }
IRV_HARNESS( C12_euler_history )
{
    EA st; g_e = &st; euler_ini< arr2 >( st ); euler_step< arr2 >( st ); euler_ini< arr2 >( st ); euler_step< arr2 >( st );
    long n = irv_nat( "n" , 0 , 6 );
    for( long i = 0 ; i < n ; ++i ) { int op = irv_choose( "op" , 3 ); if( op == 0 ) euler_step< arr2 >( st ); else if( op == 1 ) { if( g_stepped ) euler_calc< arr2 >( st ); } else euler_ini< arr2 >( st ); }
    euler_step< arr2 >( st ); euler_calc< arr2 >( st );
    irv_cover( "end" );
}
// in rounded arithmetic: interpolation at the current time is exactly the current state
IRV_HARNESS( C12_euler_end_exact )
{
    irv_fp( 1 );
    dense_output_runge_kutta< euler< vec > > st; const vec x = fresh< vec >( "x" ); st.initialize( x , irv_real( "t" ) , irv_real( "dt" ) ); st.do_step( UfSys() );
    vec y = fresh< vec >( "old y" ); st.calc_state( st.current_time() , y );
    irv_assert( irv_same( y[0] , st.current_state()[0] ) & irv_same( y[1] , st.current_state()[1] ) , "interpolation at the current time is exactly the current state" );
    irv_cover( "end" );
}
