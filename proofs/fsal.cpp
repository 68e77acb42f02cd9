// C04: first-same-as-last stepper
#include <utility>
#include <vector>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include "states.hpp"
using namespace boost::numeric::odeint;
template< class X > static X fresh( const char *n ) { X x = St< X >::make(); fresh_state( x , n ); return x; }
// reference: one step of a fresh stepper with the derivative of the current state
template< class X > struct Ref { X out , dout , err; };
template< class X > static void ref_step( const X &x , double t , double dt , Ref< X > &r )
{
    runge_kutta_dopri5< X > s; r.out = St< X >::make(); r.dout = St< X >::make(); r.err = St< X >::make();
    const X d = uf_deriv( x , t );
    s.do_step( UfSys() , x , d , t , r.out , r.dout , dt , r.err );
}
static double g_x0 , g_x1 , g_t; static bool g_has;   // the solution point the stepper's stored derivative belongs to
template< class X > static void operation( runge_kutta_dopri5< X > &st , X &x , double &t , int op )
{
    double dt = irv_real( "dt" );
    if( op >= 6 ) { x = fresh< X >( "new x" ); t = irv_real( "new t" ); }       // the caller continues from some other state
    if( op == 6 ) { st.reset(); irv_assert( !st.is_initialized() , "reset discards the stored derivative" ); g_has = false; return; }
    if( op == 7 ) { const X d = uf_deriv( x , t ); st.initialize( d ); irv_assert( st.is_initialized() , "initialize stores the derivative" ); g_has = true; return; }
    if( op == 8 ) { st.initialize( UfSys() , x , t ); irv_assert( st.is_initialized() , "initialize stores the derivative" ); g_has = true; return; }
    if( op == 9 ) { const X d = uf_deriv( x , t ); X out = fresh< X >( "old out" ) , dout = fresh< X >( "old dout" ); Ref< X > r; ref_step( x , t , dt , r ); st.do_step( UfSys() , x , d , t , out , dout , dt );
        irv_assert( state_eq( out , r.out ) , "caller-held derivative elsewhere: state" ); irv_assert( state_eq( dout , uf_deriv( out , t + dt ) ) , "caller-held derivative elsewhere: derivative" ); g_has = false; x = fresh< X >( "another x" ); t = irv_real( "another t" ); return; }
    Ref< X > r; ref_step( x , t , dt , r );
    const X x0 = x; X e = fresh< X >( "old err" ) , out = fresh< X >( "old out" );
    irv_assert( state_eq( r.dout , uf_deriv( r.out , t + dt ) ) , "derivative returned is the system at the new state and time" );
    if( op == 0 ) { st.do_step( UfSys() , x , t , dt ); irv_assert( state_eq( x , r.out ) , "in place" ); }
    if( op == 1 ) { st.do_step( UfSys() , x , t , out , dt ); irv_assert( state_eq( out , r.out ) & state_eq( x , x0 ) , "out of place" ); x = out; }
    if( op == 2 ) { st.do_step( UfSys() , x , t , dt , e ); irv_assert( state_eq( x , r.out ) & state_eq( e , r.err ) , "in place with error" ); }
    if( op == 3 ) { st.do_step( UfSys() , x , t , out , dt , e ); irv_assert( state_eq( out , r.out ) & state_eq( x , x0 ) & state_eq( e , r.err ) , "out of place with error" ); x = out; }
    if( op <= 3 ) { irv_assert( st.is_initialized() , "derivative stored after a step" ); g_has = true; }
    if( op == 4 ) { X d = uf_deriv( x , t ); if( irv_bool( "with error" ) ) { st.do_step( UfSys() , x , d , t , dt , e ); irv_assert( state_eq( e , r.err ) , "caller-held derivative: error" ); } else st.do_step( UfSys() , x , d , t , dt ); irv_assert( state_eq( x , r.out ) , "caller-held derivative: state" ); irv_assert( state_eq( d , uf_deriv( x , t + dt ) ) , "caller-held derivative: updated" ); }
    if( op == 5 ) { const X d = uf_deriv( x , t ); const X d0 = d; X dout = fresh< X >( "old dout" ); st.do_step( UfSys() , x , d , t , out , dout , dt , e ); irv_assert( state_eq( out , r.out ) & state_eq( e , r.err ) & state_eq( x , x0 ) & state_eq( d , d0 ) , "caller-held derivative, out of place" ); irv_assert( state_eq( dout , uf_deriv( out , t + dt ) ) , "caller-held derivative, out of place: new derivative" ); x = out; }
    if( op == 4 || op == 5 ) { irv_assert( !st.is_initialized() , "caller-supplied derivatives invalidate the stored one" ); g_has = false; }
    t = t + dt;
}
// pairs: every operation after every operation, then a plain step
template< class X > static void pairs( int first )
{
    runge_kutta_dopri5< X > st; X x = fresh< X >( "x" ); double t = irv_real( "t" );
    irv_assert( !st.is_initialized() , "a new stepper holds no derivative" );
    operation< X >( st , x , t , first );
    operation< X >( st , x , t , irv_choose( "op" , 10 ) );
    operation< X >( st , x , t , irv_choose( "last op" , 2 ) == 0 ? 0 : 3 );
    irv_cover( "end" );
}
#define F( I ) \
IRV_HARNESS( C04_first##I##_vec ) { pairs< vec >( I ); } \
IRV_HARNESS( C04_first##I##_arr ) { pairs< arr2 >( I ); }
F( 0 ) F( 1 ) F( 2 ) F( 3 ) F( 4 ) F( 5 ) F( 6 ) F( 7 ) F( 8 ) F( 9 )
// any number of operations
static runge_kutta_dopri5< arr2 > *g_st;
extern "C" bool irv_inv_f0( double a ) { return !g_st->is_initialized() | irv_eq( a , irv_uf( "f0" , 3 , g_x0 , g_x1 , g_t ) ); }
extern "C" bool irv_inv_f1( double a ) { return !g_st->is_initialized() | irv_eq( a , irv_uf( "f1" , 3 , g_x0 , g_x1 , g_t ) ); }
IRV_HARNESS( C04_history )
{
    runge_kutta_dopri5< arr2 > st; arr2 x = fresh< arr2 >( "x" ); double t = irv_real( "t" ); g_st = &st;
    long n = irv_nat( "n" , 0 , 6 );
    operation< arr2 >( st , x , t , 3 ); st.reset();       // all members are written once; then any history
    g_x0 = x[0]; g_x1 = x[1]; g_t = t;
    for( long i = 0 ; i < n ; ++i ) { operation< arr2 >( st , x , t , irv_choose( "op" , 10 ) ); g_x0 = x[0]; g_x1 = x[1]; g_t = t; }
    operation< arr2 >( st , x , t , 0 );
    irv_cover( "end" );
}
