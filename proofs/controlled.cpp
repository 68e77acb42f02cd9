// C05 / C06: controlled Runge-Kutta steppers and the default step adjuster
#include <utility>
#include <vector>
#include <cmath>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include "spec_error.hpp"
using namespace boost::numeric::odeint;
template< class X > static X fresh( const char *n ) { X x = St< X >::make(); fresh_state( x , n ); return x; }
// ---- C06: the step adjuster
typedef default_step_adjuster< double , double > adj;
static double nine_tenths() { return 9.0 / 10.0; }
static void adjuster( int sign , bool limited )
{
    double dt = irv_real( "dt" ) , err = irv_real( "err" ) , M = 0; irv_assume( sign * dt > 0 );
    if( limited ) { M = irv_real( "max_dt" ); irv_assume( sign * M > 0 ); }
    int order = (int) irv_int( "order" , 2 , 40 );
    adj a( M ); if( !limited && irv_bool( "default" ) ) a = adj();
    irv_assert( irv_eq( a.get_max_dt() , M ) , "the maximum step is the one given" );
    if( irv_bool( "reject" ) )
    {
        irv_assume( err > 1 );
        double f = dmax( nine_tenths() * std::pow( err , -1.0 / ( order - 1 ) ) , 1.0 / 5.0 ) , r = a.decrease_step( dt , err , order ) , e = dt * f;
        if( limited && sign * e > sign * M ) e = M;
        irv_assert( irv_eq( r , e ) , "rejection: max( 9/10 err^(-1/(order-1)) , 1/5 ), cut at the maximum step" );
        irv_assert( sign * r > 0 , "rejection keeps the sign of the step" );
        irv_assert( sign * r < sign * dt , "rejection shrinks the step" );
        irv_assert( irv_le( 0.2 * sign * dt , sign * r ) | limited , "rejection shrinks to no less than a fifth" );
        irv_cover( "reject" );
    }
    else
    {
        irv_assume( err >= 0 ); irv_assume( err <= 1 );
        double r = a.increase_step( dt , err , order ) , e = dt;
        if( err < 0.5 )
        {
            double b = std::pow( 5.0 , -(double) order ) , ee = err < b ? b : err;
            e = dt * ( nine_tenths() * std::pow( ee , -1.0 / order ) );
            if( limited && sign * e > sign * M ) e = M;
        }
        irv_assert( irv_eq( r , e ) , "acceptance: 9/10 err^(-1/order) for errors below 1/2, otherwise unchanged, cut at the maximum step" );
        irv_assert( sign * r > 0 , "acceptance keeps the sign of the step" );
        irv_assert( !limited | ( sign * dt > sign * M ) | irv_le( sign * r , sign * M ) , "an accepted step never grows beyond the maximum" );
        irv_cover( "accept" );
    }
}
IRV_HARNESS( C06_adjuster_forward ) { adjuster( 1 , false ); }
IRV_HARNESS( C06_adjuster_backward ) { adjuster( -1 , false ); }
IRV_HARNESS( C06_adjuster_forward_max ) { adjuster( 1 , true ); }
IRV_HARNESS( C06_adjuster_backward_max ) { adjuster( -1 , true ); }
static void limit( int sign )
{
    double dt = irv_real( "dt" ) , M = irv_real( "max_dt" ); irv_assume( ( sign * dt > 0 ) & ( sign * M >= 0 ) );
    adj a( M ); bool ok = a.check_step_size_limit( dt );
    irv_assert( ok | ( sign * dt > sign * M ) , "a step within the maximum is allowed" );
    irv_assert( !ok | ( M == 0 ) | ( sign * dt <= sign * M + 2.220446049250313e-16 ) , "a step beyond the maximum (by more than machine epsilon) is refused" );
    irv_cover( "end" );
}
IRV_HARNESS( C06_limit_forward ) { limit( 1 ); }
IRV_HARNESS( C06_limit_backward ) { limit( -1 ); }
// ---- C05: one try
template< class X > struct Plain { typedef controlled_runge_kutta< SpecErr< X > , SpecChecker , SpecAdjuster > type; };
template< class X > struct Fsal { typedef controlled_runge_kutta< SpecFsal< X > , SpecChecker , SpecAdjuster > type; };
template< class CT > static CT make( double M , int so , int eo ) { return CT( SpecChecker() , SpecAdjuster( M ) , typename CT::stepper_type( so , eo ) ); }
template< class X > struct Exp { X out , dout; double err , t , dt; bool ok , tried; };
// what the contract says about one try from ( x , t , dt ) with derivative d
template< class X > static Exp< X > expect( const X &x , const X &d , double t , double dt , double M , int so , int eo )
{
    Exp< X > e; e.out = uf_out( x , d , t , dt ); e.dout = uf_deriv( e.out , t + dt ); e.tried = true;
    if( M != 0 && dabs( dt ) > dabs( M ) ) { e.tried = false; e.ok = false; e.t = t; e.dt = M; e.err = 0; return e; }
    e.err = uf_scaled( x , d , uf_err( x , d , t , dt ) , dt ); e.ok = e.err <= 1;
    e.t = e.ok ? t + dt : t; e.dt = e.ok ? uf_inc( dt , e.err , so ) : uf_dec( dt , e.err , eo );
    return e;
}
// the default error checker computes the scaled error maximum
template< class X > static void checker()
{
    Tol w = fresh_tol(); const X x0 = fresh< X >( "x" ) , d0 = fresh< X >( "dxdt" ) , e0 = fresh< X >( "err" ); X x = x0 , d = d0 , e = e0; double dt = irv_real( "dt" );
    typedef typename SpecBase< X >::algebra_type A; typedef default_error_checker< double , A , default_operations > C; A a;
    C c( w.ea , w.er , w.ax , w.ad );
    double r = c.error( a , x , d , e , dt );
    irv_assert( irv_eq( r , scaled( x0 , d0 , e0 , dt , w ) ) , "scaled error maximum" );
    irv_assert( state_eq( x , x0 ) && state_eq( d , d0 ) , "state and derivative unmodified" );
    C def; Tol z = { 1.0e-6 , 1.0e-6 , 1 , 1 }; e = e0; r = def.error( a , x , d , e , dt ); irv_assert( irv_eq( r , scaled( x0 , d0 , e0 , dt , z ) ) , "default tolerances" );
    irv_cover( "end" );
}
IRV_HARNESS( C05_error_checker_vec ) { checker< vec >(); }
IRV_HARNESS( C05_error_checker_arr ) { checker< arr2 >(); }
static double fresh_dt( double &M , bool lim ) { double dt = irv_real( "dt" ); int s = irv_choose( "sign" , 2 ) ? 1 : -1; irv_assume( s * dt > 0 ); M = 0; if( lim ) { M = irv_real( "max_dt" ); irv_assume( s * M > 0 ); irv_assume( irv_native() == 0 || s * ( dt - M ) <= 0 || s * ( dt - M ) > 1e-9 ); } return dt; }
template< class X > static void result( controlled_step_result res , const Exp< X > &e , const X &x0 , const X &xin , const X *out , double t0 , double t , double dt0 , double dt )
{
    irv_assert( ( res == success ) == e.ok , "succeeds exactly when the step is tried and the scaled error maximum is at most 1" );
    irv_assert( ( g_calls == 1 ) == e.tried && g_calls <= 1 , "the underlying stepper makes one step, none beyond the maximum step" );
    irv_assert( irv_eq( t , e.t ) , "time advances by the tried step on success, stays on failure" );
    irv_assert( irv_eq( dt , e.dt ) , "suggested step" );
    irv_assert( ( dt0 > 0 ) == ( dt > 0 ) , "the step keeps its sign" );
    irv_assert( e.ok || dabs( dt ) < dabs( dt0 ) , "a failed try suggests a strictly smaller step" );
    if( out ) { irv_assert( state_eq( xin , x0 ) , "input state unmodified" ); irv_assert( !e.ok || state_eq( *out , e.out ) , "output is the underlying stepper's result" ); }
    else irv_assert( state_eq( xin , e.ok ? e.out : x0 ) , "state is the underlying stepper's result on success, unchanged on failure" );
}
template< class X > static void try_plain( int ov , bool lim )
{
    double M , dt0 = fresh_dt( M , lim ) , t0 = irv_real( "t" ); const X x0 = fresh< X >( "x" );
    typename Plain< X >::type st = make< typename Plain< X >::type >( M , 5 , 4 );
    X x = x0 , out = fresh< X >( "old out" ); double t = t0 , dt = dt0; g_calls = 0; controlled_step_result r;
    const X d = ov >= 2 ? fresh< X >( "dxdt" ) : uf_deriv( x0 , t0 ); X dd = d;
    Exp< X > e = expect( x0 , d , t0 , dt0 , M , 5 , 4 );
    if( ov == 0 ) r = st.try_step( UfSys() , x , t , dt );
    if( ov == 1 ) r = st.try_step( UfSys() , x , t , out , dt );
    if( ov == 2 ) r = st.try_step( UfSys() , x , dd , t , dt );
    if( ov == 3 ) r = st.try_step( UfSys() , x , dd , t , out , dt );
    result< X >( r , e , x0 , x , ov % 2 ? &out : 0 , t0 , t , dt0 , dt );
    irv_assert( state_eq( dd , d ) , "supplied derivative unmodified" );
    if( r == success ) irv_cover( "success" ); else irv_cover( "fail" );
}
template< class X > static void try_fsal( int ov , bool lim )
{
    double M , dt0 = fresh_dt( M , lim ) , t0 = irv_real( "t" ); const X x0 = fresh< X >( "x" );
    typename Fsal< X >::type st = make< typename Fsal< X >::type >( M , 5 , 4 );
    X x = x0 , out = fresh< X >( "old out" ) , dout = fresh< X >( "old dout" ); double t = t0 , dt = dt0; g_calls = 0; controlled_step_result r;
    const X d = ov >= 2 ? fresh< X >( "dxdt" ) : uf_deriv( x0 , t0 ); X dd = d;
    Exp< X > e = expect( x0 , d , t0 , dt0 , M , 5 , 4 );
    if( ov == 0 ) r = st.try_step( UfSys() , x , t , dt );
    if( ov == 1 ) r = st.try_step( UfSys() , x , t , out , dt );
    if( ov == 2 ) r = st.try_step( UfSys() , x , dd , t , dt );
    if( ov == 3 ) r = st.try_step( UfSys() , x , dd , t , out , dout , dt );
    result< X >( r , e , x0 , x , ov % 2 ? &out : 0 , t0 , t , dt0 , dt );
    if( ov == 2 ) irv_assert( state_eq( dd , e.ok ? e.dout : d ) , "caller-held derivative is that of the new state on success, unchanged on failure" );
    if( ov == 3 ) irv_assert( state_eq( dd , d ) && ( !e.ok || state_eq( dout , e.dout ) ) , "derivative input unmodified, output that of the new state" );
    irv_assert( st.is_initialized() == ( ov < 2 ) , "derivative stored exactly if the stepper evaluates it" );
    if( r == success ) irv_cover( "success" ); else irv_cover( "fail" );
}
#define T( N , OV ) \
IRV_HARNESS( C05_plain_##N##_vec ) { try_plain< vec >( OV , false ); } \
IRV_HARNESS( C05_plain_##N##_arr ) { try_plain< arr2 >( OV , false ); } \
IRV_HARNESS( C05_fsal_##N##_vec ) { try_fsal< vec >( OV , false ); } \
IRV_HARNESS( C05_fsal_##N##_arr ) { try_fsal< arr2 >( OV , false ); } \
IRV_HARNESS( C06_plain_##N ) { try_plain< vec >( OV , true ); } \
IRV_HARNESS( C06_fsal_##N ) { try_fsal< vec >( OV , true ); }
T( in_place , 0 ) T( out_of_place , 1 ) T( in_place_deriv , 2 ) T( out_of_place_deriv , 3 )
// ---- C05: any number of tries on one FSAL controller: every try continues with the derivative of the system at its own
// starting point, whatever was done before (failed tries, caller-supplied derivatives, reset, initialize)
static Fsal< arr2 >::type *g_st; static double g_x0 , g_x1 , g_t;
extern "C" bool irv_inv_f0( double a ) { return !g_st->is_initialized() | irv_eq( a , irv_uf( "f0" , 3 , g_x0 , g_x1 , g_t ) ); }
extern "C" bool irv_inv_f1( double a ) { return !g_st->is_initialized() | irv_eq( a , irv_uf( "f1" , 3 , g_x0 , g_x1 , g_t ) ); }
static bool res_ok( controlled_step_result r ) { return r == success; }
template< class X > static void fsal_op( typename Fsal< X >::type &st , X &x , double &t , int op )
{
    double dt0 = irv_real( "dt" ) , dt = dt0; g_calls = 0; g_light = true;
    if( op >= 4 ) { x = fresh< X >( "new x" ); t = irv_real( "new t" ); }
    if( op == 4 ) { st.reset(); irv_assert( !st.is_initialized() , "reset discards the stored derivative" ); return; }
    if( op == 5 ) { const X d = uf_deriv( x , t ); st.initialize( d ); irv_assert( st.is_initialized() , "initialize( deriv ) stores the derivative" ); return; }
    if( op == 6 ) { st.initialize( UfSys() , x , t ); irv_assert( st.is_initialized() , "initialize( system , x , t ) stores the derivative" ); return; }
    const X x0 = x , d = uf_deriv( x , t ); X out = fresh< X >( "old out" ) , dout = fresh< X >( "old dout" ) , dd = d; controlled_step_result r; const double t0 = t;
    Exp< X > e = expect( x0 , d , t0 , dt0 , 0.0 , 5 , 4 );
    if( op == 0 ) r = st.try_step( UfSys() , x , t , dt );
    if( op == 1 ) r = st.try_step( UfSys() , x , t , out , dt );
    if( op == 2 ) r = st.try_step( UfSys() , x , dd , t , dt );
    if( op == 3 ) r = st.try_step( UfSys() , x , dd , t , out , dout , dt );
    irv_assert( ( res_ok( r ) == e.ok ) & irv_eq( t , e.t ) & irv_eq( dt , e.dt ) , "result, time and step of a try in a history" );
    if( op % 2 ) irv_assert( ( !e.ok | state_eq( out , e.out ) ) & state_eq( x , x0 ) , "state of an out of place try in a history" ); else irv_assert( state_eq( x , e.ok ? e.out : x0 ) , "state of a try in a history" );
    if( op == 2 ) irv_assert( state_eq( dd , e.ok ? e.dout : d ) , "caller-held derivative in a history" );
    if( op == 3 ) irv_assert( !e.ok | state_eq( dout , e.dout ) , "derivative output in a history" );
    if( op % 2 && r == success ) x = out;
}
template< class X > static void fsal_pairs( int first )
{
    typename Fsal< X >::type st = make< typename Fsal< X >::type >( 0.0 , 5 , 4 ); X x = fresh< X >( "x" ); double t = irv_real( "t" );
    irv_assert( !st.is_initialized() , "a new stepper holds no derivative" );
    fsal_op< X >( st , x , t , first ); fsal_op< X >( st , x , t , irv_choose( "op" , 7 ) ); fsal_op< X >( st , x , t , irv_choose( "last op" , 2 ) );
    irv_cover( "end" );
}
#define FP( I ) IRV_HARNESS( C05_fsal_first##I ) { fsal_pairs< vec >( I ); }
FP( 0 ) FP( 1 ) FP( 2 ) FP( 3 ) FP( 4 ) FP( 5 ) FP( 6 )
IRV_HARNESS( C05_fsal_history )
{
    Fsal< arr2 >::type st = make< Fsal< arr2 >::type >( 0.0 , 5 , 4 ); arr2 x = fresh< arr2 >( "x" ); double t = irv_real( "t" ); g_st = &st;
    long n = irv_nat( "n" , 0 , 6 );
    fsal_op< arr2 >( st , x , t , 0 ); fsal_op< arr2 >( st , x , t , 0 ); st.reset();
    g_x0 = x[0]; g_x1 = x[1]; g_t = t;
    for( long i = 0 ; i < n ; ++i ) { fsal_op< arr2 >( st , x , t , irv_choose( "op" , 7 ) ); g_x0 = x[0]; g_x1 = x[1]; g_t = t; }
    fsal_op< arr2 >( st , x , t , 0 );
    irv_cover( "end" );
}
