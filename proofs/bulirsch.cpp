// C18: Bulirsch-Stoer steppers: order and step control, extrapolation
#include <utility>
#include <vector>
#include <cmath>
#include <algorithm>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include "states.hpp"
typedef boost::array< double , 1 > S1;
static double dabs( double x ) { return x < 0 ? -x : x; }
// ---- contracts of the callees
// the norm of the scaled error of column k may be anything >= 0; its argument is recorded
static int g_errs , g_forced; static double g_err[ 12 ] , g_scaled[ 12 ];
struct SpecAlg : boost::numeric::odeint::array_algebra { template< class S > static double norm_inf( const S &x ) { irv_assert( g_errs < 12 , "error evaluations" ); g_scaled[ g_errs ] = x[ 0 ]; return g_err[ g_errs++ ]; } };
// the midpoint rule with n substeps returns some value M( n ) for the given arguments ( verified against its own contract in C24 and below )
static int g_cols , g_n[ 12 ]; static double g_M[ 40 ]; static bool g_args; static double g_x , g_d , g_t , g_dt;
struct SpecMid
{
    int n; SpecMid() : n( 2 ) {}
    void set_steps( unsigned short k ) { n = k; }
    template< class S > void adjust_size( const S & ) {}
    void call( const S1 &in , const S1 &d , double t , S1 &out , double dt ) { irv_assert( ( g_cols < 12 ) & ( n < 40 ) , "columns" ); g_n[ g_cols++ ] = n; g_args = g_args & irv_same( in[ 0 ] , g_x ) & irv_same( d[ 0 ] , g_d ) & irv_same( t , g_t ) & irv_same( dt , g_dt ); out[ 0 ] = g_M[ n ]; }
    template< class Sys > void do_step( Sys , const S1 &in , const S1 &d , double t , S1 &out , double dt ) { call( in , d , t , out , dt ); }
    template< class Sys , class T > void do_step( Sys , const S1 &in , const S1 &d , double t , S1 &out , double dt , S1 &mp , T &derivs )
    { call( in , d , t , out , dt ); irv_assert( derivs.size() >= (size_t) n , "room for the derivatives" ); mp[ 0 ] = irv_real( "midpoint" ); for( int i = 0 ; i < n ; ++i ) derivs[ i ].m_v[ 0 ] = irv_real( "k" ); }
};
namespace boost { namespace numeric { namespace odeint {
template<> class modified_midpoint< S1 , double , S1 , double , SpecAlg , default_operations , initially_resizer > : public SpecMid { };
template<> class modified_midpoint_dense_out< S1 , double , S1 , double , SpecAlg , default_operations , initially_resizer > : public SpecMid { };
} } }
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
using namespace boost::numeric::odeint;
typedef bulirsch_stoer< S1 , double , S1 , double , SpecAlg > BS;
typedef bulirsch_stoer_dense_out< S1 , double , S1 , double , SpecAlg > BSD;
// contract of prepare_dense_output (verified below): writes only the interpolation tables; returns the interpolation error when it is controlled
static bool g_ctrl;
extern "C" double spec_prepare_dense_output( BSD *self , int k , const S1 &x , const S1 &d , const S1 & , const S1 & , double dt )
{
    irv_assert( k == g_cols - 1 , "interpolation uses all columns" ); g_args = g_args & irv_same( x[ 0 ] , g_x ) & irv_same( d[ 0 ] , g_d ) & irv_same( dt , g_dt );
    for( int i = 0 ; i < 9 ; ++i ) self->m_mp_states[ i ].m_v[ 0 ] = irv_real( "havoc" );
    self->m_err.m_v[ 0 ] = irv_real( "havoc" );
    return g_ctrl ? g_err[ g_errs++ ] : 0.0;
}
struct Sys { void operator()( const S1 &x , S1 &d , double t ) const { d[ 0 ] = irv_uf( "f" , 2 , x[ 0 ] , t ); } };
static int seq( bool dense , int k ) { return dense ? 2 + 4 * k : 2 * ( k + 1 ); }
// extrapolation to substep size zero of columns from..to: product over the other columns of n_i^2 / ( n_i^2 - n_j^2 )
static double extrapolated( bool dense , int from , int to )
{
    double r = 0;
    for( int i = from ; i <= to ; ++i )
    {
        double w = 1 , ni = seq( dense , i ); for( int j = from ; j <= to ; ++j ) if( j != i ) { double nj = seq( dense , j ); w *= ni * ni / ( ni * ni - nj * nj ); }
        r += w * g_M[ seq( dense , i ) ];
    }
    return r;
}
struct Prior { bool first , rejected , same; int k; };
// way of starting: 0 going on with target order k, 1 fresh stepper, 2 reset, 3 step size changed by the caller; the last three do not depend on k
static Prior prior( int way , int k ) { Prior p; p.first = way == 1; p.rejected = way == 1 ? 0 : irv_choose( "last rejected" , 2 ); p.same = way != 3; p.k = k; return p; }
static void set( BS &st , const Prior &p , double dt ) { st.m_first = p.first; st.m_last_step_rejected = p.rejected; st.m_current_k_opt = p.first ? 4 : p.k; double o = irv_real( "other" ); irv_assume( o != dt ); st.m_dt_last = p.same ? dt : o; }
static void set( BSD &st , const Prior &p , double ) { st.m_first = p.first; st.m_last_step_rejected = p.rejected; st.m_current_k_opt = p.first ? 4 : p.k; }
template< class ST > static ST make( double M );
template<> BS make< BS >( double M ) { return BS( 1e-6 , 1e-6 , 1.0 , 1.0 , M ); }
template<> BSD make< BSD >( double M ) { return BSD( 1e-6 , 1e-6 , 1.0 , 1.0 , M , g_ctrl ); }
struct Res { bool ok; double t , dt , x , out , dn; int cols , errs; size_t k; };
static bool step( BS &st , S1 &x , S1 &d , double &t , S1 &out , S1 & , double &dt ) { return st.try_step( Sys() , x , d , t , out , dt ) == success; }
static bool step( BSD &st , S1 &x , S1 &d , double &t , S1 &out , S1 &dn , double &dt ) { return st.try_step( Sys() , x , d , t , out , dn , dt ) == success; }
template< class ST > static Res one( ST &st , double x , double d , double t , double dt )
{
    S1 X , D , O , DN; X[ 0 ] = x; D[ 0 ] = d; O[ 0 ] = irv_real( "old out" ); DN[ 0 ] = 0; Res r; r.t = t; r.dt = dt;
    g_cols = g_errs = 0; g_args = true; g_x = x; g_d = d; g_t = t; g_dt = dt;
    r.ok = step( st , X , D , r.t , O , DN , r.dt ); r.out = O[ 0 ]; r.dn = DN[ 0 ]; r.x = X[ 0 ]; r.cols = g_cols; r.errs = g_errs; r.k = st.m_current_k_opt;
    irv_assert( irv_same( X[ 0 ] , x ) & irv_same( D[ 0 ] , d ) , "start state and derivative untouched" );
    return r;
}
static void fresh_err( int n ) { for( int i = 0 ; i < n ; ++i ) { g_err[ i ] = irv_real( "err" ); irv_assume( g_err[ i ] >= 0 ); } }
static void fresh_mid() { for( int i = 0 ; i < 40 ; ++i ) g_M[ i ] = irv_real( "M" ); }
template< class ST > static void control( bool dense , int sign , bool limited , int k , int way )
{
    irv_merge( "calc_h_opt" ); irv_merge( "min_abs" ); irv_merge( "less_with_sign" );
    if( dense ) irv_contract( "::prepare_dense_output" , "spec_prepare_dense_output" );
    g_ctrl = dense && irv_choose( "control interpolation" , 2 );
    Prior p = prior( way , k );
    double x = irv_real( "x" ) , d = irv_real( "dxdt" ) , t = irv_real( "t" ) , dt = irv_real( "dt" ) , M = 0;
    irv_assume( sign * dt >= 1e-14 );
    if( limited ) { M = irv_real( "max_dt" ); irv_assume( sign * M > 0 ); }
    fresh_err( 9 ); fresh_mid();
    ST st( make< ST >( M ) ); set( st , p , dt );
    if( way == 2 ) { st.reset(); p.first = true; p.rejected = false; }
    bool first = p.first | !p.same , rejected = p.rejected & !first; int k0 = first ? 4 : p.k;
    Res r = one( st , x , d , t , dt );
    if( limited && r.cols == 0 )
    {
        irv_assert( sign * dt > sign * M , "only steps beyond the maximum are refused without trying" );
        irv_assert( !r.ok & irv_same( r.t , t ) & irv_same( r.dt , M ) , "refused: the maximum is proposed" );
        irv_cover( "beyond maximum" ); return;
    }
    irv_assert( !limited | ( sign * dt <= sign * M + 2.220446049250313e-16 ) , "steps beyond the maximum are not tried" );
    int kk = r.cols - 1;     // last column
    bool interp = g_ctrl && r.errs == kk + 1;
    irv_assert( ( r.errs == kk + interp ) & ( kk >= 1 ) & ( kk <= k0 + 1 ) , "columns up to one beyond the target" );
    bool s = true; for( int i = 0 ; i <= kk ; ++i ) s = s & ( g_n[ i ] == seq( dense , i ) );
    irv_assert( s & g_args , "midpoint rule from the start of the step with the substep sequence" );
    if( g_ctrl ) irv_assert( interp == ( g_err[ kk - 1 ] < 1 ) , "interpolation error evaluated for converged steps" );
    if( !interp ) irv_assert( r.ok == ( g_err[ kk - 1 ] < 1 ) , "accepted exactly if the scaled error of the last column is below one" );
    else irv_assert( r.ok == ( g_err[ kk ] <= 10 ) , "converged: rejected only for an interpolation error above ten" );
    for( int i = 1 ; i < kk ; ++i ) if( first | ( i >= k0 - 1 ) ) irv_assert( g_err[ i - 1 ] >= 1 , "convergence is noticed at once" );
    if( r.ok )
    {
        irv_assert( irv_eq( r.t , t + dt ) , "accepted: time advances by the tried step" );
        irv_assert( irv_eq( r.out , extrapolated( dense , 0 , kk ) ) , "accepted: result is the extrapolation of all columns" );
        irv_assert( !rejected | ( sign * r.dt <= sign * dt ) , "no growth directly after a rejection" );
        irv_assert( ( (int) r.k >= std::min( 7 , std::max( 2 , kk - 2 ) ) ) & ( (int) r.k <= std::max( 2 , kk + 1 ) ) , "new target order next to the column that converged" );
        if( dense ) irv_assert( irv_same( r.dn , irv_uf( "f" , 2 , r.out , r.t ) ) , "derivative of the new state at the new time" );
        irv_cover( "accepted" );
    }
    else
    {
        irv_assert( irv_same( r.t , t ) , "rejected: time unchanged" );
        irv_assert( sign * r.dt < sign * dt , "rejected: smaller step" );
        if( !interp ) irv_assert( (int) r.k == k0 , "rejected: target order unchanged" );
        irv_cover( "rejected" );
    }
    irv_assert( sign * r.dt > 0 , "the step keeps its sign" );
    irv_assert( !limited | ( sign * r.dt <= sign * M + 2.220446049250313e-16 ) , "the proposed step does not exceed the maximum" );
    irv_assert( ( r.k >= 2 ) & ( r.k <= 7 ) , "target order stays between 2 and 7" );
    irv_assert( !st.m_first | dense , "no longer the first step" );
    irv_assert( st.m_last_step_rejected == !r.ok , "remembers a rejection" );
}
#define C1( ST , dense , NAME , SIGN , LIM , K , WAY ) IRV_HARNESS( C18_##ST##_control_##NAME ) { control< ST >( dense , SIGN , LIM , K , WAY ); }
#define CTL1( ST , dense , K ) C1( ST , dense , forward_##K , 1 , false , K , 0 ) C1( ST , dense , backward_max_##K , -1 , true , K , 0 )
#define CTL( ST , dense ) CTL1( ST , dense , 2 ) CTL1( ST , dense , 3 ) CTL1( ST , dense , 4 ) CTL1( ST , dense , 5 ) CTL1( ST , dense , 6 ) CTL1( ST , dense , 7 ) \
    C1( ST , dense , backward_2 , -1 , false , 2 , 0 ) C1( ST , dense , forward_max_7 , 1 , true , 7 , 0 ) C1( ST , dense , fresh_forward , 1 , false , 4 , 1 ) C1( ST , dense , fresh_backward , -1 , true , 4 , 1 ) C1( ST , dense , reset_forward , 1 , true , 7 , 2 ) C1( ST , dense , reset_backward , -1 , false , 2 , 2 )
CTL( BS , false ) CTL( BSD , true ) C1( BS , false , newstep_forward , 1 , true , 7 , 3 ) C1( BS , false , newstep_backward , -1 , false , 2 , 3 )
// integrating backward takes the same decisions: same errors and a mirrored step give the mirrored proposal and the same target order
template< class ST > static void mirror( bool dense , int k )
{
    irv_merge( "calc_h_opt" ); irv_merge( "min_abs" ); irv_merge( "less_with_sign" );
    if( dense ) irv_contract( "::prepare_dense_output" , "spec_prepare_dense_output" );
    g_ctrl = dense;
    Prior p; p.first = false; p.rejected = irv_choose( "last rejected" , 2 ); p.same = true; p.k = k;
    double x = irv_real( "x" ) , d = irv_real( "dxdt" ) , t = irv_real( "t" ) , dt = irv_real( "dt" );
    irv_assume( dt >= 1e-14 );
    fresh_err( 9 ); fresh_mid();
    ST a( make< ST >( 0 ) ) , b( make< ST >( 0 ) ); set( a , p , dt ); set( b , p , -dt );
    Res r = one( a , x , d , t , dt ) , q = one( b , x , d , t , -dt );
    irv_assert( ( r.ok == q.ok ) & ( r.cols == q.cols ) & ( r.k == q.k ) , "same decisions" );
    irv_assert( irv_eq( q.dt , -r.dt ) , "mirrored step" );
    irv_assert( irv_eq( q.t - t , t - r.t ) , "mirrored time" );
    irv_cover( "mirror" );
}
#define MIR( K ) IRV_HARNESS( C18_BS_mirror_##K ) { mirror< BS >( false , K ); } IRV_HARNESS( C18_BSD_mirror_##K ) { mirror< BSD >( true , K ); }
MIR( 2 ) MIR( 4 )
// ---- the overloads of bulirsch_stoer and the scaled error
static double f( double x , double t ) { return irv_uf( "f" , 2 , x , t ); }
IRV_HARNESS( C18_overloads )
{
    irv_merge( "calc_h_opt" ); irv_merge( "min_abs" ); irv_merge( "less_with_sign" ); irv_merge( "rel_error" );
    double ea = irv_real( "eps_abs" ) , er = irv_real( "eps_rel" ) , ax = irv_real( "factor_x" ) , ad = irv_real( "factor_dxdt" );
    irv_assume( ( ea > 0 ) & ( er >= 0 ) & ( ax >= 0 ) & ( ad >= 0 ) );
    BS st( ea , er , ax , ad );
    double x = irv_real( "x" ) , d = irv_real( "dxdt" ) , t0 = irv_real( "t" ) , dt0 = irv_real( "dt" );
    int sign = irv_choose( "backward" , 2 ) ? -1 : 1; irv_assume( sign * dt0 > 0 );
    if( irv_choose( "used before" , 2 ) ) { fresh_mid(); g_err[ 0 ] = 0.5; g_cols = g_errs = 0; S1 y; y[ 0 ] = irv_real( "y" ); double s = irv_real( "s" ) , ds = irv_real( "ds" ); irv_assume( ds > 0 ); st.try_step( Sys() , y , s , ds ); st.reset(); }
    fresh_mid();
    bool rejected = irv_choose( "rejected" , 2 );
    for( int i = 0 ; i < 9 ; ++i ) g_err[ i ] = rejected ? 2 : 0.5;
    int ov = irv_choose( "overload" , 5 ); bool given = ov >= 3;
    S1 X , D , O; X[ 0 ] = x; D[ 0 ] = d; O[ 0 ] = irv_real( "old out" ); double old = O[ 0 ] , t = t0 , dt = dt0;
    g_cols = g_errs = 0; g_args = true; g_x = x; g_d = given ? d : f( x , t0 ); g_t = t0; g_dt = dt0;
    controlled_step_result r = fail; bool inplace = false;
    if( ov == 0 ) { inplace = true; r = st.try_step( Sys() , X , t , dt ); }
    if( ov == 1 ) { Sys sys; r = st.try_step( boost::ref( sys ) , X , t , dt ); inplace = true; }
    if( ov == 2 ) r = st.try_step( Sys() , X , t , O , dt );
    if( ov == 3 ) { r = st.try_step( Sys() , X , D , t , dt ); inplace = true; }
    if( ov == 4 ) r = st.try_step( Sys() , X , D , t , O , dt );
    double out = inplace ? X[ 0 ] : O[ 0 ];
    irv_assert( g_args & irv_same( D[ 0 ] , d ) , "midpoint rule from the start of the step with its derivative" );
    irv_assert( ( r == success ) == !rejected , "result" );
    int kk = g_cols - 1;
    if( r == success ) irv_assert( irv_eq( out , extrapolated( false , 0 , kk ) ) & irv_eq( t , t0 + dt0 ) , "accepted: extrapolated state at the next time" );
    else irv_assert( irv_same( t , t0 ) & irv_same( X[ 0 ] , x ) , "rejected: state and time unchanged" );
    if( !inplace ) irv_assert( irv_same( X[ 0 ] , x ) , "start state untouched" );
    irv_assert( irv_same( st.m_dt_last , dt ) , "remembers the proposed step" );
    for( int i = 1 ; i <= kk ; ++i )
    {
        double e = extrapolated( false , 0 , i ) - extrapolated( false , 1 , i );
        irv_assert( irv_eq( g_scaled[ i - 1 ] , dabs( e ) / ( ea + er * ( ax * dabs( x ) + ad * dabs( dt0 ) * dabs( g_d ) ) ) ) , "error of the last column against the one before, scaled" );
    }
    if( rejected ) { irv_cover( "rejected" ); } else { irv_cover( "accepted" ); }
    (void) old;
}
// ---- the step loop of the dense output stepper, against the contract of try_step
static double s_x , s_d , s_t , s_dt , s_nx , s_nd , s_nt; static int s_evals; static bool s_first , s_ok;
extern "C" int spec_try_step( BSD *self , const S1 &in , const S1 &d , double &t , S1 &out , S1 &dn , double &dt )
{
    irv_assert( irv_same( in[ 0 ] , s_x ) & irv_same( d[ 0 ] , s_d ) & irv_same( t , s_t ) & irv_same( dt , s_dt ) , "tries the next step from the current state, derivative and time with the last proposal" );
    irv_assert( ( &in != &out ) & ( &d != &dn ) , "does not overwrite the start of the step" );
    out[ 0 ] = s_nx = irv_real( "new state" ); dn[ 0 ] = s_nd = irv_real( "new deriv" );
    s_nt = s_t + s_dt; s_dt = irv_real( "next step" ); dt = s_dt;
    if( irv_choose( "accept" , 2 ) ) { t = s_nt; s_ok = true; return success; }
    return fail;
}
struct Sys2 { void operator()( const S1 &x , S1 &d , double t ) const { irv_assert( irv_same( x[ 0 ] , s_x ) & irv_same( t , s_t ) , "derivative at the start" ); s_evals++; d[ 0 ] = s_d; } };
static BSD *s_st;
extern "C" bool irv_inv_step_time() { return s_st && irv_same( s_st->m_t , s_ok ? s_nt : s_t ); }
extern "C" bool irv_inv_step_state() { return s_st && ( !s_ok || ( irv_same( s_st->get_old_state()[ 0 ] , s_nx ) & irv_same( s_st->get_old_deriv()[ 0 ] , s_nd ) ) ); }
extern "C" bool irv_inv_step_size() { return s_st && irv_same( s_st->m_dt , s_dt ); }
IRV_HARNESS( C18_dense_do_step )
{
    if( irv_native() ) return;      // contracts replace calls in the verifier only
    irv_contract( "::try_step<" , "spec_try_step" );
    BSD st; s_st = &st; s_ok = false; S1 x0; x0[ 0 ] = irv_real( "x0" ); double t0 = irv_real( "t0" ) , dt0 = irv_real( "dt0" );
    if( irv_choose( "fresh" , 2 ) )
    {
        st.m_first = irv_choose( "used" , 2 ); st.m_last_step_rejected = irv_choose( "rejected" , 2 ); st.m_current_state_x1 = irv_choose( "x1" , 2 );
        st.initialize( x0 , t0 , dt0 );
        irv_assert( ( st.m_first != 0 ) & ( st.m_last_step_rejected == 0 ) & ( st.m_current_k_opt == 4 ) , "initialize starts afresh" );
        s_first = true; s_d = irv_real( "f( x0 )" );
    }
    else
    {
        st.m_first = false; st.m_last_step_rejected = irv_choose( "rejected" , 2 ); st.m_current_state_x1 = irv_choose( "x1" , 2 );
        st.get_current_state() = x0; S1 d; d[ 0 ] = s_d = irv_real( "d" ); st.get_current_deriv() = d; st.m_t = t0; st.m_dt = dt0; s_first = false;
    }
    s_x = x0[ 0 ]; s_t = t0; s_dt = dt0; s_evals = 0;
    irv_assert( irv_same( st.current_state()[ 0 ] , s_x ) & irv_same( st.current_time() , t0 ) & irv_same( st.current_time_step() , dt0 ) , "current state, time and step" );
    std::pair< double , double > r( 0 , 0 ); bool thrown = false;
    try { r = st.do_step( Sys2() ); } catch( step_adjustment_error & ) { thrown = true; }
    irv_assert( s_evals == ( s_first ? 1 : 0 ) , "derivative evaluated only at the very first step" );
    if( thrown ) { irv_cover( "gives up" ); return; }
    irv_assert( irv_same( r.first , t0 ) & irv_same( r.second , s_nt ) , "returns the step" );
    irv_assert( irv_same( st.previous_time() , t0 ) & irv_same( st.current_time() , s_nt ) & irv_same( st.current_time_step() , s_dt ) , "previous and current time, proposed step" );
    irv_assert( irv_same( st.previous_state()[ 0 ] , x0[ 0 ] ) & irv_same( st.current_state()[ 0 ] , s_nx ) , "previous and current state" );
    irv_assert( irv_same( st.get_current_deriv()[ 0 ] , s_nd ) & !st.m_first , "derivative of the new state is kept" );
    irv_cover( "step" );
}
