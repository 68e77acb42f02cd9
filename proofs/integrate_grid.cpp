// C07, observation times in rounded arithmetic: every floating point operation is an uninterpreted function, so equality
// means "computed by the same rounded operations": the i-th observation time is t0 + i*dt with two roundings, never an
// accumulated sum (whose error would grow with i).
#include <utility>
#include <vector>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include "irv.h"
using namespace boost::numeric::odeint;
static double g_t0 , g_dt; static long g_obs;
static double grid( long i ) { return g_t0 + static_cast< double >( i ) * g_dt; }
struct Sys { void operator()( const double & , double & , double ) const {} };
struct Obs { void operator()( const double & , double t ) const { irv_assert( irv_same( t , grid( g_obs ) ) , "observation i is at t0 + i*dt without accumulated rounding" ); g_obs++; } };
struct Base { typedef double state_type; typedef double deriv_type; typedef double value_type; typedef double time_type; typedef unsigned short order_type; };
struct Free : Base { typedef stepper_tag stepper_category; template< class S > void do_step( S , double &x , double t , double dt ) const { x = irv_real( "x" ); } };
struct FreeC : Base { typedef controlled_stepper_tag stepper_category; template< class S > controlled_step_result try_step( S , double &x , double &t , double &dt ) const { if( irv_bool( "reject" ) ) return fail; x = irv_real( "x" ); t = irv_native() ? t + dt : irv_real( "t" ); return success; } };
static double d_x , d_t , d_dt;
struct FreeD : Base
{
    typedef dense_output_stepper_tag stepper_category;
    void initialize( const double &x , double t , double dt ) { d_x = x; d_t = t; d_dt = dt; }
    template< class S > std::pair< double , double > do_step( S ) { double o = d_t; if( irv_native() ) d_t += d_dt; else { d_t = irv_real( "t" ); d_dt = irv_real( "dt" ); } return std::make_pair( o , d_t ); }
    void calc_state( double , double &x ) const { x = irv_real( "x" ); }
    const double& current_state() const { return d_x; } double current_time() const { return d_t; } double current_time_step() const { return d_dt; }
};
extern "C" bool irv_inv_grid( double a ) { return irv_same( a , grid( g_obs ) ); }
static long g_n;
extern "C" bool irv_inv_obs_n( void ) { return g_obs <= g_n; }
static void setup( double &x , double &t , double &dt ) { irv_fp( 1 ); x = irv_real( "x0" ); t = irv_real( "t0" ); dt = irv_real( "dt" ); if( irv_native() ) { dt = 0.1 + 0.01 * dt; if( dt <= 0 ) dt = 0.1; } irv_assume( dt != 0 ); g_t0 = t; g_dt = dt; g_obs = 0; }
template< class S > static void n_steps()
{
    double x , t , dt; setup( x , t , dt ); long n = irv_nat( "n" , 0 , 400 ); g_n = n; double r;
    try { r = integrate_n_steps( S() , Sys() , x , t , dt , (size_t) n , Obs() ); } catch( const step_adjustment_error& ) { return; }
    irv_assert( irv_same( r , grid( n ) ) , "returned time is t0 + n*dt without accumulated rounding" );
    irv_cover( "end" );
}
template< class S > static void const_( )
{
    double x , t , dt; setup( x , t , dt ); double end = irv_real( "end" ); if( irv_native() ) { end = t + dt * irv_nat( "n" , 0 , 400 ) ; }
    try { integrate_const( S() , Sys() , x , t , end , dt , Obs() ); } catch( const step_adjustment_error& ) { return; }
    irv_cover( "end" );
}
IRV_HARNESS( C07_grid_n_plain ) { n_steps< Free >(); }
IRV_HARNESS( C07_grid_n_controlled ) { n_steps< FreeC >(); }
IRV_HARNESS( C07_grid_n_dense ) { n_steps< FreeD >(); }
IRV_HARNESS( C07_grid_const_plain ) { const_< Free >(); }
IRV_HARNESS( C07_grid_const_controlled ) { const_< FreeC >(); }
IRV_HARNESS( C07_grid_const_dense ) { const_< FreeD >(); }
