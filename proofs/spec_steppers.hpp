// Contract-specified steppers used by the proofs of the integrate functions and iterators.
// Each one asserts its precondition (the state and time it is handed continue the solution) and
// returns an arbitrary result allowed by its postcondition.  Ghost state lives in globals, because the
// functions under proof copy steppers by value.
#ifndef SPEC_STEPPERS_HPP
#define SPEC_STEPPERS_HPP
#include <utility>
#include <vector>
#include <limits>
#include <boost/numeric/odeint/stepper/stepper_categories.hpp>
#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
#include <boost/numeric/odeint/util/odeint_error.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include "irv.h"
#include "spec_refs.hpp"
namespace od = boost::numeric::odeint;
static const double EPS = 2.220446049250313e-16;
static inline double absd( double x ) { return x < 0 ? -x : x; }
static inline bool near( double a , double b ) { return irv_native() ? irv_eq( a , b ) : ( ( a - b <= EPS ) & ( b - a <= EPS ) ); }

// ---- ghost state
static double g_s;                  // direction of time: +1 or -1
static double g_x , g_t;            // solution point reached by the stepper
static long   g_steps , g_tries;    // accepted steps, tries
static long   g_obs;                // observer calls so far
static long   g_since;              // steps since the last observation
static double g_t0 , g_dt , g_end;  // the problem
static double g_limit;              // no step may end beyond this time
static bool   g_has_limit;
// dense output
static double g_prev; static double g_dts; static bool g_valid , g_init; static double g_cx , g_ct;

// step checkers (C10)
static bool   g_chk; static long g_N;      // a max_step_checker( g_N ) is attached
static long   g_row , g_lastrow;           // consecutive rejected tries; number of them before the last try
static double g_keep; static bool g_track; // smallest step the controlled integrators may shrink to on their own
static bool   g_failed;
static long   g_maxrow = 500;              // tries in a row the code under proof allows itself
static void ghost_init( double x , double t , double s )
{ g_s = s; g_x = x; g_t = t; g_steps = g_tries = g_obs = g_since = 0; g_has_limit = false; g_valid = g_init = false; g_prev = t; g_dts = 0; g_cx = x; g_ct = t; g_chk = false; g_N = 0; g_row = g_lastrow = 0; g_keep = 0; g_track = g_failed = false; g_maxrow = 500; }

// C10: the same proofs with a step checker attached
#ifdef IRV_C10
#ifdef IRV_NOCHK
#define CHK
#define CHK_INIT
#else
#define CHK , od::max_step_checker( (int) g_N )
#define CHK_INIT g_chk = true; g_N = irv_nat( "N" , 0 , 4 ); irv_assume( g_N < 2147483647 );
#endif
#define CHK_OBS irv_assert( !g_chk | ( g_since <= g_N ) , "no more steps than the limit between two observations" );
#define CHK_CATCH catch( const od::no_progress_error& ) { irv_assert( g_chk & ( g_since >= g_N ) , "no_progress_error only after more steps than the limit without observation" ); irv_cover( "no progress" ); return; } \
    catch( const od::step_adjustment_error& ) { irv_assert( g_lastrow >= 500 , "step_adjustment_error only after more than 500 consecutive rejections" ); irv_cover( "step adjustment" ); return; }
#ifndef HP
#define HP( x ) IRV_HARNESS( C10_##x )
#endif
#else
#define CHK
#define CHK_INIT
#define CHK_OBS
#define CHK_CATCH catch( const od::step_adjustment_error& ) { return; }
#endif
#ifndef HPF
#define HPF( x ) HP( x##_fwd )
#define HPB( x ) HP( x##_bwd )
#endif
struct Sys { TAG template< class A , class B > void operator()( const A& , B& , double ) const { irv_assert( false , "spec: system must only be passed to the stepper" ); } };


// plain stepper: x := solution at t+dt
struct SpecStepper
{
    typedef double state_type; typedef double value_type; typedef double deriv_type; typedef double time_type; typedef unsigned short order_type;
    typedef od::stepper_tag stepper_category; TAG
    template< class S > void do_step( S sys , double &x , double t , double dt )
    {
        CHK_ID( this , g_id_st , "stepper" ) CHK_SYS( sys )
        irv_assert( irv_eq( x , g_x ) , "step continues from the state reached" );
        irv_assert( near( t , g_t ) , "step starts at the time reached" );
        irv_assert( dt * g_s > 0 , "step goes forward" );
        if( g_has_limit ) irv_assert( ( t + dt - g_limit ) * g_s <= 8*EPS || irv_le( ( t + dt ) * g_s , g_limit * g_s ) , "step does not pass the limit" );
        if( g_chk ) irv_assert( g_since <= g_N , "no step is made beyond the checker's limit" );
        x = irv_real( "x" ); g_x = x; g_t = t + dt; g_steps++; g_tries++; g_since++;
    }
};
static double g_sdt;   // step size the controlled stepper currently suggests (ghost)
struct SpecControlled
{
    typedef double state_type; typedef double value_type; typedef double deriv_type; typedef double time_type; typedef unsigned short order_type;
    typedef od::controlled_stepper_tag stepper_category; TAG
    template< class S > od::controlled_step_result try_step( S sys , double &x , double &t , double &dt )
    {
        CHK_ID( this , g_id_st , "stepper" ) CHK_SYS( sys )
        irv_assert( irv_eq( x , g_x ) , "try continues from the state reached" );
        irv_assert( near( t , g_t ) , "try starts at the time reached" );
        irv_assert( dt * g_s > 0 , "try goes forward" );
        if( g_has_limit ) irv_assert( ( t + dt - g_limit ) * g_s <= 8*EPS || irv_le( ( t + dt ) * g_s , g_limit * g_s ) , "try does not pass the limit" );
        if( g_chk ) irv_assert( g_since <= g_N , "no step is made beyond the checker's limit" );
        irv_assert( g_row <= g_maxrow , "tries in a row are limited" );
        if( g_track )
        {
            double rem = ( g_limit - t ) * g_s , k = g_keep * g_s , m = k < rem ? k : rem;
            irv_assert( irv_le( m , dt * g_s ) , "the suggested step is kept" );
            if( g_failed ) irv_assert( irv_le( dt * g_s , k ) , "after a rejection the reduced step is used" );
        }
        g_tries++; g_lastrow = g_row;
        double h = irv_real( "newdt" ); 
        if( irv_bool( "accept" ) )
        {
            if( irv_native() ) h = g_s * ( absd( h ) + 0.01 );
            irv_assume( h * g_s > 0 );
            t += dt; dt = h; x = irv_real( "x" ); g_x = x; g_t = t; g_steps++; g_since++; g_row = 0; g_failed = false;
            return od::success;
        }
        if( irv_native() ) h = dt * ( 0.3 + 0.3 / ( 1 + absd( h ) ) );
        irv_assume( ( h * g_s > 0 ) & ( h * g_s < dt * g_s ) );
        dt = h; g_row++; g_keep = h; g_failed = true;
        return od::fail;
    }
};
struct SpecDense
{
    typedef double state_type; typedef double value_type; typedef double deriv_type; typedef double time_type; typedef unsigned short order_type;
    typedef od::dense_output_stepper_tag stepper_category; TAG
    void initialize( const double &x , double t , double dt )
    {
        CHK_ID( this , g_id_st , "stepper" )
        irv_assert( irv_eq( x , g_x ) , "initialize continues from the state reached" );
        irv_assert( irv_eq( t , g_t ) , "initialize continues from the time reached" );
        g_dts = dt; g_valid = false; g_init = true; g_prev = t;
    }
    template< class S > std::pair< double , double > do_step( S sys )
    {
        CHK_ID( this , g_id_st , "stepper" ) CHK_SYS( sys )
        irv_assert( g_init , "dense stepper was initialized" );
        irv_assert( g_dts * g_s > 0 , "dense step goes forward" );
        if( g_has_limit ) irv_assert( ( g_t + g_dts - g_limit ) * g_s <= 8*EPS || irv_le( ( g_t + g_dts ) * g_s , g_limit * g_s ) , "dense step does not pass the limit" );
        if( g_chk ) irv_assert( g_since <= g_N , "no step is made beyond the checker's limit" );
        double h = irv_real( "h" ) , n = irv_real( "newdt" ); 
        if( irv_native() ) { h = irv_bool( "full" ) || absd( g_dts ) < 1e-9 ? g_dts : g_dts * ( 0.3 + 0.4 / ( 1 + absd( h ) ) ); n = g_s * ( absd( n ) + 0.01 ); }
        irv_assume( ( h * g_s > 0 ) & ( h * g_s <= g_dts * g_s ) & ( n * g_s > 4*EPS ) );
        g_prev = g_t; g_t = g_t + h; g_x = irv_real( "x" ); g_dts = n; g_valid = true; g_steps++; g_tries++; g_since++;
        return std::make_pair( g_prev , g_t );
    }
    void calc_state( double t , double &x ) const
    {
        CHK_ID( this , g_id_st , "stepper" )
        irv_assert( g_valid , "interpolation only after a step" );
        irv_assert( irv_native() ? irv_le( ( g_prev - t ) * g_s , 0 ) : ( g_prev - t ) * g_s <= EPS , "interpolation not before the last step" );
        irv_assert( irv_native() ? irv_le( ( t - g_t ) * g_s , 0 ) : ( t - g_t ) * g_s <= EPS , "interpolation not beyond the last step" );
        x = irv_real( "xi" ); g_cx = x; g_ct = t;
    }
    template< class X > void calc_state( double t , const X &x ) const { calc_state( t , const_cast< X& >( x ) ); }
    const double& current_state( void ) const { return g_x; }
    double current_time( void ) const { CHK_ID( this , g_id_st , "stepper" ) return g_t; }
    const double& previous_state( void ) const { return g_x; }
    double previous_time( void ) const { return g_prev; }
    double current_time_step( void ) const { return g_dts; }
};
// is x the solution at time t?
static inline bool solution_at( double x , double t )
{ return ( irv_eq( x , g_x ) & near( t , g_t ) ) | ( irv_eq( x , g_cx ) & near( t , g_ct ) ); }
#endif
