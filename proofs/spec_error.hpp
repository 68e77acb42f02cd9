// Contract-specified error steppers: the step result and the error estimate are uninterpreted functions of everything
// the contract of do_step allows them to depend on.  Used to verify the controllers against the contract (not the body)
// of the stepper they control.
#ifndef SPEC_ERROR_HPP
#define SPEC_ERROR_HPP
#include "states.hpp"
#include <boost/numeric/odeint/util/state_wrapper.hpp>
#include <boost/numeric/odeint/util/resizer.hpp>
#include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
#include <boost/numeric/odeint/algebra/operations_dispatcher.hpp>
#include <boost/numeric/odeint/stepper/stepper_categories.hpp>
static long g_calls;      // steps performed by the underlying stepper
template< class X > static X uf_out( const X &x , const X &d , double t , double dt )
{ X r = St< X >::make(); r[0] = irv_uf( "o0" , 6 , x[0] , x[1] , d[0] , d[1] , t , dt ); r[1] = irv_uf( "o1" , 6 , x[0] , x[1] , d[0] , d[1] , t , dt ); return r; }
template< class X > static X uf_err( const X &x , const X &d , double t , double dt )
{ X r = St< X >::make(); r[0] = irv_uf( "e0" , 6 , x[0] , x[1] , d[0] , d[1] , t , dt ); r[1] = irv_uf( "e1" , 6 , x[0] , x[1] , d[0] , d[1] , t , dt ); return r; }
template< class X > struct SpecBase
{
    typedef X state_type; typedef X deriv_type; typedef double value_type; typedef double time_type; typedef unsigned short order_type;
    typedef typename boost::numeric::odeint::algebra_dispatcher< X >::algebra_type algebra_type;
    typedef typename boost::numeric::odeint::operations_dispatcher< X >::operations_type operations_type;
    typedef boost::numeric::odeint::initially_resizer resizer_type;
    typedef boost::numeric::odeint::state_wrapper< X > wrapped_state_type; typedef boost::numeric::odeint::state_wrapper< X > wrapped_deriv_type;
    algebra_type m_algebra; algebra_type& algebra() { return m_algebra; }
    order_type m_so , m_eo; SpecBase( order_type so = 5 , order_type eo = 4 ) : m_so( so ) , m_eo( eo ) {}
    order_type order() const { return m_so; } order_type stepper_order() const { return m_so; } order_type error_order() const { return m_eo; }
    template< class S > void adjust_size( const S & ) {}
};
template< class X > struct SpecErr : SpecBase< X >
{
    typedef boost::numeric::odeint::explicit_error_stepper_tag stepper_category;
    SpecErr( unsigned short so = 5 , unsigned short eo = 4 ) : SpecBase< X >( so , eo ) {}
    template< class Sys > void do_step( Sys , const X &in , const X &d , double t , X &out , double dt , X &err )
    { ++g_calls; const X e = uf_err( in , d , t , dt ); out = uf_out( in , d , t , dt ); err = e; }
};
template< class X > struct SpecFsal : SpecBase< X >
{
    typedef boost::numeric::odeint::explicit_error_stepper_fsal_tag stepper_category;
    SpecFsal( unsigned short so = 5 , unsigned short eo = 4 ) : SpecBase< X >( so , eo ) {}
    template< class Sys > void do_step( Sys sys , const X &in , const X &d , double t , X &out , X &dout , double dt , X &err )
    { ++g_calls; const X e = uf_err( in , d , t , dt ); out = uf_out( in , d , t , dt ); err = e; X dn = St< X >::make(); sys( out , dn , t + dt ); dout = dn; }
};
static inline double dabs( double x ) { return __builtin_fabs( x ); }
static inline double dmax( double a , double b ) { return a < b ? b : a; }
struct Tol { double ea , er , ax , ad; };
static Tol fresh_tol() { Tol t; t.ea = irv_real( "eps_abs" ); t.er = irv_real( "eps_rel" ); t.ax = irv_real( "a_x" ); t.ad = irv_real( "a_dxdt" ); irv_assume( ( t.ea > 0 ) & ( t.er >= 0 ) & ( t.ax >= 0 ) & ( t.ad >= 0 ) ); return t; }
template< class X > static double scaled( const X &x , const X &d , const X &e , double dt , const Tol &w )
{
    double a = dabs( e[0] ) / ( w.ea + w.er * ( w.ax * dabs( x[0] ) + w.ad * dabs( dt ) * dabs( d[0] ) ) );
    double b = dabs( e[1] ) / ( w.ea + w.er * ( w.ax * dabs( x[1] ) + w.ad * dabs( dt ) * dabs( d[1] ) ) );
    return dmax( a , b );
}
// contract of an error checker: some non-negative function of old state, old derivative, error estimate and step
template< class X > static double uf_scaled( const X &x , const X &d , const X &e , double dt ) { double r = irv_uf( "scaled" , 7 , x[0] , x[1] , d[0] , d[1] , e[0] , e[1] , dt ); irv_assume( r >= 0 ); return r; }
struct SpecChecker { template< class A , class X > double error( A & , const X &x , const X &d , X &e , double dt ) const { double r = uf_scaled( x , d , e , dt ); e[0] = irv_real( "scratch" ); e[1] = irv_real( "scratch" ); return r; } };
// contract of a step adjuster: arbitrary functions of step, error and order which keep the sign; rejection shrinks
static bool g_light;   // histories: nothing is assumed about the suggested steps
static double uf_inc( double dt , double err , double o ) { double r = irv_uf( "inc" , 3 , dt , err , o ); if( !g_light ) irv_assume( ( ( dt > 0 ) == ( r > 0 ) ) & ( r != 0 ) ); return r; }
static double uf_dec( double dt , double err , double o ) { double r = irv_uf( "dec" , 3 , dt , err , o ); if( !g_light ) irv_assume( ( ( dt > 0 ) == ( r > 0 ) ) & ( r != 0 ) & ( dabs( r ) < dabs( dt ) ) ); return r; }
struct SpecAdjuster
{
    double m; SpecAdjuster( double M = 0 ) : m( M ) {}
    double decrease_step( double dt , double err , int o ) const { return uf_dec( dt , err , o ); }
    double increase_step( double dt , double err , int o ) const { return uf_inc( dt , err , o ); }
    bool check_step_size_limit( double dt ) { return m == 0 || dabs( dt ) <= dabs( m ); }
    double get_max_dt() { return m; }
};
#endif
