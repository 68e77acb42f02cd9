// C23: generated steppers behave like steppers constructed by hand from the same arguments
#include <utility>
#include <vector>
#include <cmath>
#include <boost/array.hpp>
#define BOOST_UBLAS_NDEBUG
#include <boost/numeric/odeint.hpp>
#include "irv.h"
using namespace boost::numeric::odeint;
typedef boost::array< double , 1 > A1;
struct Sys { void operator()( const A1 &x , A1 &d , double t ) const { d[ 0 ] = irv_uf( "f" , 2 , x[ 0 ] , t ); } };
static double g_a , g_r , g_md; static int g_dir;
static void arguments() { g_a = irv_real( "abs" ); g_r = irv_real( "rel" ); g_dir = irv_choose( "backward" , 2 ) ? -1 : 1; g_md = irv_real( "max dt" ); irv_assume( ( g_a > 0 ) & ( g_r >= 0 ) & ( g_dir * g_md > 0 ) ); }
// one attempt from the same state by both
template< class S , class C1 , class C2 > static void twin_try( C1 &c1 , C2 &c2 , S s , double x0 , double t0 , double dt0 )
{
    A1 x , y; x[ 0 ] = y[ 0 ] = x0; double t = t0 , u = t0 , dt = dt0 , du = dt0;
    controlled_step_result r = c1.try_step( s , x , t , dt ) , q = c2.try_step( s , y , u , du );
    irv_assert( ( r == q ) & irv_eq( x[ 0 ] , y[ 0 ] ) & irv_eq( t , u ) & irv_eq( dt , du ) , "attempt of the generated stepper equals the attempt of the stepper made by hand" );
}
template< class C1 , class C2 > static void twin( C1 c1 , C2 c2 , double x0 ) { double t = irv_real( "t" ) , dt = irv_real( "dt" ); irv_assume( g_dir * dt > 0 ); twin_try( c1 , c2 , Sys() , x0 , t , dt ); irv_cover( "end" ); }
template< class ST > static controlled_runge_kutta< ST > hand( bool max , const ST &st )
{
    typedef controlled_runge_kutta< ST > C; typedef typename C::error_checker_type E; typedef typename C::step_adjuster_type A;
    return max ? C( E( g_a , g_r ) , A( g_md ) , st ) : C( E( g_a , g_r ) , A() , st );
}
// the base stepper may have been used before: it is copied as it is
template< class ST > static double used( ST &st ) { A1 x; x[ 0 ] = irv_real( "x" ); if( irv_choose( "used" , 2 ) ) st.do_step( Sys() , x , irv_real( "t before" ) , irv_real( "dt before" ) ); return x[ 0 ]; }
template< class ST > static void controlled()
{
    arguments(); ST st; double x0 = used( st );
    switch( irv_choose( "overload" , 4 ) )
    {
    case 0: twin( make_controlled( g_a , g_r , st ) , hand( false , st ) , x0 ); break;
    case 1: twin( make_controlled( g_a , g_r , g_md , st ) , hand( true , st ) , x0 ); break;
    case 2: twin( make_controlled< ST >( g_a , g_r ) , hand( false , ST() ) , x0 ); break;
    case 3: twin( make_controlled< ST >( g_a , g_r , g_md ) , hand( true , ST() ) , x0 ); break;
    }
}
IRV_HARNESS( C23_cash_karp ) { controlled< runge_kutta_cash_karp54< A1 > >(); }
IRV_HARNESS( C23_cash_karp_classic ) { controlled< runge_kutta_cash_karp54_classic< A1 > >(); }
IRV_HARNESS( C23_dopri5 ) { controlled< runge_kutta_dopri5< A1 > >(); }
IRV_HARNESS( C23_fehlberg78 ) { controlled< runge_kutta_fehlberg78< A1 > >(); }
IRV_HARNESS( C23_dense_dopri5 )
{
    typedef runge_kutta_dopri5< A1 > ST; arguments(); ST st; double x0 = used( st );
    switch( irv_choose( "overload" , 4 ) )
    {
    case 0: twin( make_dense_output( g_a , g_r , st ).m_stepper , hand( false , st ) , x0 ); break;
    case 1: twin( make_dense_output( g_a , g_r , g_md , st ).m_stepper , hand( true , st ) , x0 ); break;
    case 2: twin( make_dense_output< ST >( g_a , g_r ).m_stepper , hand( false , ST() ) , x0 ); break;
    case 3: twin( make_dense_output< ST >( g_a , g_r , g_md ).m_stepper , hand( true , ST() ) , x0 ); break;
    }
}
// a maximum step is a time: no conversion to the value type on the way
template< class F , class C , class V , class T , class S , C ( F::* )( V , V , T , const S & ) > struct exact_sig { typedef char yes; };
template< class F , class C , class V , class T , class S > static char has_sig( typename exact_sig< F , C , V , T , S , &F::operator() >::yes * ) { return 0; }
template< class F , class C , class V , class T , class S > static long has_sig( ... ) { return 0; }
template< class ST , class C > static void time_type( int keep ) { typedef controller_factory< ST , C > F; irv_assert( keep != 0 & ( sizeof( has_sig< F , C , typename ST::value_type , typename ST::time_type , ST >( 0 ) ) == 1 ) , "maximum step is passed as a time" ); }
IRV_HARNESS( C23_time_type )
{
    typedef boost::array< float , 1 > F1; typedef runge_kutta_dopri5< F1 , float , F1 , double > D; typedef runge_kutta_cash_karp54< F1 , float , F1 , double > K; typedef adaptive_adams_bashforth_moulton< 3 , F1 , float , F1 , double > M;
    time_type< D , controlled_runge_kutta< D > >( 1 ); time_type< K , controlled_runge_kutta< K > >( 1 ); time_type< M , controlled_adams_bashforth_moulton< M > >( 1 ); irv_cover( "end" );
}
// Adams with controlled order
typedef adaptive_adams_bashforth_moulton< 2 , A1 > AM; typedef controlled_adams_bashforth_moulton< AM > CM;
IRV_HARNESS( C23_adams )
{
    arguments(); g_md = g_dir * g_md; g_dir = 1; AM st; for( int i = 0 ; i < 3 ; ++i ) st.coeff().m_time_storage[ i ] = irv_real( "garbage" ); double x0 = used( st );
    typedef CM::step_adjuster_type A;
    CM c = irv_choose( "maximum" , 2 ) ? make_controlled( g_a , g_r , g_md , st ) : ( g_md = A().m_dtmax , make_controlled( g_a , g_r , st ) );
    irv_assert( irv_same( c.m_step_adjuster.m_abs_tol , g_a ) & irv_same( c.m_step_adjuster.m_rel_tol , g_r ) & irv_same( c.m_step_adjuster.m_dtmax , g_md ) & ( c.m_step_adjuster.m_init == 0 ) , "tolerances and maximum step" );
    // the stepper is the one given: its next step is the same
    A1 x , y; x[ 0 ] = y[ 0 ] = x0; double t = irv_real( "t" ) , dt = irv_real( "dt" ); irv_assume( ( t - st.coeff().m_time_storage[ 1 ] > 0.001 ) & ( dt > 0.001 ) );
    st.do_step( Sys() , x , t , dt ); c.m_stepper.do_step( Sys() , y , t , dt ); irv_assert( irv_eq( x[ 0 ] , y[ 0 ] ) , "step of the stepper given" ); irv_cover( "end" );
}
// Rosenbrock
typedef boost::numeric::ublas::vector< double > V; typedef boost::numeric::ublas::matrix< double > MX; typedef rosenbrock4< double > RB; typedef rosenbrock4_controller< RB > RC;
struct RF { void operator()( const V &x , V &d , double t ) const { d( 0 ) = irv_uf( "f" , 2 , x( 0 ) , t ); } };
struct RJ { void operator()( const V &x , MX &j , const double &t , V &dfdt ) const { j( 0 , 0 ) = irv_uf( "j" , 2 , x( 0 ) , t ); dfdt( 0 ) = irv_uf( "ft" , 2 , x( 0 ) , t ); } };
static void same( const RC &a , const RC &b )
{
    irv_assert( irv_same( a.m_atol , b.m_atol ) & irv_same( a.m_rtol , b.m_rtol ) & irv_same( a.m_max_dt , b.m_max_dt ) & irv_same( a.m_atol , g_a ) & irv_same( a.m_rtol , g_r ) & ( a.m_first_step == b.m_first_step ) & ( a.m_last_rejected == b.m_last_rejected ) , "tolerances and maximum step" );
    irv_assert( ( a.m_stepper.m_x_err.m_v.size() == b.m_stepper.m_x_err.m_v.size() ) , "base stepper" );
}
IRV_HARNESS( C23_rosenbrock )
{
    arguments(); RB st; V x( 1 ); x( 0 ) = irv_real( "x" ); if( irv_choose( "used" , 2 ) ) st.adjust_size( x );
    switch( irv_choose( "overload" , 8 ) )
    {
    case 0: same( make_controlled( g_a , g_r , st ) , RC( g_a , g_r , st ) ); break;
    case 1: same( make_controlled( g_a , g_r , g_md , st ) , RC( g_a , g_r , g_md , st ) ); break;
    case 2: same( make_controlled< RB >( g_a , g_r ) , RC( g_a , g_r ) ); break;
    case 3: same( make_controlled< RB >( g_a , g_r , g_md ) , RC( g_a , g_r , g_md , RB() ) ); break;
    case 4: same( make_dense_output( g_a , g_r , st ).m_stepper , RC( g_a , g_r , st ) ); break;
    case 5: same( make_dense_output( g_a , g_r , g_md , st ).m_stepper , RC( g_a , g_r , g_md , st ) ); break;
    case 6: same( make_dense_output< RB >( g_a , g_r ).m_stepper , RC( g_a , g_r ) ); break;
    case 7: same( make_dense_output< RB >( g_a , g_r , g_md ).m_stepper , RC( g_a , g_r , g_md , RB() ) ); break;
    }
    irv_cover( "end" );
}
// integrate(): the adaptive integration with the default controlled Dormand-Prince stepper, arguments in their places
struct Obs { int id; void operator()( const A1 & , double ) const {} };
typedef controlled_runge_kutta< runge_kutta_dopri5< A1 , double , A1 , double > > IC;
static const A1 *g_x; static double g_t0 , g_t1 , g_dt , g_xs; static int g_calls; static bool g_null;
static size_t called( IC &st , A1 &x , double t0 , double t1 , double dt )
{
    ++g_calls; irv_assert( ( &x == g_x ) & irv_same( t0 , g_t0 ) & irv_same( t1 , g_t1 ) & irv_same( dt , g_dt ) , "interval, step and state are passed on" );
    g_a = g_r = 1.0e-6; g_dir = 1; typedef IC::error_checker_type E; IC h( E( g_a , g_r ) ); double s = irv_real( "try" ); twin_try( st , h , Sys() , x[ 0 ] , t0 , s ); return 7;
}
extern "C" size_t spec_adaptive_obs( IC st , Sys , A1 &x , double t0 , double t1 , double dt , Obs o ) { irv_assert( ( o.id == 5 ) & !g_null , "observer is passed on" ); return called( st , x , t0 , t1 , dt ); }
extern "C" size_t spec_adaptive_null( IC st , Sys , A1 &x , double t0 , double t1 , double dt , null_observer ) { irv_assert( g_null , "no observer" ); return called( st , x , t0 , t1 , dt ); }
static void integrates( bool null )
{
    if( irv_native() ) return;
    g_null = null; irv_contract( "integrate_adaptive<" , null ? "spec_adaptive_null" : "spec_adaptive_obs" );
    A1 x; x[ 0 ] = irv_real( "x" ); g_x = &x; g_t0 = irv_real( "t0" ); g_t1 = irv_real( "t1" ); g_dt = irv_real( "dt" ); g_calls = 0; Obs o; o.id = 5; size_t n;
    if( irv_choose( "value type" , 2 ) ) n = null ? integrate< double >( Sys() , x , g_t0 , g_t1 , g_dt ) : integrate< double >( Sys() , x , g_t0 , g_t1 , g_dt , o );
    else n = null ? integrate( Sys() , x , g_t0 , g_t1 , g_dt ) : integrate( Sys() , x , g_t0 , g_t1 , g_dt , o );
    irv_assert( ( n == 7 ) & ( g_calls == 1 ) , "number of steps is passed on" ); irv_cover( "end" );
}
IRV_HARNESS( C23_integrate ) { integrates( false ); }
IRV_HARNESS( C23_integrate_without_observer ) { integrates( true ); }
