// C03: all do_step overloads agree
#include <utility>
#include <vector>
#include <boost/fusion/container/vector.hpp>
#include <boost/fusion/include/make_vector.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/explicit_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include "states.hpp"
using namespace boost::numeric::odeint;
template< class X > static X fresh( const char *n ) { X x = St< X >::make(); fresh_state( x , n ); return x; }
template< class X , class S > static void warm( S &s ) { X w = fresh< X >( "earlier state" ); s.do_step( UfSys() , w , irv_real( "earlier t" ) , irv_real( "earlier dt" ) ); X v = St< X >::make(); s.do_step( UfSys() , w , irv_real( "earlier t" ) , v , irv_real( "earlier dt" ) ); }
template< class X , class S > static void warm_err( S &s ) { X w = fresh< X >( "earlier state" ) , e = St< X >::make(); s.do_step( UfSys() , w , irv_real( "earlier t" ) , irv_real( "earlier dt" ) , e ); X v = St< X >::make(); s.do_step( UfSys() , w , irv_real( "earlier t" ) , v , irv_real( "earlier dt" ) , e ); }
template< class X , class S > static void plain( const S &proto )
{
    const X x0 = fresh< X >( "x" ); double t = irv_real( "t" ) , dt = irv_real( "dt" );
    const X d0 = uf_deriv( x0 , t );
    X ref = x0; { S s( proto ); s.do_step( UfSys() , ref , t , dt ); }
    { S s( proto ); warm< X >( s ); X y = x0; s.do_step( UfSys() , y , t , dt ); irv_assert( state_eq( y , ref ) , "in place, any history" ); }
    { S s( proto ); warm< X >( s ); X y = x0 , d = d0; s.do_step( UfSys() , y , d , t , dt ); irv_assert( state_eq( y , ref ) , "in place with derivative" ); irv_assert( state_eq( d , d0 ) , "supplied derivative unmodified (in place)" ); }
    { S s( proto ); warm< X >( s ); X in = x0 , out = fresh< X >( "old out" ); s.do_step( UfSys() , in , t , out , dt ); irv_assert( state_eq( out , ref ) , "out of place" ); irv_assert( state_eq( in , x0 ) , "input unmodified" ); }
    { S s( proto ); warm< X >( s ); X in = x0 , out = fresh< X >( "old out" ) , d = d0; s.do_step( UfSys() , in , d , t , out , dt ); irv_assert( state_eq( out , ref ) , "out of place with derivative" ); irv_assert( state_eq( in , x0 ) , "input unmodified (derivative overload)" ); irv_assert( state_eq( d , d0 ) , "supplied derivative unmodified" ); }
    { S s( proto ); warm< X >( s ); X y = x0; s.do_step( UfSys() , y , t , y , dt ); irv_assert( state_eq( y , ref ) , "same object as input and output" ); }
    { S s( proto ); warm< X >( s ); X y = x0 , d = d0; s.do_step( UfSys() , y , d , t , y , dt ); irv_assert( state_eq( y , ref ) , "same object as input and output, with derivative" ); }
    irv_cover( "end" );
}
template< class X , class S > static void error( const S &proto )
{
    const X x0 = fresh< X >( "x" ); double t = irv_real( "t" ) , dt = irv_real( "dt" );
    const X d0 = uf_deriv( x0 , t );
    X ref = x0 , eref = fresh< X >( "old err" ); { S s( proto ); s.do_step( UfSys() , ref , t , dt , eref ); }
    { S s( proto ); X y = x0; s.do_step( UfSys() , y , t , dt ); irv_assert( state_eq( y , ref ) , "same state with and without error" ); }
    { S s( proto ); warm_err< X >( s ); X y = x0 , e = fresh< X >( "old err" ); s.do_step( UfSys() , y , t , dt , e ); irv_assert( state_eq( y , ref ) & state_eq( e , eref ) , "error: in place, any history" ); }
    { S s( proto ); warm< X >( s ); X y = x0 , d = d0 , e = fresh< X >( "old err" ); s.do_step( UfSys() , y , d , t , dt , e ); irv_assert( state_eq( y , ref ) & state_eq( e , eref ) , "error: in place with derivative" ); irv_assert( state_eq( d , d0 ) , "error: supplied derivative unmodified (in place)" ); }
    { S s( proto ); warm_err< X >( s ); X in = x0 , out = fresh< X >( "old out" ) , e = fresh< X >( "old err" ); s.do_step( UfSys() , in , t , out , dt , e ); irv_assert( state_eq( out , ref ) & state_eq( e , eref ) , "error: out of place" ); irv_assert( state_eq( in , x0 ) , "error: input unmodified" ); }
    { S s( proto ); warm_err< X >( s ); X in = x0 , out = fresh< X >( "old out" ) , d = d0 , e = fresh< X >( "old err" ); s.do_step( UfSys() , in , d , t , out , dt , e ); irv_assert( state_eq( out , ref ) & state_eq( e , eref ) , "error: out of place with derivative" ); irv_assert( state_eq( in , x0 ) , "error: input unmodified (derivative overload)" ); irv_assert( state_eq( d , d0 ) , "error: supplied derivative unmodified" ); }
    { S s( proto ); warm_err< X >( s ); X y = x0 , e = fresh< X >( "old err" ); s.do_step( UfSys() , y , t , y , dt , e ); irv_assert( state_eq( y , ref ) & state_eq( e , eref ) , "error: same object as input and output" ); }
    { S s( proto ); warm_err< X >( s ); X y = x0 , d = d0 , e = fresh< X >( "old err" ); s.do_step( UfSys() , y , d , t , y , dt , e ); irv_assert( state_eq( y , ref ) & state_eq( e , eref ) , "error: same object as input and output, with derivative" ); }
    irv_cover( "end" );
}
template< class S > static void view( const S &proto , bool err )
{
    const vec x0 = fresh< vec >( "x" ); double t = irv_real( "t" ) , dt = irv_real( "dt" );
    vec ref = x0 , eref = St< vec >::make(); { S s( proto ); s.do_step( UfSys() , ref , t , dt ); }
    S s( proto ); vec y = x0; s.do_step( UfRangeSys() , dview( &y[0] , &y[0] + 2 ) , t , dt );
    irv_assert( state_eq( y , ref ) , "stepping a view of the state" );
    irv_cover( "end" );
}
template< class S > static void view_err( const S &proto )
{
    const vec x0 = fresh< vec >( "x" ); double t = irv_real( "t" ) , dt = irv_real( "dt" );
    vec ref = x0 , eref = St< vec >::make(); { S s( proto ); s.do_step( UfSys() , ref , t , dt , eref ); }
    S s( proto ); vec y = x0 , e = St< vec >::make(); s.do_step( UfRangeSys() , dview( &y[0] , &y[0] + 2 ) , t , dt , e );
    irv_assert( state_eq( y , ref ) & state_eq( e , eref ) , "stepping a view of the state with error" );
    irv_cover( "end" );
}
#define P( N , T ) \
IRV_HARNESS( C03_##N##_vec ) { plain< vec >( T< vec >() ); } \
IRV_HARNESS( C03_##N##_arr ) { plain< arr2 >( T< arr2 >() ); } \
IRV_HARNESS( C03_##N##_view ) { view( T< vec >() , false ); }
#define E( N , T ) \
IRV_HARNESS( C03_##N##_err_vec ) { error< vec >( T< vec >() ); } \
IRV_HARNESS( C03_##N##_err_arr ) { error< arr2 >( T< arr2 >() ); } \
IRV_HARNESS( C03_##N##_err_view ) { view_err( T< vec >() ); }
P( euler , euler ) P( rk4 , runge_kutta4 ) P( rk4_classic , runge_kutta4_classic )
P( cash_karp , runge_kutta_cash_karp54 ) E( cash_karp , runge_kutta_cash_karp54 )
P( cash_karp_classic , runge_kutta_cash_karp54_classic ) E( cash_karp_classic , runge_kutta_cash_karp54_classic )
P( fehlberg78 , runge_kutta_fehlberg78 ) E( fehlberg78 , runge_kutta_fehlberg78 )
P( midpoint , modified_midpoint )
template< class X > struct gen3 : explicit_generic_rk< 3 , 3 , X >
{
    typedef explicit_generic_rk< 3 , 3 , X > base;
    static boost::array< double , 3 > c3( double a , double b , double c ) { boost::array< double , 3 > r = {{ a , b , c }}; return r; }
    static typename base::coef_a_type as() { boost::array< double , 1 > a1 = {{ 0.5 }}; boost::array< double , 2 > a2 = {{ -1.0 , 2.0 }}; return typename base::coef_a_type( a1 , a2 ); }
    gen3() : base( as() , c3( 0.125 , 0.5 , 0.375 ) , c3( 0 , 0.5 , 1.0 ) ) {}
};
template< class X > struct gene3 : explicit_error_generic_rk< 3 , 3 , 3 , 2 , X >
{
    typedef explicit_error_generic_rk< 3 , 3 , 3 , 2 , X > base;
    gene3() : base( gen3< X >::as() , gen3< X >::c3( 0.125 , 0.5 , 0.375 ) , gen3< X >::c3( 0.25 , 0.5 , -0.75 ) , gen3< X >::c3( 0 , 0.5 , 1.0 ) ) {}
};
P( generic , gen3 ) P( generic_error , gene3 ) E( generic_error , gene3 )
