// C20: copies of steppers are independent of the original and behave like it
#include <utility>
#include <vector>
#include <cmath>
#include <type_traits>
#include <boost/array.hpp>
#include <boost/ref.hpp>
#define BOOST_UBLAS_NDEBUG
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include "irv.h"
using namespace boost::numeric::odeint;
typedef std::vector< double > vec;
// state, time and step of one use of a stepper; states of n elements
struct Val { int n; double x[ 2 ] , d[ 2 ] , t , h , e; bool fresh; };
static bool g_pos;        // steps forward in time only, the same error estimates for original and copy
static double g_times;   // non-zero: concrete times
static Val val( int n ) { Val v; v.n = n; for( int i = 0 ; i < 2 ; ++i ) { v.x[ i ] = irv_real( "x" ); v.d[ i ] = irv_real( "derivative" ); } v.t = irv_real( "t" ); v.h = irv_real( "dt" ); irv_assume( v.h != 0 ); if( g_pos ) irv_assume( v.h > 0 ); if( g_times ) { v.t = g_times; v.h = 1; g_times += 1.5; } return v; }
static vec mk( int n , const double *x ) { vec r( n ); for( int i = 0 ; i < n ; ++i ) r[ i ] = x[ i ]; return r; }
struct Sys { void operator()( const vec &x , vec &d , double t ) const { irv_assert( d.size() == x.size() , "the derivative has the size of the state" ); for( size_t i = 0 ; i < x.size() ; ++i ) d[ i ] = irv_uf( "f" , 4 , x[ 0 ] , x[ x.size() - 1 ] , t , (double) i ); } };
struct Res { double v[ 16 ]; int n; Res() : n( 0 ) {} void add( double x ) { v[ n++ ] = x; } void add( const vec &x ) { add( (double) x.size() ); for( size_t i = 0 ; i < x.size() ; ++i ) add( x[ i ] ); } };
static bool same( const Res &a , const Res &b ) { bool r = a.n == b.n; for( int i = 0 ; i < a.n ; ++i ) r = r & irv_eq( a.v[ i ] , b.v[ i ] ); return r; }
static double g_k;        // parameter of error checkers, step adjusters
static int g_other = 1;   // size of the states the other stepper works on
static int g_min = 0;     // least number of uses before the copy is made
// the symplectic steppers cannot be assigned (their coefficients are const members)
template< class ST > static typename std::enable_if< std::is_copy_assignable< ST >::value >::type assign( ST &a , const ST &b ) { a = b; }
template< class ST > static typename std::enable_if< !std::is_copy_assignable< ST >::value >::type assign( ST & , const ST & ) { irv_assume( false ); }
// Use: one use of a stepper (any overload), deterministic in the stepper and the values
template< class ST , class Use > static void copies( Use use , int hist )
{
    int m = g_min + irv_choose( "uses of the original before" , hist + 1 ) , k = irv_choose( "uses of the copy's target before" , 2 ) , how = irv_choose( "how" , 5 );
    Val v[ 3 ]; for( int i = 0 ; i < m ; ++i ) v[ i ] = val( 1 );
    Val w = val( g_other ) , u = val( 1 ) , z = val( 2 );
    for( int i = 0 ; i < 3 ; ++i ) v[ i ].fresh = i == 0; u.fresh = w.fresh = m == 0; z.fresh = true;
    if( g_pos ) { double e = irv_real( "error" ) , f = irv_real( "error" ); irv_assume( ( e > 0 ) & ( f > 0 ) ); u.e = w.e = e; z.e = v[ 0 ].e = f; w.h = u.h; z.h = v[ 0 ].h = irv_real( "dt" ); irv_assume( z.h > 0 ); }
    ST a , b; for( int i = 0 ; i < m ; ++i ) { use( a , v[ i ] ); use( b , v[ i ] ); }
    Res rb = use( b , u );
    if( how == 4 ) { assign( a , a ); irv_assert( same( use( a , u ) , rb ) , "self-assignment changes nothing" ); irv_cover( "end" ); return; }
    if( how < 2 )
    {   // copy construction
        if( k ) irv_assume( false );
        ST c( a );
        if( how == 0 ) { use( c , w ); irv_assert( same( use( a , u ) , rb ) , "using a copy does not affect the original" ); }
        else { use( a , w ); irv_assert( same( use( c , u ) , rb ) , "a copy behaves like the original did, whatever the original does" ); }
    }
    else
    {   // assignment, also over a stepper that was used before with a state of another size
        double p = g_k; g_k = z.d[ 0 ]; ST c; g_k = p; if( k ) use( c , z );
        assign( c , a );
        if( how == 2 ) { use( c , w ); irv_assert( same( use( a , u ) , rb ) , "using an assigned stepper does not affect the original" ); }
        else { use( a , w ); irv_assert( same( use( c , u ) , rb ) , "an assigned stepper behaves like the original did, whatever the original does" ); }
    }
    irv_cover( "end" );
}
struct Plain { int ov; template< class ST > Res operator()( ST &st , const Val &v ) const
{
    vec x = mk( v.n , v.x ) , d = mk( v.n , v.d ) , o( v.n ); Res r;
    if( ov == 0 ) st.do_step( Sys() , x , v.t , v.h );
    if( ov == 1 ) st.do_step( Sys() , x , d , v.t , v.h );
    if( ov == 2 ) { st.do_step( Sys() , x , v.t , o , v.h ); x = o; }
    if( ov == 3 ) { st.do_step( Sys() , x , d , v.t , o , v.h ); x = o; }
    r.add( x ); return r;
} };
struct Error { int ov; template< class ST > Res operator()( ST &st , const Val &v ) const
{
    vec x = mk( v.n , v.x ) , d = mk( v.n , v.d ) , o( v.n ) , e( v.n ); Res r;
    if( ov == 0 ) st.do_step( Sys() , x , v.t , v.h , e );
    if( ov == 1 ) st.do_step( Sys() , x , d , v.t , v.h , e );
    if( ov == 2 ) { st.do_step( Sys() , x , v.t , o , v.h , e ); x = o; }
    if( ov == 3 ) { st.do_step( Sys() , x , d , v.t , o , v.h , e ); x = o; }
    r.add( x ); r.add( e ); return r;
} };
struct Fsal { int ov; template< class ST > Res operator()( ST &st , const Val &v ) const
{
    vec x = mk( v.n , v.x ) , d = mk( v.n , v.d ) , o( v.n ) , q( v.n ) , e( v.n ); Res r;
    if( ov == 0 ) st.do_step( Sys() , x , v.t , v.h );
    if( ov == 1 ) { st.do_step( Sys() , x , v.t , o , v.h , e ); x = o; }
    if( ov == 2 ) { st.do_step( Sys() , x , d , v.t , o , q , v.h , e ); x = o; }
    r.add( x ); r.add( e ); return r;
} };
#define PLAIN( N , ... ) IRV_HARNESS( C20_copy_##N ) { Plain u = { irv_choose( "overload" , 4 ) }; copies< __VA_ARGS__ >( u , 1 ); }
#define ERROR( N , ... ) IRV_HARNESS( C20_copy_##N ) { Error u = { irv_choose( "overload" , 4 ) }; copies< __VA_ARGS__ >( u , 1 ); }
PLAIN( euler , euler< vec > ) PLAIN( rk4 , runge_kutta4< vec > ) PLAIN( rk4_classic , runge_kutta4_classic< vec > ) PLAIN( midpoint , modified_midpoint< vec > )
ERROR( cash_karp , runge_kutta_cash_karp54< vec > ) ERROR( cash_karp_classic , runge_kutta_cash_karp54_classic< vec > ) ERROR( fehlberg , runge_kutta_fehlberg78< vec > ) ERROR( extrapolation4 , extrapolation_stepper< 4 , vec > )
IRV_HARNESS( C20_copy_dopri5 ) { Fsal u = { irv_choose( "overload" , 3 ) }; copies< runge_kutta_dopri5< vec > >( u , 2 ); }
// multistep methods: with the states in between
struct Multi { int ov; template< class ST > Res operator()( ST &st , const Val &v ) const
{
    vec x = mk( v.n , v.x ) , o( v.n ); double t = v.t; Res r;
    if( ov == 1 ) st.initialize( Sys() , x , t , v.h );
    if( ov == 2 ) { st.do_step( Sys() , x , t , o , v.h ); x = o; } else st.do_step( Sys() , x , t , v.h );
    r.add( x ); r.add( t ); return r;
} };
#define MULTI( N , O , H , ... ) IRV_HARNESS( C20_copy_##N ) { Multi u = { irv_choose( "overload" , O ) }; copies< __VA_ARGS__ >( u , H ); }
MULTI( adams_bashforth1 , 3 , 1 , adams_bashforth< 1 , vec > ) MULTI( adams_bashforth3 , 3 , 3 , adams_bashforth< 3 , vec > )
MULTI( adams_bashforth_moulton2 , 3 , 2 , adams_bashforth_moulton< 2 , vec > ) MULTI( adams_bashforth_moulton3 , 3 , 3 , adams_bashforth_moulton< 3 , vec > )
template< class ST > static void prepare( ST & ) {}
// controlled steppers
struct Try { int ov; template< class ST > Res operator()( ST &st , const Val &v ) const
{
    vec x = mk( v.n , v.x ) , d = mk( v.n , v.d ) , o = x; Res r; double t = v.t , h = v.h; controlled_step_result q = fail;
    if( ov == 0 ) q = st.try_step( Sys() , x , t , h );
    if( ov == 1 ) q = st.try_step( Sys() , x , d , t , h );
    if( ov == 2 ) { q = st.try_step( Sys() , x , t , o , h ); x = o; }
    r.add( x ); r.add( t ); r.add( h ); r.add( q == success ? 1 : 0 ); return r;
} };
// error checkers and step adjusters with parameters of their own: the verdict and the suggested step are any functions of the errors, the steps and the parameter
template< bool Accept > struct Checker
{
    typedef double value_type; typedef range_algebra algebra_type; typedef default_operations operations_type; double k; Checker() : k( g_k ) {}
    template< class A , class X , class D , class E , class T > double error( A & , const X & , const D &d , E &e , T h ) const { if( Accept ) return 0.75; return irv_uf( "error" , 4 , k , d[ 0 ] , e[ 0 ] , h ); }
};
template< bool Accept > struct Adjuster
{
    double k; Adjuster() : k( g_k ) {}
    double decrease_step( double h , double e , int o ) const { return irv_uf( "decrease" , 4 , k , h , e , (double) o ); }
    double increase_step( double h , double e , int o ) const { if( Accept ) return k; return irv_uf( "increase" , 4 , k , h , e , (double) o ); }
    bool check_step_size_limit( double h ) const { if( Accept ) return true; return irv_uf( "within" , 2 , k , h ) > 0; }
    double get_max_dt() const { return k; }
};
template< class ST , bool Accept = false > struct Contr : controlled_runge_kutta< ST , Checker< Accept > , Adjuster< Accept > , initially_resizer > {};
#define TRY( N , ... ) IRV_HARNESS( C20_copy_controlled_##N ) { g_k = irv_real( "parameter" ); Try u = { irv_choose( "overload" , 3 ) }; copies< Contr< __VA_ARGS__ > >( u , 1 ); }
TRY( cash_karp , runge_kutta_cash_karp54< vec > ) TRY( dopri5 , runge_kutta_dopri5< vec > )
// dense output: initialise (if not done before), step, interpolate
struct Dense { template< class ST > Res operator()( ST &st , const Val &v ) const
{
    Res r; if( v.fresh ) st.initialize( mk( v.n , v.x ) , v.t , v.h );
    std::pair< double , double > p = st.do_step( Sys() ); r.add( p.first ); r.add( p.second ); r.add( st.current_state() ); r.add( st.previous_state() ); r.add( st.current_time() ); r.add( st.previous_time() ); r.add( st.current_time_step() );
    vec o( v.n ); st.calc_state( v.t , o ); r.add( o ); return r;
} };
IRV_HARNESS( C20_copy_dense_euler ) { copies< dense_output_runge_kutta< euler< vec > > >( Dense() , 2 ); }
struct DenseDopri5 : dense_output_runge_kutta< controlled_runge_kutta< runge_kutta_dopri5< vec > , Checker< true > , Adjuster< true > > > {};
IRV_HARNESS( C20_copy_dense_dopri5 ) { g_k = irv_real( "parameter" ); irv_assume( g_k != 0 ); copies< DenseDopri5 >( Dense() , 2 ); }
// symplectic steppers and velocity Verlet
struct DQ { void operator()( const vec &p , vec &d ) const { irv_assert( d.size() == p.size() , "the derivative has the size of the state" ); for( size_t i = 0 ; i < p.size() ; ++i ) d[ i ] = irv_uf( "dq" , 3 , p[ 0 ] , p[ p.size() - 1 ] , (double) i ); } };
struct DP { void operator()( const vec &p , vec &d ) const { irv_assert( d.size() == p.size() , "the derivative has the size of the state" ); for( size_t i = 0 ; i < p.size() ; ++i ) d[ i ] = irv_uf( "dp" , 3 , p[ 0 ] , p[ p.size() - 1 ] , (double) i ); } };
struct Sympl { int ov; template< class ST > Res operator()( ST &st , const Val &v ) const
{
    std::pair< vec , vec > x( mk( v.n , v.x ) , mk( v.n , v.d ) ) , o = x; Res r;
    if( ov == 0 ) st.do_step( std::make_pair( DQ() , DP() ) , x , v.t , v.h );
    if( ov == 1 ) st.do_step( DP() , x , v.t , v.h );
    if( ov == 2 ) { st.do_step( DP() , x , v.t , o , v.h ); x = o; }
    r.add( x.first ); r.add( x.second ); return r;
} };
#define SYMPL( N , ... ) IRV_HARNESS( C20_copy_##N ) { Sympl u = { irv_choose( "overload" , 3 ) }; copies< __VA_ARGS__ >( u , 1 ); }
SYMPL( symplectic_euler , symplectic_euler< vec > ) SYMPL( symplectic_m4 , symplectic_rkn_sb3a_m4_mclachlan< vec > ) SYMPL( symplectic_mclachlan , symplectic_rkn_sb3a_mclachlan< vec > )
struct Acc { void operator()( const vec &q , const vec &v , vec &a , double t ) const { irv_assert( a.size() == q.size() , "the acceleration has the size of the state" ); for( size_t i = 0 ; i < q.size() ; ++i ) a[ i ] = irv_uf( "acc" , 5 , q[ 0 ] , q[ q.size() - 1 ] , v[ 0 ] , t , (double) i ); } };
struct VV { int ov; template< class ST > Res operator()( ST &st , const Val &v ) const
{
    std::pair< vec , vec > x( mk( v.n , v.x ) , mk( v.n , v.d ) ); Res r;
    if( ov == 1 ) st.initialize( Acc() , x.first , x.second , v.t );
    st.do_step( Acc() , x , v.t , v.h );
    r.add( x.first ); r.add( x.second ); return r;
} };
IRV_HARNESS( C20_copy_velocity_verlet ) { VV u = { irv_choose( "overload" , 2 ) }; copies< velocity_verlet< vec > >( u , 2 ); }
// adaptive Adams-Bashforth-Moulton: the entry of the time storage that is read before it is written does not matter (C14)
static double g_old;
struct Adaptive2 : adaptive_adams_bashforth_moulton< 2 , vec > { Adaptive2() { for( size_t i = 0 ; i < this->coeff().m_time_storage.size() ; ++i ) this->coeff().m_time_storage[ i ] = g_old; } };
IRV_HARNESS( C20_copy_adaptive_adams ) { g_old = -3; g_times = 1; Multi u = { irv_choose( "overload" , 3 ) }; copies< Adaptive2 >( u , 2 ); }
// Rosenbrock stepper: one component
typedef boost::numeric::ublas::vector< double > V; typedef boost::numeric::ublas::matrix< double > M;
static double g_j;
struct RF { void operator()( const V &x , V &d , double t ) const { irv_assert( d.size() == x.size() , "the derivative has the size of the state" ); d( 0 ) = irv_uf( "f" , 2 , x( 0 ) , t ); } };
struct RJ { void operator()( const V &x , M &j , const double &t , V &dt ) const { irv_assert( ( dt.size() == x.size() ) & ( j.size1() == x.size() ) & ( j.size2() == x.size() ) , "the Jacobian has the size of the state" ); j( 0 , 0 ) = g_j; dt( 0 ) = irv_uf( "ft" , 2 , x( 0 ) , t ); } };
struct Ros { int ov; template< class ST > Res operator()( ST &st , const Val &v ) const
{
    V x( 1 ) , o( 1 ) , e( 1 ); x( 0 ) = v.x[ 0 ]; e( 0 ) = 0; Res r; default_rosenbrock_coefficients< double > k; irv_assume( 1 / ( v.h * k.gamma ) - g_j != 0 );
    if( ov == 0 ) st.do_step( std::make_pair( RF() , RJ() ) , x , v.t , v.h );
    if( ov == 1 ) { st.do_step( std::make_pair( RF() , RJ() ) , x , v.t , o , v.h , e ); x = o; }
    r.add( x( 0 ) ); r.add( e( 0 ) ); return r;
} };
IRV_HARNESS( C20_copy_rosenbrock ) { g_j = irv_real( "Jacobian" ); Ros u = { irv_choose( "overload" , 2 ) }; copies< rosenbrock4< double > >( u , 1 ); }
// Rosenbrock controller: the step is the contract of rosenbrock4 (C16), the scaled error any function
struct RosStep
{
    typedef double value_type; typedef V state_type; typedef V deriv_type; typedef double time_type; typedef V wrapped_dummy; typedef initially_resizer resizer_type; typedef default_rosenbrock_coefficients< double > rosenbrock_coefficients; typedef stepper_tag stepper_category; typedef unsigned short order_type;
    typedef state_wrapper< V > wrapped_state_type; typedef state_wrapper< V > wrapped_deriv_type;
    static const order_type stepper_order = 4; static const order_type error_order = 3;
    double k; RosStep() : k( g_k ) {}
    template< class S > void do_step( S , const V &x , double t , V &o , double h , V &e ) { irv_assert( ( o.size() == x.size() ) & ( e.size() == x.size() ) , "storage for result and error has the size of the state" ); o( 0 ) = irv_uf( "result" , 4 , k , x( 0 ) , t , h ); e( 0 ) = irv_uf( "error" , 4 , k , x( 0 ) , t , h ); }
};
static double g_err;
struct RosTry { template< class ST > Res operator()( ST &st , const Val &v ) const
{
    V x( 1 ); x( 0 ) = v.x[ 0 ]; double t = v.t , h = v.h; Res r; g_err = v.e; controlled_step_result q = st.try_step( 0 , x , t , h );
    r.add( x( 0 ) ); r.add( t ); r.add( h ); r.add( q == success ? 1 : 0 ); return r;
} };
struct RosContr : rosenbrock4_controller< RosStep > { RosContr() : rosenbrock4_controller< RosStep >( 1 , 1 , g_k ) {} };
extern "C" double spec_error( rosenbrock4_controller< RosStep > *c , const V &x , const V &xold , const V &xerr ) { return g_err; }
IRV_HARNESS( C20_copy_rosenbrock_controller )
{
    if( irv_native() ) return;
    irv_contract( "rosenbrock4_controller<RosStep>::error(" , "spec_error" ); irv_merge( "min_abs" ); irv_merge( "less_with_sign" ); irv_merge( "std::max<double>" ); irv_merge( "std::min<double>" );
    g_k = 0; g_pos = true; copies< RosContr >( RosTry() , 1 );
}
// ---- always resizer: after the size of the state has changed a stepper behaves like a new one
template< class ST , class Use > static void changed( Use use , int hist )
{
    int m = 1 + irv_choose( "uses before" , hist ) , grow = irv_choose( "grow" , 2 ) , k = 1 + irv_choose( "uses after" , 3 );
    ST a , b; for( int i = 0 ; i < m ; ++i ) { Val v = val( grow ? 1 : 2 ); v.fresh = i == 0; use( a , v ); }
    for( int i = 0 ; i < k ; ++i ) { Val v = val( grow ? 2 : 1 ); v.fresh = i == 0; Res r = use( a , v ); irv_assert( same( r , use( b , v ) ) , "after a change of the size the stepper behaves like a new one" ); }
    irv_cover( "end" );
}
typedef range_algebra RA; typedef default_operations OP; typedef always_resizer AL;
#define A( S ) S< vec , double , vec , double , RA , OP , AL >
#define CHANGED( N , USE , O , H , ... ) IRV_HARNESS( C20_changed_##N ) { USE u = { irv_choose( "overload" , O ) }; changed< __VA_ARGS__ >( u , H ); }
CHANGED( rk4 , Plain , 4 , 1 , A( runge_kutta4 ) ) CHANGED( midpoint , Plain , 4 , 1 , A( modified_midpoint ) ) CHANGED( cash_karp , Error , 4 , 1 , A( runge_kutta_cash_karp54 ) ) CHANGED( dopri5 , Fsal , 3 , 2 , A( runge_kutta_dopri5 ) )
CHANGED( adams_bashforth1 , Multi , 3 , 1 , adams_bashforth< 1 , vec , double , vec , double , RA , OP , AL > ) CHANGED( adams_bashforth3 , Multi , 3 , 3 , adams_bashforth< 3 , vec , double , vec , double , RA , OP , AL > )
CHANGED( adams_bashforth_moulton1 , Multi , 3 , 2 , adams_bashforth_moulton< 1 , vec , double , vec , double , RA , OP , AL > ) CHANGED( adams_bashforth_moulton2 , Multi , 3 , 2 , adams_bashforth_moulton< 2 , vec , double , vec , double , RA , OP , AL > ) CHANGED( adams_bashforth_moulton3 , Multi , 3 , 3 , adams_bashforth_moulton< 3 , vec , double , vec , double , RA , OP , AL > )
CHANGED( velocity_verlet , VV , 2 , 2 , velocity_verlet< vec , vec , double , vec , double , double , RA , OP , AL > )
CHANGED( symplectic_euler , Sympl , 3 , 1 , symplectic_euler< vec , vec , double , vec , vec , double , RA , OP , AL > )
template< class ST > struct ContrAL : controlled_runge_kutta< ST , Checker< false > , Adjuster< false > , AL > {};
IRV_HARNESS( C20_changed_controlled_dopri5 ) { g_k = irv_real( "parameter" ); Try u = { irv_choose( "overload" , 3 ) }; changed< ContrAL< A( runge_kutta_dopri5 ) > >( u , 1 ); }
IRV_HARNESS( C20_changed_controlled_cash_karp ) { g_k = irv_real( "parameter" ); Try u = { irv_choose( "overload" , 3 ) }; changed< ContrAL< A( runge_kutta_cash_karp54 ) > >( u , 1 ); }
IRV_HARNESS( C20_changed_dense_euler ) { changed< dense_output_runge_kutta< A( euler ) > >( Dense() , 1 ); }
struct Adaptive2AL : adaptive_adams_bashforth_moulton< 2 , vec , double , vec , double , RA , OP , AL > { Adaptive2AL() { for( size_t i = 0 ; i < this->coeff().m_time_storage.size() ; ++i ) this->coeff().m_time_storage[ i ] = g_old; } };
IRV_HARNESS( C20_changed_adaptive_adams ) { g_old = -3; g_times = 1; Multi u = { irv_choose( "overload" , 3 ) }; changed< Adaptive2AL >( u , 2 ); }
