// C20: internal storage fits the state: states of any size, also when the size changes between two calls
//
// A state is represented by its number of elements; the algebra by the contract that C19 proves of range_algebra for all lengths
// (for_eachN reads and writes the first size(s1) elements of every argument): every argument must have the size of the current state.
#include <utility>
#include <vector>
#include <cmath>
#include <boost/array.hpp>
#define BOOST_UBLAS_NDEBUG
#include "irv.h"
struct St { typedef double value_type; long n; St() : n( 0 ) {} explicit St( long m ) : n( m ) {} long size() const { return n; } double &operator[]( long ) { static double d; return d; } const double &operator[]( long ) const { static double d; return d; } };
#include <boost/numeric/odeint/util/is_resizeable.hpp>
#include <boost/numeric/odeint/util/same_size.hpp>
#include <boost/numeric/odeint/util/resize.hpp>
namespace boost { namespace numeric { namespace odeint {
template<> struct is_resizeable< St > : boost::true_type { typedef boost::true_type type; const static bool value = true; };
template<> struct same_size_impl< St , St > { static bool same_size( const St &a , const St &b ) { return a.n == b.n; } };
template<> struct resize_impl< St , St > { static void resize( St &a , const St &b ) { a.n = b.n; } };
} } }
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
using namespace boost::numeric::odeint;
static long g_n;   // size of the states of the current call
static void fits( bool b ) { irv_assert( b , "every container the algebra works on has the size of the state" ); }
struct Alg
{
    template< class... A > static void all( const A &... a ) { bool r = true; bool e[] = { ( a.size() == g_n )... }; for( bool b : e ) r = r & b; fits( r ); }
    template< class S1 , class Op > static void for_each1( S1 &s1 , Op ) { all( s1 ); }
    template< class S1, class S2 , class Op > static void for_each2( S1 &s1 , S2 &s2 , Op ) { all( s1 , s2 ); }
    template< class S1, class S2, class S3 , class Op > static void for_each3( S1 &s1 , S2 &s2 , S3 &s3 , Op ) { all( s1 , s2 , s3 ); }
    template< class S1, class S2, class S3, class S4 , class Op > static void for_each4( S1 &s1 , S2 &s2 , S3 &s3 , S4 &s4 , Op ) { all( s1 , s2 , s3 , s4 ); }
    template< class S1, class S2, class S3, class S4, class S5 , class Op > static void for_each5( S1 &s1 , S2 &s2 , S3 &s3 , S4 &s4 , S5 &s5 , Op ) { all( s1 , s2 , s3 , s4 , s5 ); }
    template< class S1, class S2, class S3, class S4, class S5, class S6 , class Op > static void for_each6( S1 &s1 , S2 &s2 , S3 &s3 , S4 &s4 , S5 &s5 , S6 &s6 , Op ) { all( s1 , s2 , s3 , s4 , s5 , s6 ); }
    template< class S1, class S2, class S3, class S4, class S5, class S6, class S7 , class Op > static void for_each7( S1 &s1 , S2 &s2 , S3 &s3 , S4 &s4 , S5 &s5 , S6 &s6 , S7 &s7 , Op ) { all( s1 , s2 , s3 , s4 , s5 , s6 , s7 ); }
    template< class S1, class S2, class S3, class S4, class S5, class S6, class S7, class S8 , class Op > static void for_each8( S1 &s1 , S2 &s2 , S3 &s3 , S4 &s4 , S5 &s5 , S6 &s6 , S7 &s7 , S8 &s8 , Op ) { all( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 ); }
    template< class S1, class S2, class S3, class S4, class S5, class S6, class S7, class S8, class S9 , class Op > static void for_each9( S1 &s1 , S2 &s2 , S3 &s3 , S4 &s4 , S5 &s5 , S6 &s6 , S7 &s7 , S8 &s8 , S9 &s9 , Op ) { all( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 ); }
    template< class S1, class S2, class S3, class S4, class S5, class S6, class S7, class S8, class S9, class S10 , class Op > static void for_each10( S1 &s1 , S2 &s2 , S3 &s3 , S4 &s4 , S5 &s5 , S6 &s6 , S7 &s7 , S8 &s8 , S9 &s9 , S10 &s10 , Op ) { all( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 ); }
    template< class S1, class S2, class S3, class S4, class S5, class S6, class S7, class S8, class S9, class S10, class S11 , class Op > static void for_each11( S1 &s1 , S2 &s2 , S3 &s3 , S4 &s4 , S5 &s5 , S6 &s6 , S7 &s7 , S8 &s8 , S9 &s9 , S10 &s10 , S11 &s11 , Op ) { all( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 ); }
    template< class S1, class S2, class S3, class S4, class S5, class S6, class S7, class S8, class S9, class S10, class S11, class S12 , class Op > static void for_each12( S1 &s1 , S2 &s2 , S3 &s3 , S4 &s4 , S5 &s5 , S6 &s6 , S7 &s7 , S8 &s8 , S9 &s9 , S10 &s10 , S11 &s11 , S12 &s12 , Op ) { all( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 ); }
    template< class S1, class S2, class S3, class S4, class S5, class S6, class S7, class S8, class S9, class S10, class S11, class S12, class S13 , class Op > static void for_each13( S1 &s1 , S2 &s2 , S3 &s3 , S4 &s4 , S5 &s5 , S6 &s6 , S7 &s7 , S8 &s8 , S9 &s9 , S10 &s10 , S11 &s11 , S12 &s12 , S13 &s13 , Op ) { all( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 ); }
    template< class S1, class S2, class S3, class S4, class S5, class S6, class S7, class S8, class S9, class S10, class S11, class S12, class S13, class S14 , class Op > static void for_each14( S1 &s1 , S2 &s2 , S3 &s3 , S4 &s4 , S5 &s5 , S6 &s6 , S7 &s7 , S8 &s8 , S9 &s9 , S10 &s10 , S11 &s11 , S12 &s12 , S13 &s13 , S14 &s14 , Op ) { all( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 ); }
    template< class S1, class S2, class S3, class S4, class S5, class S6, class S7, class S8, class S9, class S10, class S11, class S12, class S13, class S14, class S15 , class Op > static void for_each15( S1 &s1 , S2 &s2 , S3 &s3 , S4 &s4 , S5 &s5 , S6 &s6 , S7 &s7 , S8 &s8 , S9 &s9 , S10 &s10 , S11 &s11 , S12 &s12 , S13 &s13 , S14 &s14 , S15 &s15 , Op ) { all( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , s15 ); }
    template< class S > static double norm_inf( const S &s ) { all( s ); double e = irv_real( "norm" ); irv_assume( e >= 0 ); return e; }
};
typedef default_operations OP; typedef always_resizer AL; typedef initially_resizer IN; typedef never_resizer NV;
struct Sys { void operator()( const St &x , St &d , double ) const { irv_assert( x.n == g_n , "the system is called with a state of the current size" ); irv_assert( d.n == g_n , "storage for the derivative has the size of the state" ); } };
static double g_t , g_h;
struct Plain { int ov; template< class ST > void operator()( ST &st ) const {
    St x( g_n ) , d( g_n ) , o( g_n );
    if( ov == 0 ) st.do_step( Sys() , x , g_t , g_h );
    if( ov == 1 ) st.do_step( Sys() , x , d , g_t , g_h );
    if( ov == 2 ) st.do_step( Sys() , x , g_t , o , g_h );
    if( ov == 3 ) st.do_step( Sys() , x , d , g_t , o , g_h );
    irv_assert( ( x.n == g_n ) & ( o.n == g_n ) & ( d.n == g_n ) , "the sizes of the arguments are kept" );
} };
struct Error { int ov; template< class ST > void operator()( ST &st ) const {
    St x( g_n ) , d( g_n ) , o( g_n ) , e( g_n );
    if( ov == 0 ) st.do_step( Sys() , x , g_t , g_h , e );
    if( ov == 1 ) st.do_step( Sys() , x , d , g_t , g_h , e );
    if( ov == 2 ) st.do_step( Sys() , x , g_t , o , g_h , e );
    if( ov == 3 ) st.do_step( Sys() , x , d , g_t , o , g_h , e );
    if( ov > 3 ) { Plain p = { ov - 4 }; p( st ); }
    irv_assert( ( x.n == g_n ) & ( o.n == g_n ) & ( d.n == g_n ) & ( e.n == g_n ) , "the sizes of the arguments are kept" );
} };
struct Fsal { int ov; template< class ST > void operator()( ST &st ) const {
    St x( g_n ) , d( g_n ) , o( g_n ) , q( g_n ) , e( g_n );
    if( ov == 0 ) st.do_step( Sys() , x , g_t , g_h );
    if( ov == 1 ) st.do_step( Sys() , x , d , g_t , g_h );
    if( ov == 2 ) st.do_step( Sys() , x , g_t , o , g_h );
    if( ov == 3 ) st.do_step( Sys() , x , d , g_t , o , q , g_h );
    if( ov == 4 ) st.do_step( Sys() , x , g_t , g_h , e );
    if( ov == 5 ) st.do_step( Sys() , x , d , g_t , g_h , e );
    if( ov == 6 ) st.do_step( Sys() , x , g_t , o , g_h , e );
    if( ov == 7 ) st.do_step( Sys() , x , d , g_t , o , q , g_h , e );
    if( ov == 8 ) { st.initialize( Sys() , x , g_t ); st.do_step( Sys() , x , g_t , g_h ); }
    if( ov == 9 ) { st.initialize( d ); st.do_step( Sys() , x , g_t , g_h ); }
    irv_assert( ( x.n == g_n ) & ( o.n == g_n ) & ( d.n == g_n ) & ( e.n == g_n ) & ( q.n == g_n ) , "the sizes of the arguments are kept" );
} };
static long size( const char *name ) { return irv_nat( name , 0 , 4 ); }
static void setup() { g_t = irv_real( "t" ); g_h = irv_real( "dt" ); irv_assume( g_h != 0 ); }
// two calls, any overloads (ovs of them): with the always resizer the size may change in between; with the initial resizer it stays, or
// adjust_size is called when it changes; with the never resizer adjust_size is called before
template< class R > struct mode;
template<> struct mode< AL > { static const int n = 1; }; template<> struct mode< IN > { static const int n = 2; }; template<> struct mode< NV > { static const int n = 1; };
template< class R > struct is_never { static const bool value = false; }; template<> struct is_never< NV > { static const bool value = true; };
template< class ST , class Use , class R > static void sizes( int ovs )
{
    setup(); ST st; int m = irv_choose( "adjusted by hand" , mode< R >::n );
    Use a = { irv_choose( "first call" , ovs ) } , b = { irv_choose( "second call" , ovs ) };
    g_n = size( "first size" ); if( is_never< R >::value ) st.adjust_size( St( g_n ) );
    a( st );
    long n = size( "second size" );
    if( m == 1 || is_never< R >::value ) { g_n = n; st.adjust_size( St( g_n ) ); }
    else if( mode< R >::n == 1 ) g_n = n;
    b( st );
    irv_cover( "end" );
}
#define SIZES( N , USE , OVS , ... ) template< class R > struct T_##N { typedef __VA_ARGS__ type; }; \
    IRV_HARNESS( C20_sizes_always_##N ) { sizes< T_##N< AL >::type , USE , AL >( OVS ); } \
    IRV_HARNESS( C20_sizes_initially_##N ) { sizes< T_##N< IN >::type , USE , IN >( OVS ); } \
    IRV_HARNESS( C20_sizes_never_##N ) { sizes< T_##N< NV >::type , USE , NV >( OVS ); }
#define A( S ) S< St , double , St , double , Alg , OP , R >
SIZES( euler , Plain , 4 , A( euler ) ) SIZES( rk4 , Plain , 4 , A( runge_kutta4 ) ) SIZES( rk4_classic , Plain , 4 , A( runge_kutta4_classic ) ) SIZES( midpoint , Plain , 4 , A( modified_midpoint ) )
SIZES( cash_karp , Error , 8 , A( runge_kutta_cash_karp54 ) ) SIZES( cash_karp_classic , Error , 8 , A( runge_kutta_cash_karp54_classic ) ) SIZES( fehlberg , Error , 8 , A( runge_kutta_fehlberg78 ) )
SIZES( extrapolation , Error , 8 , extrapolation_stepper< 6 , St , double , St , double , Alg , OP , R > )
SIZES( dopri5 , Fsal , 10 , A( runge_kutta_dopri5 ) )

// generic Runge-Kutta methods
template< class R > struct Generic : explicit_generic_rk< 3 , 3 , St , double , St , double , Alg , OP , R >
{
    typedef explicit_generic_rk< 3 , 3 , St , double , St , double , Alg , OP , R > B;
    static typename B::coef_a_type a() { boost::array< double , 1 > p; boost::array< double , 2 > q; p[ 0 ] = 0.5; q[ 0 ] = -1; q[ 1 ] = 2; return boost::fusion::make_vector( p , q ); }
    static typename B::coef_b_type b() { typename B::coef_b_type r; r[ 0 ] = 0.25; r[ 1 ] = 0.5; r[ 2 ] = 0.25; return r; } static typename B::coef_c_type c() { typename B::coef_c_type r; r[ 0 ] = 0; r[ 1 ] = 0.5; r[ 2 ] = 1; return r; }
    Generic() : B( a() , b() , c() ) {}
};
template< class R > struct GenericErr : explicit_error_generic_rk< 3 , 3 , 3 , 2 , St , double , St , double , Alg , OP , R >
{
    typedef explicit_error_generic_rk< 3 , 3 , 3 , 2 , St , double , St , double , Alg , OP , R > B; GenericErr() : B( Generic< R >::a() , Generic< R >::b() , Generic< R >::b() , Generic< R >::c() ) {}
};
SIZES( generic , Plain , 4 , Generic< R > ) SIZES( generic_error , Error , 8 , GenericErr< R > )
// multistep methods: one to three steps, after an initialisation or not
struct Multi { int ov; template< class ST > void operator()( ST &st ) const {
    St x( g_n ) , o( g_n ); double t = g_t; int k = ov % 3 + 1; bool init = ov / 3 % 2 , out = ov / 6;
    if( init ) { if( out ) st.reset(); st.initialize( Sys() , x , t , g_h ); }
    for( int i = 0 ; i < k ; ++i , t += g_h ) { if( out ) st.do_step( Sys() , x , t , o , g_h ); else st.do_step( Sys() , x , t , g_h ); }
    irv_assert( ( x.n == g_n ) & ( o.n == g_n ) , "the sizes of the arguments are kept" );
} };
#define M( S , N ) S< N , St , double , St , double , Alg , OP , R >
SIZES( adams_bashforth1 , Multi , 12 , M( adams_bashforth , 1 ) ) SIZES( adams_bashforth3 , Multi , 12 , M( adams_bashforth , 3 ) )
SIZES( adams_bashforth_moulton1 , Multi , 12 , M( adams_bashforth_moulton , 1 ) ) SIZES( adams_bashforth_moulton3 , Multi , 12 , M( adams_bashforth_moulton , 3 ) )
// controlled steppers: any verdict, any suggestion
struct Checker
{
    typedef double value_type; typedef Alg algebra_type; typedef OP operations_type;
    template< class A , class T > double error( A & , const St &x , const St &d , St &e , T ) const { fits( ( x.n == g_n ) & ( d.n == g_n ) & ( e.n == g_n ) ); return irv_real( "error" ); }
};
struct Adjuster
{
    double decrease_step( double , double , int ) const { return irv_real( "decreased" ); } double increase_step( double , double , int ) const { return irv_real( "increased" ); }
    bool check_step_size_limit( double ) const { return true; } double get_max_dt() const { return 0; }
};
struct Try { int ov; template< class ST > void operator()( ST &st ) const {
    St x( g_n ) , d( g_n ) , o( g_n ); double t = g_t , h = g_h;
    if( ov == 0 ) st.try_step( Sys() , x , t , h );
    if( ov == 1 ) st.try_step( Sys() , x , d , t , h );
    if( ov == 2 ) st.try_step( Sys() , x , t , o , h );
    irv_assert( ( x.n == g_n ) & ( o.n == g_n ) & ( d.n == g_n ) , "the sizes of the arguments are kept" );
} };
SIZES( controlled_cash_karp , Try , 3 , controlled_runge_kutta< A( runge_kutta_cash_karp54 ) , Checker , Adjuster , R > )
struct TryFsal { int ov; template< class ST > void operator()( ST &st ) const {
    St x( g_n ) , d( g_n ) , o( g_n ) , q( g_n ); double t = g_t , h = g_h; Try a = { ov };
    if( ov < 3 ) a( st );
    if( ov == 3 ) st.try_step( Sys() , x , d , t , o , q , h );
    if( ov == 4 ) { st.initialize( Sys() , x , t ); st.try_step( Sys() , x , t , h ); }
    if( ov == 5 ) { st.initialize( d ); st.try_step( Sys() , x , t , o , h ); }
    irv_assert( ( x.n == g_n ) & ( o.n == g_n ) & ( d.n == g_n ) & ( q.n == g_n ) , "the sizes of the arguments are kept" );
} };
SIZES( controlled_dopri5 , TryFsal , 6 , controlled_runge_kutta< A( runge_kutta_dopri5 ) , Checker , Adjuster , R > )
// dense output
struct Dense { int ov; template< class ST > void operator()( ST &st ) const {
    St x( g_n ) , o( g_n ); st.initialize( x , g_t , g_h );
    for( int i = 0 ; i <= ov ; ++i ) { st.do_step( Sys() ); irv_assert( ( st.current_state().n == g_n ) & ( st.previous_state().n == g_n ) , "the states reported have the size of the state" ); st.calc_state( g_t , o ); }
    irv_assert( o.n == g_n , "the sizes of the arguments are kept" );
} };
struct CheckerA : Checker { template< class A , class T > double error( A &a , const St &x , const St &d , St &e , T h ) const { Checker::error( a , x , d , e , h ); return 0.75; } };
struct AdjusterA : Adjuster { double increase_step( double h , double , int ) const { return h; } };
SIZES( dense_euler , Dense , 2 , dense_output_runge_kutta< A( euler ) > )
SIZES( dense_dopri5 , Dense , 2 , dense_output_runge_kutta< controlled_runge_kutta< A( runge_kutta_dopri5 ) , CheckerA , AdjusterA , R > > )
// symplectic steppers, velocity Verlet
struct DF { void operator()( const St &x , St &d ) const { irv_assert( x.n == g_n , "the system is called with a state of the current size" ); irv_assert( d.n == g_n , "storage for the derivative has the size of the state" ); } };
struct Sympl { int ov; template< class ST > void operator()( ST &st ) const {
    std::pair< St , St > x( ( St( g_n ) ) , St( g_n ) ) , o = x;
    if( ov == 0 ) st.do_step( std::make_pair( DF() , DF() ) , x , g_t , g_h );
    if( ov == 1 ) st.do_step( DF() , x , g_t , g_h );
    if( ov == 2 ) st.do_step( std::make_pair( DF() , DF() ) , x , g_t , o , g_h );
    if( ov == 3 ) st.do_step( DF() , x , g_t , o , g_h );
    if( ov == 4 ) st.do_step( DF() , x.first , x.second , g_t , g_h );
    irv_assert( ( x.first.n == g_n ) & ( x.second.n == g_n ) & ( o.first.n == g_n ) & ( o.second.n == g_n ) , "the sizes of the arguments are kept" );
} };
#define Y( S ) S< St , St , double , St , St , double , Alg , OP , R >
SIZES( symplectic_euler , Sympl , 5 , Y( symplectic_euler ) ) SIZES( symplectic_m4 , Sympl , 5 , Y( symplectic_rkn_sb3a_m4_mclachlan ) ) SIZES( symplectic_mclachlan , Sympl , 5 , Y( symplectic_rkn_sb3a_mclachlan ) )
struct Acc { void operator()( const St &q , const St &v , St &a , double ) const { irv_assert( ( q.n == g_n ) & ( v.n == g_n ) , "the system is called with a state of the current size" ); irv_assert( a.n == g_n , "storage for the derivative has the size of the state" ); } };
struct VV { int ov; template< class ST > void operator()( ST &st ) const {
    std::pair< St , St > x( ( St( g_n ) ) , St( g_n ) ); St a( g_n );
    if( ov == 1 ) st.initialize( Acc() , x.first , x.second , g_t );
    if( ov == 2 ) st.initialize( a );
    if( ov == 3 ) { St q( g_n ) , v( g_n ) , b( g_n ); st.do_step( Acc() , x.first , x.second , a , q , v , b , g_t , g_h ); irv_assert( ( q.n == g_n ) & ( v.n == g_n ) & ( b.n == g_n ) , "the sizes of the arguments are kept" ); return; }
    st.do_step( Acc() , x , g_t , g_h );
    irv_assert( ( x.first.n == g_n ) & ( x.second.n == g_n ) , "the sizes of the arguments are kept" );
} };
SIZES( velocity_verlet , VV , 4 , velocity_verlet< St , St , double , St , double , double , Alg , OP , R > )
// adaptive Adams-Bashforth-Moulton: at concrete, increasing times (the entry of the time storage read before it is written does not matter, C14)
template< class S > struct Prepared : S { Prepared() { for( size_t i = 0 ; i < this->coeff().m_time_storage.size() ; ++i ) this->coeff().m_time_storage[ i ] = -3; } template< class X > void adjust_size( const X & ) { irv_assume( false ); } };
static double g_time;
struct Adaptive { int ov; template< class ST > void operator()( ST &st ) const {
    if( g_time == 0 ) { g_time = 1; } g_t = g_time; g_h = 1; g_time += 8;
    if( ov < 12 ) { Multi m = { ov }; m( st ); return; }
    St x( g_n ) , o( g_n ) , e( g_n );
    for( int i = 0 ; i < 2 ; ++i ) { if( ov == 12 ) st.do_step( Sys() , x , g_t + i , g_h , e ); else st.do_step( Sys() , x , g_t + i , o , g_h , e ); }
    irv_assert( ( x.n == g_n ) & ( o.n == g_n ) & ( e.n == g_n ) , "the sizes of the arguments are kept" );
} };
#define SIZES2( N , USE , OVS , ... ) template< class R > struct T_##N { typedef __VA_ARGS__ type; }; \
    IRV_HARNESS( C20_sizes_always_##N ) { sizes< T_##N< AL >::type , USE , AL >( OVS ); } \
    IRV_HARNESS( C20_sizes_initially_##N ) { sizes< T_##N< IN >::type , USE , IN >( OVS ); }
SIZES2( adaptive_adams , Adaptive , 14 , Prepared< M( adaptive_adams_bashforth_moulton , 3 ) > )
struct StepAdj { typedef double time_type; typedef St state_type; typedef St deriv_type; double adjust_stepsize( size_t , double h , St &e , const St &x , const St &d ) { fits( ( e.n == g_n ) & ( x.n == g_n ) & ( d.n == g_n ) ); return irv_bool( "accept" ) ? h : h / 2; } static double threshold() { return 0.9; } };
template< size_t N > struct OrderAdj { template< class E > size_t adjust_order( size_t o , size_t s , E &e ) { bool b = true; for( size_t i = 0 ; i < e.size() ; ++i ) b = b & ( e[ i ].m_v.n == g_n ); fits( b ); return o < N && o < s ? o + 1 : o; } };
template< class S , class R > struct ControlledAdams : controlled_adams_bashforth_moulton< S , StepAdj , OrderAdj< 3 > , R > { template< class X > void adjust_size( const X & ) { irv_assume( false ); } };
struct TryAdaptive { int ov; template< class ST > void operator()( ST &st ) const {
    if( g_time == 0 ) { g_time = 1; } double t = g_time , h = 1; g_time += 8;
    St x( g_n ) , o( g_n ); if( ov & 1 ) st.initialize( Sys() , x , t , h );
    for( int i = 0 ; i < 2 ; ++i ) { h = 1; if( ov & 2 ) st.try_step( Sys() , x , t , o , h ); else st.try_step( Sys() , x , t , h ); }
    irv_assert( ( x.n == g_n ) & ( o.n == g_n ) , "the sizes of the arguments are kept" );
} };
SIZES2( controlled_adams , TryAdaptive , 4 , ControlledAdams< Prepared< M( adaptive_adams_bashforth_moulton , 3 ) > , R > )
