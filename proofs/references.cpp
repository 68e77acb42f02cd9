// C25: systems, forces and Jacobians given to the steppers through references or by value
#include <utility>
#include <vector>
#include <cmath>
#include <functional>
#include <boost/array.hpp>
#include <boost/ref.hpp>
#define BOOST_UBLAS_NDEBUG
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include "irv.h"
using namespace boost::numeric::odeint;
typedef boost::array< double , 1 > A1;
// every object checks on which object it is called: the object itself, or a copy that carries its state
static int g_ref; static long g_calls;
struct Id { long tag; Id() : tag( 7 ) {} };
static const void *g_id[ 2 ];
static void used( const Id *p , int k )
{
    ++g_calls;
    if( g_ref ) irv_assert( (const void*) p == g_id[ k ] , "passed by reference: the object itself is called" );
    else irv_assert( (const void*) p != g_id[ k ] , "passed by value: a copy is called" );
    irv_assert( p->tag == 7 , "the object called has the state of the object passed" );
}
struct Sys : Id { void operator()( const A1 &x , A1 &d , double t ) { used( this , 0 ); d[ 0 ] = irv_uf( "f" , 2 , x[ 0 ] , t ); } };
struct Res { double v[ 6 ]; int n; Res() : n( 0 ) {} void add( double x ) { v[ n++ ] = x; } };
static void same( const Res &a , const Res &b ) { bool r = a.n == b.n; for( int i = 0 ; i < a.n ; ++i ) r = r & irv_eq( a.v[ i ] , b.v[ i ] ); irv_assert( r , "same results by value and by reference" ); }
// call( system ) does the steps and returns the results; the same for a system by value, through boost::ref and std::ref
template< class S , class Call > static void compare( Call call )
{
    S v , a , b;
    g_ref = 0; g_calls = 0; g_id[ 0 ] = &v; Res rv = call( v ); long n = g_calls;
    irv_assert( v.tag == 7 , "an object passed by value is not modified" );
    g_ref = 1;
    if( irv_choose( "reference" , 2 ) == 0 ) { g_calls = 0; g_id[ 0 ] = &a; same( call( boost::ref( a ) ) , rv ); }
    else { g_calls = 0; g_id[ 0 ] = &b; same( call( std::ref( b ) ) , rv ); }
    irv_assert( g_calls == n , "called as often" );
    irv_cover( "end" );
}
static double g_x , g_t , g_h , g_d;
static void values() { g_x = irv_real( "x" ); g_t = irv_real( "t" ); g_h = irv_real( "dt" ); g_d = irv_real( "derivative" ); irv_assume( g_h != 0 ); }
static A1 a1( double x ) { A1 r; r[ 0 ] = x; return r; }
// ---- explicit steppers: two steps of each overload with one stepper
template< class ST > struct Plain { int ov; template< class W > Res operator()( W &&w ) const
{
    ST st; A1 x = a1( g_x ) , d = a1( g_d ) , o = a1( 0 ); Res r; double t = g_t;
    for( int k = 0 ; k < 2 ; ++k , t += g_h )
    {
        if( ov == 0 ) st.do_step( w , x , t , g_h );
        if( ov == 1 ) st.do_step( w , x , d , t , g_h );
        if( ov == 2 ) { st.do_step( w , x , t , o , g_h ); x = o; }
        if( ov == 3 ) { st.do_step( w , x , d , t , o , g_h ); x = o; }
        r.add( x[ 0 ] );
    }
    return r;
} };
template< class ST > struct Error { int ov; template< class W > Res operator()( W &&w ) const
{
    ST st; A1 x = a1( g_x ) , d = a1( g_d ) , o = a1( 0 ) , e = a1( 0 ); Res r; double t = g_t;
    for( int k = 0 ; k < 2 ; ++k , t += g_h )
    {
        if( ov == 0 ) st.do_step( w , x , t , g_h , e );
        if( ov == 1 ) st.do_step( w , x , d , t , g_h , e );
        if( ov == 2 ) { st.do_step( w , x , t , o , g_h , e ); x = o; }
        if( ov == 3 ) { st.do_step( w , x , d , t , o , g_h , e ); x = o; }
        r.add( x[ 0 ] ); r.add( e[ 0 ] );
    }
    return r;
} };
template< class ST > struct Fsal { int ov; template< class W > Res operator()( W &&w ) const
{
    ST st; A1 x = a1( g_x ) , d = a1( g_d ) , o = a1( 0 ) , q = a1( 0 ) , e = a1( 0 ); Res r; double t = g_t;
    for( int k = 0 ; k < 2 ; ++k , t += g_h )
    {
        if( ov == 0 ) st.do_step( w , x , t , g_h );
        if( ov == 1 ) st.do_step( w , x , d , t , g_h );
        if( ov == 2 ) { st.do_step( w , x , t , o , g_h ); x = o; }
        if( ov == 3 ) { st.do_step( w , x , d , t , o , q , g_h ); x = o; d = q; }
        if( ov == 4 ) st.do_step( w , x , t , g_h , e );
        if( ov == 5 ) st.do_step( w , x , d , t , g_h , e );
        if( ov == 6 ) { st.do_step( w , x , t , o , g_h , e ); x = o; }
        if( ov == 7 ) { st.do_step( w , x , d , t , o , q , g_h , e ); x = o; d = q; }
        r.add( x[ 0 ] ); r.add( d[ 0 ] ); r.add( e[ 0 ] );
    }
    return r;
} };
#define PLAIN( N , ... ) IRV_HARNESS( C25_plain_##N ) { values(); Plain< __VA_ARGS__ > c = { irv_choose( "overload" , 4 ) }; compare< Sys >( c ); }
#define ERROR( N , ... ) PLAIN( N , __VA_ARGS__ ) IRV_HARNESS( C25_error_##N ) { values(); Error< __VA_ARGS__ > c = { irv_choose( "overload" , 4 ) }; compare< Sys >( c ); }
PLAIN( euler , euler< A1 > ) PLAIN( rk4 , runge_kutta4< A1 > ) PLAIN( rk4_classic , runge_kutta4_classic< A1 > ) PLAIN( midpoint , modified_midpoint< A1 > )
ERROR( cash_karp , runge_kutta_cash_karp54< A1 > ) ERROR( cash_karp_classic , runge_kutta_cash_karp54_classic< A1 > ) ERROR( fehlberg , runge_kutta_fehlberg78< A1 > )
ERROR( extrapolation4 , extrapolation_stepper< 4 , A1 > )
IRV_HARNESS( C25_fsal_dopri5 ) { values(); Fsal< runge_kutta_dopri5< A1 > > c = { irv_choose( "overload" , 8 ) }; compare< Sys >( c ); }
// ---- multistep methods
// the entry of the time storage that is read before it is written does not matter (C14)
template< class ST > static void prepare( ST & ) {}
static double g_old; template< size_t N > static void prepare( adaptive_adams_bashforth_moulton< N , A1 > &st ) { for( size_t i = 0 ; i < st.coeff().m_time_storage.size() ; ++i ) st.coeff().m_time_storage[ i ] = g_old; }
template< class ST > struct Multi { int ov; template< class W > Res operator()( W &&w ) const
{
    ST st; prepare( st ); A1 x = a1( g_x ) , o = a1( 0 ); Res r; double t = g_t;
    if( ov == 2 ) st.initialize( w , x , t , g_h );
    if( ov == 3 ) { euler< A1 > e; st.initialize( boost::ref( e ) , w , x , t , g_h ); }
    for( int k = 0 ; k < 4 ; ++k , t += g_h ) { if( ov == 1 ) { st.do_step( w , x , t , o , g_h ); x = o; } else st.do_step( w , x , t , g_h ); r.add( x[ 0 ] ); }
    r.add( t );
    return r;
} };
IRV_HARNESS( C25_adams_bashforth ) { values(); Multi< adams_bashforth< 3 , A1 > > c = { irv_choose( "overload" , 4 ) }; compare< Sys >( c ); }
IRV_HARNESS( C25_adams_bashforth_moulton ) { values(); Multi< adams_bashforth_moulton< 3 , A1 > > c = { irv_choose( "overload" , 3 ) }; compare< Sys >( c ); }
IRV_HARNESS( C25_adaptive_adams ) { values(); g_old = irv_real( "old time" );  Multi< adaptive_adams_bashforth_moulton< 2 , A1 > > c = { irv_choose( "overload" , 4 ) }; compare< Sys >( c ); }
// ---- controlled and dense output steppers
template< class C > struct Try { int ov; template< class W > Res operator()( W &&w ) const
{
    C c; A1 x = a1( g_x ) , d = a1( g_d ) , o = a1( g_x ); Res r; double t = g_t , h = g_h; controlled_step_result q = fail;
    for( int k = 0 ; k < 1 ; ++k )
    {
        if( ov == 0 ) q = c.try_step( w , x , t , h );
        if( ov == 1 ) q = c.try_step( w , x , d , t , h );
        if( ov == 2 ) { q = c.try_step( w , x , t , o , h ); x = o; }
    }
    r.add( x[ 0 ] ); r.add( t ); r.add( h ); r.add( q == success ? 1 : 0 );
    return r;
} };
IRV_HARNESS( C25_controlled_cash_karp ) { values(); Try< controlled_runge_kutta< runge_kutta_cash_karp54< A1 > > > c = { irv_choose( "overload" , 3 ) }; compare< Sys >( c ); }
IRV_HARNESS( C25_controlled_dopri5 ) { values(); Try< controlled_runge_kutta< runge_kutta_dopri5< A1 > > > c = { irv_choose( "overload" , 3 ) }; compare< Sys >( c ); }
struct DenseExplicit { template< class W > Res operator()( W &&w ) const
{
    dense_output_runge_kutta< euler< A1 > > st; Res r; st.initialize( a1( g_x ) , g_t , g_h );
    for( int k = 0 ; k < 2 ; ++k ) { std::pair< double , double > p = st.do_step( w ); r.add( p.second ); r.add( st.current_state()[ 0 ] ); }
    return r;
} };
IRV_HARNESS( C25_dense_euler ) { values(); compare< Sys >( DenseExplicit() ); }
// ---- symplectic steppers: both parts of the system
struct DQ : Id { void operator()( const A1 &p , A1 &d ) { used( this , 0 ); d[ 0 ] = irv_uf( "dq" , 1 , p[ 0 ] ); } };
struct DP : Id { void operator()( const A1 &q , A1 &d ) { used( this , 1 ); d[ 0 ] = irv_uf( "dp" , 1 , q[ 0 ] ); } };
struct F : Id { void operator()( const A1 &q , A1 &d ) { used( this , 0 ); d[ 0 ] = irv_uf( "dp" , 1 , q[ 0 ] ); } };
template< class ST > struct Sympl { int ov; template< class W > Res operator()( W &&w ) const
{
    ST st; std::pair< A1 , A1 > x( a1( g_x ) , a1( g_d ) ) , o = x; Res r;
    for( int k = 0 ; k < 2 ; ++k ) { if( ov == 0 ) st.do_step( w , x , g_t , g_h ); if( ov == 1 ) { st.do_step( w , x , g_t , o , g_h ); x = o; } if( ov == 2 ) st.do_step( w , x.first , x.second , g_t , g_h ); r.add( x.first[ 0 ] ); r.add( x.second[ 0 ] ); }
    return r;
} };
template< class ST > static void forces()
{
    values(); Sympl< ST > c = { irv_choose( "overload" , 3 ) };
    if( irv_choose( "simple" , 2 ) ) { compare< F >( c ); return; }
    std::pair< DQ , DP > v , a; DQ q; DP p;
    g_ref = 0; g_id[ 0 ] = &v.first; g_id[ 1 ] = &v.second; Res rv = c( v ); irv_assert( ( v.first.tag == 7 ) & ( v.second.tag == 7 ) , "an object passed by value is not modified" );
    g_ref = 1;
    switch( irv_choose( "reference" , 4 ) )
    {
    case 0: g_id[ 0 ] = &a.first; g_id[ 1 ] = &a.second; same( c( boost::ref( a ) ) , rv ); break;
    case 1: g_id[ 0 ] = &a.first; g_id[ 1 ] = &a.second; same( c( std::ref( a ) ) , rv ); break;
    case 2: g_id[ 0 ] = &q; g_id[ 1 ] = &p; same( c( std::pair< boost::reference_wrapper< DQ > , boost::reference_wrapper< DP > >( boost::ref( q ) , boost::ref( p ) ) ) , rv ); break;
    case 3: g_id[ 0 ] = &q; g_id[ 1 ] = &p; same( c( std::pair< std::reference_wrapper< DQ > , std::reference_wrapper< DP > >( std::ref( q ) , std::ref( p ) ) ) , rv ); break;
    }
    irv_cover( "end" );
}
IRV_HARNESS( C25_symplectic_euler ) { forces< symplectic_euler< A1 > >(); }
IRV_HARNESS( C25_symplectic_m4 ) { forces< symplectic_rkn_sb3a_m4_mclachlan< A1 > >(); }
IRV_HARNESS( C25_symplectic_mclachlan ) { forces< symplectic_rkn_sb3a_mclachlan< A1 > >(); }
struct Acc : Id { void operator()( const A1 &q , const A1 &v , A1 &a , double t ) { used( this , 0 ); a[ 0 ] = irv_uf( "acc" , 3 , q[ 0 ] , v[ 0 ] , t ); } };
struct VV { int ov; template< class W > Res operator()( W &&w ) const
{
    velocity_verlet< A1 > st; std::pair< A1 , A1 > x( a1( g_x ) , a1( g_d ) ); Res r;
    if( ov == 1 ) st.initialize( w , x.first , x.second , g_t );
    for( int k = 0 ; k < 2 ; ++k ) { if( ov == 2 ) st.do_step( w , std::make_pair( boost::ref( x.first ) , boost::ref( x.second ) ) , g_t , g_h ); else st.do_step( w , x , g_t , g_h ); r.add( x.first[ 0 ] ); r.add( x.second[ 0 ] ); }
    return r;
} };
IRV_HARNESS( C25_velocity_verlet ) { values(); VV c = { irv_choose( "overload" , 3 ) }; compare< Acc >( c ); }
// ---- implicit steppers: function and Jacobian, one component
typedef boost::numeric::ublas::vector< double > V; typedef boost::numeric::ublas::matrix< double > M;
struct RF : Id { void operator()( const V &x , V &d , double t ) { used( this , 0 ); d( 0 ) = irv_uf( "f" , 2 , x( 0 ) , t ); } };
struct RJ : Id { void operator()( const V &x , M &j , const double &t , V &dt ) { used( this , 1 ); j( 0 , 0 ) = g_d; dt( 0 ) = irv_uf( "ft" , 2 , x( 0 ) , t ); } };
struct Ros { int ov; template< class W > Res operator()( W &&w ) const
{
    rosenbrock4< double > st; V x( 1 ) , o( 1 ) , e( 1 ); x( 0 ) = g_x; e( 0 ) = 0; Res r;
    if( ov == 0 ) st.do_step( w , x , g_t , g_h );
    if( ov == 1 ) { st.do_step( w , x , g_t , o , g_h ); x = o; }
    if( ov == 2 ) st.do_step( w , x , g_t , g_h , e );
    if( ov == 3 ) { st.do_step( w , x , g_t , o , g_h , e ); x = o; }
    r.add( x( 0 ) ); r.add( e( 0 ) );
    return r;
} };
template< class RF , class RJ , class C > static void implicit( C c )
{
    std::pair< RF , RJ > v , a; RF f; RJ j;
    g_ref = 0; g_id[ 0 ] = &v.first; g_id[ 1 ] = &v.second; Res rv = c( v ); irv_assert( ( v.first.tag == 7 ) & ( v.second.tag == 7 ) , "an object passed by value is not modified" );
    g_ref = 1;
    switch( irv_choose( "reference" , 4 ) )
    {
    case 0: g_id[ 0 ] = &a.first; g_id[ 1 ] = &a.second; same( c( boost::ref( a ) ) , rv ); break;
    case 1: g_id[ 0 ] = &a.first; g_id[ 1 ] = &a.second; same( c( std::ref( a ) ) , rv ); break;
    case 2: g_id[ 0 ] = &f; g_id[ 1 ] = &j; same( c( std::make_pair( boost::ref( f ) , boost::ref( j ) ) ) , rv ); break;
    case 3: g_id[ 0 ] = &f; g_id[ 1 ] = &j; same( c( std::pair< std::reference_wrapper< RF > , std::reference_wrapper< RJ > >( std::ref( f ) , std::ref( j ) ) ) , rv ); break;
    }
    irv_cover( "end" );
}
IRV_HARNESS( C25_rosenbrock ) { values(); default_rosenbrock_coefficients< double > k; irv_assume( 1 / ( g_h * k.gamma ) - g_d != 0 ); Ros c = { irv_choose( "overload" , 4 ) }; implicit< RF , RJ >( c ); }
