// C15: symplectic Runge-Kutta-Nystroem steppers and velocity Verlet
#include <utility>
#include <vector>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include "states.hpp"
using namespace boost::numeric::odeint;
// separable system: dq/dt = dq( p ) , dp/dt = dp( q ), arbitrary functions
static long g_dq , g_dp;
static double uq( double p ) { return irv_uf( "dq" , 1 , p ); }
static double up( double q ) { return irv_uf( "dp" , 1 , q ); }
static double uq2( int c , double p0 , double p1 ) { return irv_uf( c ? "dq1" : "dq0" , 2 , p0 , p1 ); }
static double up2( int c , double q0 , double q1 ) { return irv_uf( c ? "dp1" : "dp0" , 2 , q0 , q1 ); }
struct DQ { void operator()( const double &p , double &d ) const { ++g_dq; d = uq( p ); }
            template< class S > void operator()( const S &p , S &d ) const { ++g_dq; d[ 0 ] = uq2( 0 , p[ 0 ] , p[ 1 ] ); d[ 1 ] = uq2( 1 , p[ 0 ] , p[ 1 ] ); } };
struct DP { void operator()( const double &q , double &d ) const { ++g_dp; d = up( q ); }
            template< class S > void operator()( const S &q , S &d ) const { ++g_dp; d[ 0 ] = up2( 0 , q[ 0 ] , q[ 1 ] ); d[ 1 ] = up2( 1 , q[ 0 ] , q[ 1 ] ); } };
struct DPMember { mutable int calls; DPMember() : calls( 0 ) {} DPMember( const DPMember& ) : calls( 1000 ) {} template< class S > void operator()( const S &q , S &d ) const { ++calls; DP()( q , d ); } };
template< class St > struct Num;
#define STEPPERS( M ) M( symplectic_euler , 1 , 1 ) M( symplectic_rkn_sb3a_mclachlan , 6 , 4 ) M( symplectic_rkn_sb3a_m4_mclachlan , 5 , 4 )
template< class S > struct Alg { typedef range_algebra type; };
template<> struct Alg< double > { typedef vector_space_algebra type; };
template<> struct Alg< arr2 > { typedef array_algebra type; };
// the specified composition: drift q by a_l dt dq( latest p ), then kick p by b_l dt dp( latest q )
template< class S , class C > static void compose( const C &a , const C &b , int n , S &q , S &p , double dt , bool simple )
{
    for( int l = 0 ; l < n ; ++l )
    {
        S d = St< S >::make();
        if( simple ) d = p; else DQ()( p , d );
        for( int c = 0 ; c < St< S >::D ; ++c ) St< S >::at( q , c ) += a[ l ] * dt * St< S >::at( d , c );
        DP()( q , d );
        for( int c = 0 ; c < St< S >::D ; ++c ) St< S >::at( p , c ) += b[ l ] * dt * St< S >::at( d , c );
    }
}
template< class T , class S > static void step( int n , int ov , bool again )
{
    T st; S q = St< S >::make() , p = St< S >::make(); fresh_state( q , "q" ); fresh_state( p , "p" );
    double t = irv_real( "t" ) , dt = irv_real( "dt" );
    if( again )
    {   // whatever the stepper was used for before does not matter
        S q1 = St< S >::make() , p1 = St< S >::make(); fresh_state( q1 , "q before" ); fresh_state( p1 , "p before" ); std::pair< S , S > y( q1 , p1 );
        st.do_step( std::make_pair( DQ() , DP() ) , y , irv_real( "t before" ) , irv_real( "dt before" ) );
    }
    S q0 = q , p0 = p , qs = q , ps = p;
    bool simple = ov >= 6;
    typename T::coef_type a = st.coef_a() , b = st.coef_b();
    compose( a , b , n , qs , ps , dt , simple );
    g_dq = g_dp = 0;
    S qo = St< S >::make() , po = St< S >::make(); fresh_state( qo , "old q" ); fresh_state( po , "old p" );
    std::pair< DQ , DP > sys; DPMember m;
    std::pair< S , S > x( q , p ) , o( qo , po );
    if( ov == 0 ) { st.do_step( sys , x , t , dt ); qo = x.first; po = x.second; }
    if( ov == 1 ) { st.do_step( sys , x , t , o , dt ); qo = o.first; po = o.second; irv_assert( state_eq( x.first , q0 ) & state_eq( x.second , p0 ) , "input untouched" ); }
    if( ov == 2 ) { st.do_step( sys , q , p , t , dt ); qo = q; po = p; }
    if( ov == 3 ) { st.do_step( sys , std::make_pair( boost::ref( q ) , boost::ref( p ) ) , t , dt ); qo = q; po = p; }
    if( ov == 4 ) { st.do_step( boost::ref( sys ) , x , t , x , dt ); qo = x.first; po = x.second; }
    if( ov == 5 ) { std::pair< boost::reference_wrapper< const DQ > , boost::reference_wrapper< const DPMember > > rs( boost::cref( sys.first ) , boost::cref( m ) );
        boost::reference_wrapper< std::pair< S , S > > rx( x ); st.do_step( rs , rx , t , dt ); qo = x.first; po = x.second; irv_assert( m.calls == n , "reference wrapped force is called on the object itself" ); }
    if( ov == 6 ) { st.do_step( DP() , x , t , dt ); qo = x.first; po = x.second; }
    if( ov == 7 ) { st.do_step( DP() , x , t , o , dt ); qo = o.first; po = o.second; irv_assert( state_eq( x.first , q0 ) & state_eq( x.second , p0 ) , "input untouched" ); }
    if( ov == 8 ) { st.do_step( boost::ref( m ) , q , p , t , dt ); qo = q; po = p; irv_assert( m.calls == n , "reference wrapped force is called on the object itself" ); }
    if( ov == 9 ) { st.do_step( DP() , std::make_pair( boost::ref( q ) , boost::ref( p ) ) , t , dt ); qo = q; po = p; }
    irv_assert( state_eq( qo , qs ) & state_eq( po , ps ) , "the step is the composition of drifts with the a and kicks with the b coefficients" );
    irv_assert( ( g_dp == n ) & ( g_dq == ( simple ? 0 : n ) ) , "one evaluation of each part of the system per stage" );
    irv_assert( (int) T::num_of_stages == n , "stages" );
    irv_cover( "end" );
}
// order: the coefficient of every word of length <= order in prod exp( a_l A ) exp( b_l B ) is 1 / length!
template< class C > static void words( const C &a , const C &b , int n , int order , double tol , const char *id )
{
    // w[ len ][ word ] : coefficient, bit k of word = k-th letter ( 0 : A , 1 : B )
    double w[ 5 ][ 16 ] = {}; w[ 0 ][ 0 ] = 1;
    for( int l = 0 ; l < 2 * n ; ++l )
    {
        int letter = l % 2; double c = letter ? b[ l / 2 ] : a[ l / 2 ];
        for( int len = order ; len >= 1 ; --len ) for( int v = 0 ; v < ( 1 << len ) ; ++v )
        {   // words ending in j letters of this kind
            double f = 1 , s = w[ len ][ v ];
            for( int j = 1 ; j <= len ; ++j )
            {
                if( ( ( v >> ( len - j ) ) & 1 ) != letter ) break;
                f *= c / j;
                s += w[ len - j ][ v & ( ( 1 << ( len - j ) ) - 1 ) ] * f;
            }
            w[ len ][ v ] = s;
        }
    }
    double fac = 1;
    for( int len = 1 ; len <= order ; ++len )
    {
        fac *= len;
        for( int v = 0 ; v < ( 1 << len ) ; ++v )
        {
            if( tol == 0 ) irv_assert( irv_eq( w[ len ][ v ] * fac , 1.0 ) , id );
            else irv_assert( ( w[ len ][ v ] * fac - 1.0 <= tol ) & ( 1.0 - w[ len ][ v ] * fac <= tol ) , id );
        }
    }
}
template< class T > static void order( int n , int ord , double tol )
{
    T st; typename T::coef_type a = st.coef_a() , b = st.coef_b();
    irv_assert( (int) st.order() == ord , "advertised order" );
    words( a , b , n , ord , tol , "order conditions of the composition" );
    irv_cover( "end" );
}
#define H1( T , n , o , S ) \
    IRV_HARNESS( C15_##T##_##S ) { step< T< S , S , double , S , S , double , Alg< S >::type > , S >( n , irv_choose( "overload" , 10 ) , irv_choose( "used before" , 2 ) ); }
#define HS( T , n , o ) H1( T , n , o , double ) H1( T , n , o , vec ) H1( T , n , o , arr2 ) \
    IRV_HARNESS( C15_##T##_order ) { order< T< double , double , double , double , double , double , vector_space_algebra > >( n , o , o == 4 && n == 6 ? 1e-13 : 0 ); }
STEPPERS( HS )
// adjust_size with never_resizer, and a size change with always_resizer
IRV_HARNESS( C15_symplectic_sizes )
{
    symplectic_rkn_sb3a_m4_mclachlan< vec , vec , double , vec , vec , double , range_algebra , default_operations , never_resizer > st;
    symplectic_rkn_sb3a_m4_mclachlan< vec , vec , double , vec , vec , double , range_algebra , default_operations , always_resizer > sa;
    vec q( 2 ) , p( 2 ); fresh_state( q , "q" ); fresh_state( p , "p" ); st.adjust_size( q );
    vec qs = q , ps = p , q1( 1 , 1.0 ) , p1( 1 , 0.0 ); double dt = irv_real( "dt" );
    struct One { void operator()( const vec &q , vec &d ) const { irv_assert( d.size() == 1 , "derivative sized like the state" ); d[ 0 ] = q[ 0 ]; } };
    sa.do_step( One() , q1 , p1 , 0.0 , dt );
    compose( st.coef_a() , st.coef_b() , 5 , qs , ps , dt , false );
    vec qa = q , pa = p; std::pair< DQ , DP > sys;
    st.do_step( sys , q , p , 0.0 , dt ); sa.do_step( sys , qa , pa , 0.0 , dt );
    irv_assert( state_eq( q , qs ) & state_eq( p , ps ) , "sized with adjust_size" );
    irv_assert( state_eq( qa , qs ) & state_eq( pa , ps ) , "resized automatically" );
    irv_cover( "end" );
}
// velocity Verlet
static long g_acc;
static double ua( int c , double q0 , double q1 , double v0 , double v1 , double t ) { return irv_uf( c ? "a1" : "a0" , 5 , q0 , q1 , v0 , v1 , t ); }
struct Acc { void operator()( const double &q , const double &v , double &a , double t ) const { ++g_acc; a = irv_uf( "a" , 3 , q , v , t ); }
             template< class S > void operator()( const S &q , const S &v , S &a , double t ) const { ++g_acc; a[ 0 ] = ua( 0 , q[ 0 ] , q[ 1 ] , v[ 0 ] , v[ 1 ] , t ); a[ 1 ] = ua( 1 , q[ 0 ] , q[ 1 ] , v[ 0 ] , v[ 1 ] , t ); } };
template< class S > static S acc( const S &q , const S &v , double t ) { S a = St< S >::make(); Acc()( q , v , a , t ); return a; }
// half kick, drift, half kick
template< class S > static void vv_ref( S &q , S &v , S &a , double t , double dt )
{
    S h = v;
    for( int c = 0 ; c < St< S >::D ; ++c ) { St< S >::at( h , c ) = St< S >::at( v , c ) + dt / 2 * St< S >::at( a , c ); St< S >::at( q , c ) += dt * St< S >::at( h , c ); }
    S an = acc( q , v , t + dt );
    for( int c = 0 ; c < St< S >::D ; ++c ) St< S >::at( v , c ) = St< S >::at( h , c ) + dt / 2 * St< S >::at( an , c );
    a = an;
}
template< class S , class R = initially_resizer > using VV = velocity_verlet< S , S , double , S , double , double , typename Alg< S >::type , default_operations , R >;
template< class S , class R > static void vv( bool pre )
{
    VV< S , R > st; S q = St< S >::make() , v = q , a = q; fresh_state( q , "q" ); fresh_state( v , "v" ); fresh_state( a , "a" );
    double t = irv_real( "t" ) , dt = irv_real( "dt" );
    if( pre ) st.adjust_size( q );
    irv_assert( !st.is_initialized() , "a new stepper is not initialised" );
    // history: any number of earlier steps leaves either of the two acceleration buffers current
    int before = irv_choose( "steps before" , 3 );
    for( int i = 0 ; i < before ; ++i ) { std::pair< S , S > y( St< S >::make() , St< S >::make() ); fresh_state( y.first , "q before" ); fresh_state( y.second , "v before" ); st.do_step( Acc() , y , irv_real( "t before" ) , irv_real( "dt before" ) ); }
    int how = irv_choose( "start" , before ? 4 : 3 );
    bool stored = true;
    if( how == 0 ) { st.reset(); irv_assert( !st.is_initialized() , "reset" ); a = acc( q , v , t ); stored = false; }
    if( how == 1 ) { st.initialize( a ); }                                   // caller supplied acceleration
    if( how == 2 ) { double ti = irv_real( "t init" ); st.initialize( Acc() , q , v , ti ); a = acc( q , v , ti ); }
    if( how == 3 ) { // continue from where the stepper stands: the acceleration stored by the last step
        std::pair< S , S > y( q , v ); double tb = irv_real( "t last" ) , db = irv_real( "dt last" ); S vb = v;
        st.do_step( Acc() , y , tb , db ); q = y.first; v = y.second; a = acc( q , vb , tb + db ); }
    irv_assert( st.is_initialized() == stored , "initialised exactly when an acceleration is stored" );
    // two steps: the second reuses the acceleration at the end of the first
    S qs = q , vs = v; g_acc = 0;
    std::pair< S , S > x( q , v ); Acc sys;
    for( int i = 0 ; i < 2 ; ++i )
    {
        vv_ref( qs , vs , a , t , dt );
        g_acc = 0;
        int ov = irv_choose( "overload" , 2 );
        if( ov == 0 ) st.do_step( sys , x , t , dt );
        else st.do_step( boost::ref( sys ) , std::make_pair( boost::ref( x.first ) , boost::ref( x.second ) ) , t , dt );
        irv_assert( state_eq( x.first , qs ) , "position: drift with the half kicked velocity" );
        irv_assert( state_eq( x.second , vs ) , "velocity: mean of old and new acceleration" );
        irv_assert( g_acc == ( stored ? 1 : 2 ) , "one evaluation per step, one more only for the first" );
        stored = true; t += dt;
        irv_assert( st.is_initialized() , "initialised by the step" );
    }
    irv_cover( "end" );
}
IRV_HARNESS( C15_verlet_double ) { vv< double , initially_resizer >( false ); }
IRV_HARNESS( C15_verlet_vec ) { vv< vec , initially_resizer >( false ); }
IRV_HARNESS( C15_verlet_vec_always ) { vv< vec , always_resizer >( irv_choose( "adjust" , 2 ) ); }
IRV_HARNESS( C15_verlet_vec_never ) { vv< vec , never_resizer >( true ); }
IRV_HARNESS( C15_verlet_arr ) { vv< arr2 , initially_resizer >( irv_choose( "adjust" , 2 ) ); }
// explicit overload: caller keeps the accelerations; outputs may be the inputs
template< class S > static void vv8( int alias )
{
    VV< S > st; S q = St< S >::make() , v = q , a = q , qo = q , vo = q , ao = q;
    fresh_state( q , "q" ); fresh_state( v , "v" ); fresh_state( a , "a" ); fresh_state( qo , "old q" ); fresh_state( vo , "old v" ); fresh_state( ao , "old a" );
    double t = irv_real( "t" ) , dt = irv_real( "dt" ); S q0 = q , v0 = v , a0 = a , qs = q , vs = v , as = a;
    vv_ref( qs , vs , as , t , dt );
    if( alias ) { st.do_step( Acc() , q , v , a , q , v , ao , t , dt ); qo = q; vo = v; irv_assert( state_eq( a , a0 ) , "input acceleration untouched" ); }
    else { st.do_step( Acc() , q , v , a , qo , vo , ao , t , dt ); irv_assert( state_eq( q , q0 ) & state_eq( v , v0 ) & state_eq( a , a0 ) , "inputs untouched" ); }
    irv_assert( state_eq( qo , qs ) & state_eq( vo , vs ) & state_eq( ao , as ) , "velocity Verlet step with given accelerations" );
    irv_assert( !st.is_initialized() , "stepper state untouched" );
    irv_cover( "end" );
}
IRV_HARNESS( C15_verlet_explicit_double ) { vv8< double >( irv_choose( "alias" , 2 ) ); }
IRV_HARNESS( C15_verlet_explicit_vec ) { vv8< vec >( irv_choose( "alias" , 2 ) ); }
// for a force depending on the position only a step back with -dt returns to the start
struct Pot { void operator()( const double &q , const double & , double &a , double ) const { a = irv_uf( "g" , 1 , q ); } };
IRV_HARNESS( C15_verlet_reversible )
{
    VV< double > st , st2; std::pair< double , double > x( irv_real( "q" ) , irv_real( "v" ) ) , x0 = x; double t = irv_real( "t" ) , dt = irv_real( "dt" );
    st.do_step( Pot() , x , t , dt );
    if( irv_choose( "same stepper" , 2 ) ) st.do_step( Pot() , x , t + dt , -dt ); else st2.do_step( Pot() , x , t + dt , -dt );
    irv_assert( irv_eq( x.first , x0.first ) , "position returns" ); irv_assert( irv_eq( x.second , x0.second ) , "velocity returns" );
    irv_cover( "end" );
}
// size change with always_resizer: the acceleration is evaluated again
IRV_HARNESS( C15_verlet_resize )
{
    VV< vec , always_resizer > st; struct One { void operator()( const vec &q , const vec &v , vec &a , double t ) const { irv_assert( a.size() == q.size() , "acceleration sized like the position" ); for( size_t i = 0 ; i < q.size() ; ++i ) a[ i ] = irv_uf( "g" , 2 , q[ i ] , t ); } };
    std::pair< vec , vec > y( vec( 1 , irv_real( "y" ) ) , vec( 1 , irv_real( "w" ) ) ) , x( vec( 2 ) , vec( 2 ) ); fresh_state( x.first , "q" ); fresh_state( x.second , "v" ); std::pair< vec , vec > z = x;
    double t = irv_real( "t" ) , dt = irv_real( "dt" );
    st.do_step( One() , y , t , dt ); st.do_step( One() , x , t , dt );
    VV< vec , initially_resizer > ref; ref.do_step( One() , z , t , dt );
    irv_assert( state_eq( x.first , z.first ) & state_eq( x.second , z.second ) , "as with a new stepper" );
    irv_cover( "end" );
}
