// C13: Adams-Bashforth, Adams-Moulton and the predictor-corrector
#include <utility>
#include <vector>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_moulton.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include "irv.h"
using namespace boost::numeric::odeint;
static double f( double x , double t ) { return irv_uf( "f" , 2 , x , t ); }
static long g_evals;
struct Sys { void operator()( const double &x , double &d , double t ) const { d = f( x , t ); ++g_evals; } };
// the initialising stepper: any one-step method (contract: gets the derivative of the state it starts from)
static double g_y , g_yt , g_ydt; static long g_inits;
struct Init
{
    template< class S > void do_step_dxdt_impl( S , double &x , const double &d , double t , double dt ) { do_step_dxdt_impl( Sys() , x , d , t , x , dt ); }
    template< class S > void do_step_dxdt_impl( S , const double &in , const double &d , double t , double &out , double dt )
    {
        irv_assert( irv_eq( d , f( in , t ) ) , "initialising stepper gets the derivative of its start state" );
        out = irv_uf( "phi" , 3 , in , t , dt ); ++g_inits;
    }
};
static double phi( double x , double t , double dt ) { return irv_uf( "phi" , 3 , x , t , dt ); }
template< size_t S > using AB = adams_bashforth< S , double , double , double , double , vector_space_algebra , default_operations , initially_resizer , Init >;
template< size_t S > using AM = adams_moulton< S , double , double , double , double , vector_space_algebra , default_operations , initially_resizer >;
template< size_t S > using ABM = adams_bashforth_moulton< S , double , double , double , double , vector_space_algebra , default_operations , initially_resizer , Init >;
static double ipow( double b , int e ) { double r = 1; for( int i = 0 ; i < e ; ++i ) r *= b; return r; }
// derivative history = polynomial of degree < n in ( s - t )/dt, arbitrary coefficients
struct Poly { int n; double c[ 9 ]; Poly( int k ) : n( k ) { for( int i = 0 ; i < n ; ++i ) c[ i ] = irv_real( "c" ); }
    double at( double j ) const { double r = 0; for( int m = 0 ; m < n ; ++m ) r += c[ m ] * ipow( j , m ); return r; }
    double integral() const { double r = 0; for( int m = 0 ; m < n ; ++m ) r += c[ m ] / ( m + 1 ); return r; } };
// Adams-Bashforth value and weights as a function of any history, determined by polynomial exactness:
// the weights of the code are read off its linear dependence on the history below
template< size_t S > static void ab_exact( int rot )
{
    AB< S > st; double x = irv_real( "x" ) , t = irv_real( "t" ) , dt = irv_real( "dt" ) , out = irv_real( "old out" );
    Poly p( S ); double tt = irv_real( "t init" ) , xx = irv_real( "x init" );
    st.initialize( Init() , Sys() , xx , tt , dt );
    for( int r = 0 ; r < rot ; ++r ) st.step_storage().rotate();          // the buffer may start anywhere
    for( size_t j = 0 ; j + 1 < S ; ++j ) st.step_storage()[ j ].m_v = p.at( -(double) ( j + 1 ) );
    irv_assume( irv_eq( f( x , t ) , p.at( 0 ) ) );
    g_evals = 0; double x0 = x;
    st.do_step( Sys() , x , t , out , dt );
    irv_assert( irv_eq( out , x0 + dt * p.integral() ) , "polynomial derivative of degree below the step count is integrated exactly" );
    irv_assert( irv_same( x , x0 ) & ( g_evals == 1 ) , "input untouched, one evaluation" );
    irv_cover( "end" );
}
// any history: linear combination (weights by probing the formula with unit histories), history shifted by one, all overloads alike
template< size_t S > static void ab_history( int rot , int ov )
{
    AB< S > st; double x = irv_real( "x" ) , t = irv_real( "t" ) , dt = irv_real( "dt" ) , out = irv_real( "old out" );
    double h[ 8 ]; double tt = irv_real( "t init" ) , xx = irv_real( "x init" );
    st.initialize( Sys() , xx , tt , dt );
    for( int r = 0 ; r < rot ; ++r ) st.step_storage().rotate();
    for( size_t j = 0 ; j + 1 < S ; ++j ) { h[ j ] = irv_real( "h" ); st.step_storage()[ j ].m_v = h[ j ]; }
    AB< S > ref; double xr = xx , tr = tt; ref.initialize( Sys() , xr , tr , dt );
    for( size_t j = 0 ; j + 1 < S ; ++j ) ref.step_storage()[ j ].m_v = h[ j ];
    double oref = irv_real( "o" ); ref.do_step( Sys() , x , t , oref , dt );
    double x0 = x;
    if( ov == 0 ) { st.do_step( Sys() , x , t , out , dt ); irv_assert( irv_same( x , x0 ) , "input untouched" ); }
    else { st.do_step( Sys() , x , t , dt ); out = x; }
    irv_assert( irv_eq( out , oref ) , "result does not depend on the position in the ring buffer nor on the overload" );
    irv_assert( irv_eq( st.step_storage()[ 0 ].m_v , f( x0 , t ) ) , "newest history entry is the derivative at the start of the step" );
    for( size_t j = 1 ; j < S ; ++j ) irv_assert( irv_same( st.step_storage()[ j ].m_v , h[ j - 1 ] ) , "history is shifted by exactly one" );
    irv_assert( st.is_initialized() , "stays initialised" );
    irv_cover( "end" );
}
// reference implementation of the multistep update from the newest-first history
template< size_t S > static double ab_ref( double x , double t , double dt , const double *h )
{
    AB< S > st; double xx = 0 , tt = 0; st.initialize( Sys() , xx , tt , dt );
    for( size_t j = 0 ; j + 1 < S ; ++j ) st.step_storage()[ j ].m_v = h[ j ];
    double out = 0; st.do_step( Sys() , x , t , out , dt ); return out;
}
// filling of the history, by the stepper itself or by initialize(), after any rotation and after reset
template< size_t S > static void ab_start( int how )
{
    AB< S > st; double x = irv_real( "x" ) , t = irv_real( "t" ) , dt = irv_real( "dt" );
    irv_assert( st.is_initialized() == ( S == 1 ) , "a new stepper has no history" );
    if( how >= 2 )
    {   // use it first, then reset or initialise again
        double y = irv_real( "y" ) , s = irv_real( "s" ); int k = irv_choose( "steps before" , 2 * (int) S + 1 );
        for( int i = 0 ; i < k ; ++i ) { st.do_step( Sys() , y , s , dt ); s += dt; }
    }
    if( how == 2 ) { st.reset(); irv_assert( st.is_initialized() == ( S == 1 ) , "reset discards the history" ); }
    double h[ 9 ] = {}; double xs = x , ts = t;
    g_inits = 0;
    double xi = x , ti = t; 
    if( how == 1 || how == 3 )
    {
        st.initialize( Sys() , xi , ti , dt );
        irv_assert( irv_eq( ti , t + ( (double) S - 1 ) * dt ) , "initialize advances the time by step count - 1 steps" );
        irv_assert( st.is_initialized() , "initialised" );
    }
    for( size_t i = 0 ; i + 1 < S ; ++i )
    {
        double d = f( xs , ts );
        for( size_t j = i ; j > 0 ; --j ) h[ j ] = h[ j - 1 ];
        h[ 0 ] = d;
        double xn = phi( xs , ts , dt );
        if( how == 0 || how == 2 ) { double o = irv_real( "o" ); if( i % 2 ) { o = xs; st.do_step( Sys() , o , ts , dt ); } else st.do_step( Sys() , xs , ts , o , dt ); irv_assert( irv_eq( o , xn ) , "initial steps are made by the initialising stepper" ); }
        xs = xn; ts += dt;
    }
    irv_assert( g_inits == (long) S - 1 , "exactly step count - 1 initial steps" );
    irv_assert( st.is_initialized() , "initialised after step count - 1 steps" );
    if( how == 1 || how == 3 ) irv_assert( irv_eq( xi , xs ) , "initialize advances the state by the initialising stepper" );
    for( size_t j = 0 ; j + 1 < S ; ++j ) irv_assert( irv_eq( st.step_storage()[ j ].m_v , h[ j ] ) , "history holds the derivatives in time order, newest first" );
    double want = ab_ref< S >( xs , ts , dt , h ) , out = irv_real( "out" );
    g_inits = 0; st.do_step( Sys() , xs , ts , out , dt );
    irv_assert( irv_eq( out , want ) , "the next step is the multistep formula on that history" );
    irv_assert( g_inits == 0 , "no further initial steps" );
    irv_cover( "end" );
}
template< size_t S > struct Buf { double v[ S ]; struct E { double m_v; }; E e[ S ]; const E& operator[]( size_t i ) const { return e[ i ]; } E& operator[]( size_t i ) { return e[ i ]; } };
// corrector with S weights: derivative at the new point and S-1 history values
template< size_t S > static void am_exact( int ov )
{
    AM< S > st; double x = irv_real( "x" ) , pred = irv_real( "pred" ) , t = irv_real( "t" ) , dt = irv_real( "dt" ) , out = irv_real( "out" ) , x0 = x;
    Poly p( S ); Buf< S > b; for( size_t j = 0 ; j < S ; ++j ) b[ j ].m_v = irv_real( "unused" );
    for( size_t j = 0 ; j + 1 < S ; ++j ) b[ j ].m_v = p.at( -(double) j );
    irv_assume( irv_eq( f( pred , t ) , p.at( 1 ) ) );
    g_evals = 0;
    if( ov == 0 ) { st.do_step( Sys() , x , pred , t , out , dt , b ); irv_assert( irv_same( x , x0 ) , "input untouched" ); }
    else { st.do_step( Sys() , x , pred , t , dt , b ); out = x; }
    irv_assert( irv_eq( out , x0 + dt * p.integral() ) , "corrector integrates polynomials of degree below the number of weights exactly" );
    irv_assert( g_evals == 1 , "one evaluation at the predicted state" );
    irv_cover( "end" );
}
template< size_t S > static void abm( int ov )
{
    ABM< S > st; double x = irv_real( "x" ) , t = irv_real( "t" ) , dt = irv_real( "dt" ) , out = irv_real( "out" );
    double xs = x , ts = t; int mode = irv_choose( "mode" , 3 );
    if( mode == 1 ) { double xi = x , ti = t; st.initialize( Sys() , xi , ti , dt ); }
    if( mode == 2 ) { double y = irv_real( "y" ) , s = irv_real( "s" ); for( size_t i = 0 ; i < S + 1 ; ++i ) { st.do_step( Sys() , y , s , dt ); s += dt; } st.reset(); }
    double h[ 9 ] = {};
    for( size_t i = 0 ; i + 1 < S ; ++i )
    {
        for( size_t j = i ; j > 0 ; --j ) h[ j ] = h[ j - 1 ];
        h[ 0 ] = f( xs , ts );
        double xn = phi( xs , ts , dt );
        if( mode != 1 ) { double o = xs; if( ov ) st.do_step( Sys() , o , ts , dt ); else st.do_step( Sys() , xs , ts , o , dt ); irv_assert( irv_eq( o , xn ) , "initial steps are made by the initialising stepper" ); }
        xs = xn; ts += dt;
    }
    // two predictor-corrector steps: the history of the second one contains the derivative at the start of the first
    for( int k = 0 ; k < 2 ; ++k )
    {
        double pred = ab_ref< S >( xs , ts , dt , h );
        Buf< S > b; b[ 0 ].m_v = f( xs , ts ); for( size_t j = 1 ; j < S ; ++j ) b[ j ].m_v = h[ j - 1 ];
        AM< S > am; double want = irv_real( "w" ); am.do_step( Sys() , xs , pred , ts + dt , want , dt , b );
        double x0 = xs; g_evals = 0;
        if( ov ) { double o = xs; st.do_step( Sys() , o , ts , dt ); out = o; } else { st.do_step( Sys() , xs , ts , out , dt ); irv_assert( irv_same( xs , x0 ) , "input untouched" ); }
        irv_assert( irv_eq( out , want ) , "prediction, evaluation at the end of the step, correction" );
        irv_assert( g_evals == 2 , "two evaluations per step" );
        for( size_t j = S - 1 ; j > 0 ; --j ) h[ j ] = h[ j - 1 ];
        h[ 0 ] = f( x0 , ts );
        xs = want; ts += dt;
    }
    irv_cover( "end" );
}
// the default initialising steppers, in place and out of place
typedef boost::array< double , 1 > arr1;
struct Sys1 { void operator()( const arr1 &x , arr1 &d , double t ) const { d[ 0 ] = f( x[ 0 ] , t ); } };
template< class ST , class IN > static void default_init( void )
{
    ST a , b; IN e; double t = irv_real( "t" ) , dt = irv_real( "dt" ); arr1 x = {{ irv_real( "x" ) }} , y = x , out = {{ irv_real( "out" ) }} , want = {{ irv_real( "want" ) }};
    e.do_step( Sys1() , x , t , want , dt );
    a.do_step( Sys1() , y , t , dt ); b.do_step( Sys1() , x , t , out , dt );
    irv_assert( irv_eq( y[ 0 ] , want[ 0 ] ) , "in-place start is a step of the default initialising stepper" );
    irv_assert( irv_eq( out[ 0 ] , want[ 0 ] ) , "out-of-place start is a step of the default initialising stepper" );
    irv_cover( "end" );
}
#define D( S ) IRV_HARNESS( C13_default_start_bashforth_##S ) { typedef adams_bashforth< S , arr1 > T; default_init< T , T::initializing_stepper_type >(); } \
IRV_HARNESS( C13_default_start_pc_##S ) { typedef adams_bashforth_moulton< S , arr1 > T; default_init< T , T::initializing_stepper_type >(); }
D( 2 ) D( 3 ) D( 4 ) D( 5 ) D( 6 ) D( 7 ) D( 8 )
#define P( S ) \
IRV_HARNESS( C13_bashforth_weights_##S ) { ab_exact< S >( irv_choose( "buffer position" , S ) ); } \
IRV_HARNESS( C13_bashforth_history_##S ) { ab_history< S >( irv_choose( "buffer position" , S ) , irv_choose( "overload" , 2 ) ); } \
IRV_HARNESS( C13_bashforth_selfstart_##S ) { ab_start< S >( 0 ); } \
IRV_HARNESS( C13_bashforth_initialize_##S ) { ab_start< S >( 1 ); } \
IRV_HARNESS( C13_bashforth_reset_##S ) { ab_start< S >( 2 ); } \
IRV_HARNESS( C13_bashforth_reinitialize_##S ) { ab_start< S >( 3 ); } \
IRV_HARNESS( C13_moulton_weights_##S ) { am_exact< S >( irv_choose( "overload" , 2 ) ); } \
IRV_HARNESS( C13_predictor_corrector_##S ) { abm< S >( irv_choose( "overload" , 2 ) ); }
P( 1 ) P( 2 ) P( 3 ) P( 4 ) P( 5 ) P( 6 ) P( 7 ) P( 8 )
