// C01, C02: the generic Runge-Kutta steppers with an arbitrary tableau; modified midpoint with an arbitrary number of substeps
#include <utility>
#include <vector>
#include <boost/fusion/container/vector.hpp>
#include <boost/fusion/include/make_vector.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/stepper/explicit_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include "rk.hpp"
using namespace boost::numeric::odeint;
static double g_a[16][16] , g_b[16] , g_c[16] , g_b2[16];
template< size_t N > static boost::array< double , N > fresh_array( double *d ) { boost::array< double , N > r; for( size_t i = 0 ; i < N ; ++i ) { r[i] = irv_real( "coef" ); d[i] = r[i]; } return r; }
template< class A , size_t S , size_t I > struct fill { static void go( A &a ) { const_cast< boost::array< double , I >& >( boost::fusion::at_c< I - 1 >( a ) ) = fresh_array< I >( g_a[I] ); fill< A , S , I + 1 >::go( a ); } };
template< class A , size_t S > struct fill< A , S , S > { static void go( A& ) {} };
template< size_t S , class X > static void check( const X &x0 , const X &x , double t , double dt , const X *e )
{
    irv_assert( r_n == (int) S , "one evaluation per stage" );
    bool stages = true , times = true , res = true , err = true;
    for( size_t i = 0 ; i < S ; ++i )
    {
        times = times & irv_eq( r_T[i] , i == 0 ? t : t + g_c[i] * dt );
        for( int c = 0 ; c < St< X >::D ; ++c ) { double w = 0; for( size_t j = 0 ; j < i ; ++j ) w += g_a[i][j] * r_K[j][c]; stages = stages & irv_eq( r_X[i][c] , St< X >::at( x0 , c ) + dt * w ); }
    }
    for( int c = 0 ; c < St< X >::D ; ++c )
    {
        double w = 0 , v = 0; for( size_t j = 0 ; j < S ; ++j ) { w += g_b[j] * r_K[j][c]; v += g_b2[j] * r_K[j][c]; }
        res = res & irv_eq( St< X >::at( x , c ) , St< X >::at( x0 , c ) + dt * w );
        if( e ) err = err & irv_eq( St< X >::at( *e , c ) , dt * v );
    }
    irv_assert( stages , "stage arguments follow the supplied a" );
    irv_assert( times , "stage times follow the supplied c" );
    irv_assert( res , "result follows the supplied b" );
    if( e ) irv_assert( err , "error estimate follows the supplied error weights" );
    irv_cover( "end" );
}
template< size_t S , class X , class Stepper > static void generic()
{
    typename Stepper::coef_a_type a = typename Stepper::coef_a_type(); fill< typename Stepper::coef_a_type , S , 1 >::go( a );
    boost::array< double , S > b = fresh_array< S >( g_b ) , c = fresh_array< S >( g_c );
    Stepper st( a , b , c );
    X x = St< X >::make(); fresh_state( x , "x" ); X x0 = x; double t = irv_real( "t" ) , dt = irv_real( "dt" );
    r_sym = true; r_n = 0; st.do_step( RecSys() , x , t , dt );
    check< S , X >( x0 , x , t , dt , (const X*) 0 );
}
template< size_t S , class X , class Stepper > static void generic_err( bool with )
{
    typename Stepper::coef_a_type a = typename Stepper::coef_a_type(); fill< typename Stepper::coef_a_type , S , 1 >::go( a );
    boost::array< double , S > b = fresh_array< S >( g_b ) , b2 = fresh_array< S >( g_b2 ) , c = fresh_array< S >( g_c );
    Stepper st( a , b , b2 , c );
    X x = St< X >::make() , e = St< X >::make(); fresh_state( x , "x" ); fresh_state( e , "old err" ); X x0 = x; double t = irv_real( "t" ) , dt = irv_real( "dt" );
    r_sym = true; r_n = 0; if( with ) st.do_step( RecSys() , x , t , dt , e ); else st.do_step( RecSys() , x , t , dt );
    check< S , X >( x0 , x , t , dt , with ? (const X*) &e : (const X*) 0 );
}
#define VSG double , double , double , double , vector_space_algebra
#define G( S ) \
IRV_HARNESS( C01_generic##S##_vec ) { generic< S , vec , explicit_generic_rk< S , S , vec > >(); } \
IRV_HARNESS( C01_generic##S##_arr ) { generic< S , arr2 , explicit_generic_rk< S , S , arr2 > >(); } \
IRV_HARNESS( C01_generic##S##_scalar ) { generic< S , double , explicit_generic_rk< S , S , VSG > >(); }
#define GE( S ) \
IRV_HARNESS( C01_generic_error##S##_vec ) { generic_err< S , vec , explicit_error_generic_rk< S , S , S , S , vec > >( false ); } \
IRV_HARNESS( C02_generic_error##S##_vec ) { generic_err< S , vec , explicit_error_generic_rk< S , S , S , S , vec > >( true ); } \
IRV_HARNESS( C02_generic_error##S##_arr ) { generic_err< S , arr2 , explicit_error_generic_rk< S , S , S , S , arr2 > >( true ); } \
IRV_HARNESS( C02_generic_error##S##_scalar ) { generic_err< S , double , explicit_error_generic_rk< S , S , S , S , VSG > >( true ); }
G( 13 )
G( 2 )
G( 3 )
G( 4 )
G( 5 )
G( 6 )
G( 7 )
G( 8 )
G( 9 )
G( 10 )
G( 11 )
G( 12 )
GE( 2 )
GE( 3 )
GE( 4 )
GE( 5 )
GE( 6 )
GE( 13 )
// modified midpoint: z_0 = x , z_1 = x + h k_0 , z_{i+1} = z_{i-1} + 2h k_i ; result ( z_n + z_{n-1} + h k_n ) / 2
static double m_zm , m_z , m_h , m_t , m_k; static long m_i;
struct MidSys
{
    void operator()( const double &x , double &d , double t ) const
    {
        irv_assert( irv_eq( x , m_z ) , "midpoint evaluates the recurrence" );
        irv_assert( irv_eq( t , m_t + m_i * m_h ) , "midpoint stage times" );
        d = irv_real( "k" ); m_k = d;
        double zn = m_i == 0 ? m_z + m_h * d : m_zm + 2 * m_h * d;
        m_zm = m_z; m_z = zn; m_i++;
    }
    void operator()( const vec &x , vec &d , double t ) const { (*this)( x[0] , d[0] , t ); d[1] = d[0]; }
};
extern "C" bool irv_inv_zm( double a ) { return irv_eq( a , m_zm ); }
extern "C" bool irv_inv_k( double a ) { return irv_eq( a , m_k ); }
extern "C" bool irv_inv_z( double a ) { return irv_eq( a , m_z ); }
extern "C" bool irv_inv_znext( void ) { return irv_eq( m_z , 0 ) | true; }
extern "C" bool irv_inv_th( double a ) { return irv_eq( a , m_t + ( m_i - 1 ) * m_h ); }
extern "C" bool irv_inv_zz( double a ) { return irv_eq( m_z , a + 2 * m_h * m_k ); }
template< class S , class X > static void midpoint()
{
    X x = St< X >::make(); double x0 = irv_real( "x" ); for( int c = 0 ; c < St< X >::D ; ++c ) St< X >::at( x , c ) = x0;
    double dt = irv_real( "dt" ); long n = irv_nat( "n" , 2 , 9 ); irv_assume( n <= 65535 );
    m_t = irv_real( "t" ); m_h = dt / n; m_z = x0; m_zm = x0; m_i = 0;
    S st( (unsigned short) n );
    irv_assert( (long) st.steps() == n , "number of substeps" );
    st.do_step( MidSys() , x , m_t , dt );
    irv_assert( m_i == n + 1 , "n+1 evaluations" );
    // after n evaluations at z_1..z_n : m_zm = z_n , z_{n-1} = z_{n+1} - 2h k_n
    double znm1 = m_z - 2 * m_h * m_k;
    irv_assert( irv_eq( St< X >::at( x , 0 ) , ( m_zm + znm1 + m_h * m_k ) / 2 ) , "smoothed midpoint result" );
    irv_cover( "end" );
}
IRV_HARNESS( C01_midpoint_scalar ) { midpoint< modified_midpoint< double , double , double , double , vector_space_algebra > , double >(); }
IRV_HARNESS( C01_midpoint_vec ) { midpoint< modified_midpoint< vec > , vec >(); }
