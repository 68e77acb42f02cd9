// C01 / C02: the tableau an explicit Runge-Kutta step realises
#include "states.hpp"
#include "trees.hpp"
static int r_n; static double r_X[MAXS][2] , r_T[MAXS] , r_K[MAXS][2]; static bool r_sym;
struct RecSys
{
    template< class S > void operator()( const S &x , S &d , double t ) const
    {
        irv_assert( r_n < MAXS , "stage count" );
        r_T[r_n] = t;
        for( int c = 0 ; c < St< S >::D ; ++c ) { r_X[r_n][c] = St< S >::at( x , c ); if( r_sym ) r_K[r_n][c] = irv_real( "k" ); St< S >::at( d , c ) = r_K[r_n][c]; }
        r_n++;
    }
};
// one step by the overload under proof; xerr only written by error overloads
struct NoErr { static const bool err = false; template< class T , class S > static void step( T &st , S &x , double t , double dt , S & ) { st.do_step( RecSys() , x , t , dt ); } };
struct WithErr { static const bool err = true; template< class T , class S > static void step( T &st , S &x , double t , double dt , S &e ) { st.do_step( RecSys() , x , t , dt , e ); } };
template< class How , class Stepper , class S > static void realise( Tableau &tb )
{
    // symbolic run
    double dt = irv_real( "dt" ) , t = irv_real( "t" );
    S x = St< S >::make() , e = St< S >::make(); fresh_state( x , "x" ); fresh_state( e , "old err" );
    S x0 = x; double X[MAXS][2] , T[MAXS] , K[MAXS][2];
    Stepper st; r_sym = true; r_n = 0; How::step( st , x , t , dt , e );
    int s = r_n; tb.s = s;
    for( int i = 0 ; i < s ; ++i ) { T[i] = r_T[i]; for( int c = 0 ; c < St< S >::D ; ++c ) { X[i][c] = r_X[i][c]; K[i][c] = r_K[i][c]; } }
    // basis runs: stage derivative j = 1, all others 0
    r_sym = false;
    for( int j = 0 ; j < s ; ++j )
    {
        Stepper st; S y = St< S >::make() , ye = St< S >::make(); St< S >::at( ye , 0 ) = 77;
        for( int i = 0 ; i < MAXS ; ++i ) for( int c = 0 ; c < 2 ; ++c ) r_K[i][c] = i == j ? 1.0 : 0.0;
        r_n = 0; How::step( st , y , 0.0 , 1.0 , ye );
        irv_assert( r_n == s , "number of stages does not depend on the values" );
        for( int i = 0 ; i < s ; ++i ) tb.A[i][j] = r_X[i][0];
        tb.b[j] = St< S >::at( y , 0 ); tb.e[j] = How::err ? St< S >::at( ye , 0 ) : 0.0;
    }
    bool stages = true , times = true , res = true , err = true;
    for( int i = 0 ; i < s ; ++i )
    {
        double ci = 0; for( int j = 0 ; j < i ; ++j ) ci += tb.A[i][j];
        times = times & irv_eq( T[i] , t + ci * dt );
        for( int c = 0 ; c < St< S >::D ; ++c ) { double w = 0; for( int j = 0 ; j < i ; ++j ) w += tb.A[i][j] * K[j][c]; stages = stages & irv_eq( X[i][c] , St< S >::at( x0 , c ) + dt * w ); }
    }
    for( int c = 0 ; c < St< S >::D ; ++c )
    {
        double w = 0 , v = 0; for( int j = 0 ; j < s ; ++j ) { w += tb.b[j] * K[j][c]; v += tb.e[j] * K[j][c]; }
        res = res & irv_eq( St< S >::at( x , c ) , St< S >::at( x0 , c ) + dt * w );
        if( How::err ) err = err & irv_eq( St< S >::at( e , c ) , dt * v );
    }
    irv_assert( stages , "stage arguments are x + dt*sum a_ij k_j" );
    irv_assert( times , "stage times are t + dt*sum a_ij" );
    irv_assert( res , "result is x + dt*sum b_i k_i" );
    if( How::err ) irv_assert( err , "error estimate is dt*sum e_i k_i" );
}
template< class Stepper , class S > static void c01( int order )
{
    Tableau tb; realise< NoErr , Stepper , S >( tb );
    Stepper st;
    irv_assert( (int) st.order() == order , "advertised order" );
    tree_weights( tb , order );
    irv_assert( order_holds( tb , tb.b , order ) , "all order conditions up to the advertised order" );
    irv_cover( "end" );
}
static bool is_diff( const Tableau &tb , const double *bh , int n )
{
    bool p = true;
    for( int i = 0 ; i < tb.s ; ++i ) { double h = i < n ? bh[i] : 0.0; p = p & irv_eq( tb.e[i] , tb.b[i] - h ); }
    return p;
}
template< class Stepper , class S > static void c02( int order , int eorder , const double *bh , int n )
{
    Tableau tb; realise< WithErr , Stepper , S >( tb );
    Stepper st;
    irv_assert( (int) st.stepper_order() == order , "advertised stepper order" );
    irv_assert( (int) st.error_order() == eorder , "advertised error order" );
    tree_weights( tb , order );
    irv_assert( order_holds( tb , tb.b , order ) , "result with error estimate has the advertised order" );
    double low[MAXS]; for( int i = 0 ; i < tb.s ; ++i ) low[i] = tb.b[i] - tb.e[i];
    irv_assert( order_holds( tb , low , eorder ) , "comparison formula has the advertised error order" );
    irv_assert( !order_holds( tb , low , eorder + 1 , eorder + 1 ) , "comparison formula does not have a higher order" );
    irv_assert( is_diff( tb , bh , n ) , "error weights are solution minus published embedded formula" );
    // asking for the error changes nothing
    Tableau t2; realise< NoErr , Stepper , S >( t2 );
    bool same = t2.s == tb.s; for( int i = 0 ; i < tb.s ; ++i ) { same = same & irv_eq( tb.b[i] , t2.b[i] ); for( int j = 0 ; j < i ; ++j ) same = same & irv_eq( tb.A[i][j] , t2.A[i][j] ); }
    irv_assert( same , "same stages and result with and without error estimate" );
    irv_cover( "end" );
}
