// state types used by the stepper proofs and uniform access to their components
#ifndef STATES_HPP
#define STATES_HPP
#include <utility>
#include <vector>
#include <boost/array.hpp>
#include "irv.h"
template< class S > struct St;
template<> struct St< double > { static const int D = 1; static double make() { return 0; } static double& at( double &x , int ) { return x; } static const double& at( const double &x , int ) { return x; } };
template<> struct St< std::vector< double > > { static const int D = 2; static std::vector< double > make() { return std::vector< double >( 2 ); } static double& at( std::vector< double > &x , int i ) { return x[i]; } static const double& at( const std::vector< double > &x , int i ) { return x[i]; } };
template<> struct St< boost::array< double , 2 > > { typedef boost::array< double , 2 > A; static const int D = 2; static A make() { A a; a[0] = a[1] = 0; return a; } static double& at( A &x , int i ) { return x[i]; } static const double& at( const A &x , int i ) { return x[i]; } };
typedef std::vector< double > vec;
typedef boost::array< double , 2 > arr2;
template< class S > static void fresh_state( S &x , const char *n ) { for( int c = 0 ; c < St< S >::D ; ++c ) St< S >::at( x , c ) = irv_real( n ); }
template< class S > static bool state_eq( const S &a , const S &b ) { bool r = true; for( int c = 0 ; c < St< S >::D ; ++c ) r = r & irv_eq( St< S >::at( a , c ) , St< S >::at( b , c ) ); return r; }
// a system given only by its values: an uninterpreted function of state and time
struct UfSys
{
    void operator()( const double &x , double &d , double t ) const { d = irv_uf( "f" , 2 , x , t ); }
    template< class S , class D > void operator()( const S &x , D &d , double t ) const { d[0] = irv_uf( "f0" , 3 , x[0] , x[1] , t ); d[1] = irv_uf( "f1" , 3 , x[0] , x[1] , t ); }
};
typedef std::pair< double* , double* > dview;
struct UfRangeSys   // also accepts views of a state
{
    template< class S , class D > void operator()( const S &x , D &d , double t ) const { UfSys()( x , d , t ); }
    template< class D > void operator()( const dview &x , D &d , double t ) const { UfSys()( x.first , d , t ); }
};
template< class S > static S uf_deriv( const S &x , double t ) { S d = St< S >::make(); UfSys()( x , d , t ); return d; }
#endif
