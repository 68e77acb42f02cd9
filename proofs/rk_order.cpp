// C01, C02: explicit Runge-Kutta steppers
#include <utility>
#include <vector>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include "rk.hpp"
using namespace boost::numeric::odeint;
#define VS double , double , double , double , vector_space_algebra
#define C01( N , T , O ) \
IRV_HARNESS( C01_##N##_vec ) { c01< T< vec > , vec >( O ); } \
IRV_HARNESS( C01_##N##_arr ) { c01< T< arr2 > , arr2 >( O ); } \
IRV_HARNESS( C01_##N##_scalar ) { c01< T< VS > , double >( O ); }
C01( euler , euler , 1 )
C01( rk4 , runge_kutta4 , 4 )
C01( rk4_classic , runge_kutta4_classic , 4 )
C01( cash_karp , runge_kutta_cash_karp54 , 5 )
C01( cash_karp_classic , runge_kutta_cash_karp54_classic , 5 )
C01( fehlberg78 , runge_kutta_fehlberg78 , 8 )
C01( dopri5 , runge_kutta_dopri5 , 5 )
static double q( double a , double b ) { return a / b; }
#define CK { q(2825,27648) , 0 , q(18575,48384) , q(13525,55296) , q(277,14336) , q(1,4) }
#define DP { q(5179,57600) , 0 , q(7571,16695) , q(393,640) , q(-92097,339200) , q(187,2100) , q(1,40) }
#define F7 { q(41,840) , 0 , 0 , 0 , 0 , q(34,105) , q(9,35) , q(9,35) , q(9,280) , q(9,280) , q(41,840) , 0 , 0 }
IRV_HARNESS( C02_cash_karp_vec ) { const double bh[] = CK; c02< runge_kutta_cash_karp54< vec > , vec >( 5 , 4 , bh , 6 ); }
IRV_HARNESS( C02_cash_karp_arr ) { const double bh[] = CK; c02< runge_kutta_cash_karp54< arr2 > , arr2 >( 5 , 4 , bh , 6 ); }
IRV_HARNESS( C02_cash_karp_scalar ) { const double bh[] = CK; c02< runge_kutta_cash_karp54< VS > , double >( 5 , 4 , bh , 6 ); }
IRV_HARNESS( C02_cash_karp_classic_vec ) { const double bh[] = CK; c02< runge_kutta_cash_karp54_classic< vec > , vec >( 5 , 4 , bh , 6 ); }
IRV_HARNESS( C02_cash_karp_classic_arr ) { const double bh[] = CK; c02< runge_kutta_cash_karp54_classic< arr2 > , arr2 >( 5 , 4 , bh , 6 ); }
IRV_HARNESS( C02_cash_karp_classic_scalar ) { const double bh[] = CK; c02< runge_kutta_cash_karp54_classic< VS > , double >( 5 , 4 , bh , 6 ); }
IRV_HARNESS( C02_dopri5_vec ) { const double bh[] = DP; c02< runge_kutta_dopri5< vec > , vec >( 5 , 4 , bh , 7 ); }
IRV_HARNESS( C02_dopri5_arr ) { const double bh[] = DP; c02< runge_kutta_dopri5< arr2 > , arr2 >( 5 , 4 , bh , 7 ); }
IRV_HARNESS( C02_dopri5_scalar ) { const double bh[] = DP; c02< runge_kutta_dopri5< VS > , double >( 5 , 4 , bh , 7 ); }
IRV_HARNESS( C02_fehlberg78_vec ) { const double bh[] = F7; c02< runge_kutta_fehlberg78< vec > , vec >( 8 , 7 , bh , 13 ); }
IRV_HARNESS( C02_fehlberg78_arr ) { const double bh[] = F7; c02< runge_kutta_fehlberg78< arr2 > , arr2 >( 8 , 7 , bh , 13 ); }
IRV_HARNESS( C02_fehlberg78_scalar ) { const double bh[] = F7; c02< runge_kutta_fehlberg78< VS > , double >( 8 , 7 , bh , 13 ); }
