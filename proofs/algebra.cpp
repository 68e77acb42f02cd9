// C19: algebras and operations.  Written by tools/gen_algebra.py.
#include <utility>
#include <vector>
#include <boost/array.hpp>
#include <boost/fusion/container/vector.hpp>
#include <boost/fusion/include/at_c.hpp>
#include <boost/fusion/include/is_sequence.hpp>
#include <boost/fusion/include/size.hpp>
#include <boost/numeric/odeint/util/unit_helper.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#include <boost/range/iterator_range.hpp>
#include "irv.h"
using namespace boost::numeric::odeint;
static double dabs( double x ) { return __builtin_fabs( x ); }
// contiguous storage of any length with arbitrary contents
static double* mem( long n ) { double *p = new double[ n ]; if( irv_native() ) for( long i = 0 ; i < n ; ++i ) p[i] = irv_real( "element" ); return p; }
struct Rng { typedef double value_type; typedef double* iterator; typedef const double* const_iterator; double *p; long n; iterator begin() { return p; } iterator end() { return p + n; } const_iterator begin() const { return p; } const_iterator end() const { return p + n; } };
struct Multi { typedef double value_type; typedef double element; double *p; long n; double* data() { return p; } const double* data() const { return p; } long num_elements() const { return n; } };

struct Op1 { typedef void result_type; void operator()( double &t1 ) const { t1 = irv_uf( "op" , 1 , t1 ); } };
struct Op2 { typedef void result_type; void operator()( double &t1 , const double &t2 ) const { t1 = irv_uf( "op" , 2 , t1 , t2 ); } };
struct Op3 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 ) const { t1 = irv_uf( "op" , 3 , t1 , t2 , t3 ); } };
struct Op4 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 , const double &t4 ) const { t1 = irv_uf( "op" , 4 , t1 , t2 , t3 , t4 ); } };
struct Op5 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 , const double &t4 , const double &t5 ) const { t1 = irv_uf( "op" , 5 , t1 , t2 , t3 , t4 , t5 ); } };
struct Op6 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 , const double &t4 , const double &t5 , const double &t6 ) const { t1 = irv_uf( "op" , 6 , t1 , t2 , t3 , t4 , t5 , t6 ); } };
struct Op7 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 , const double &t4 , const double &t5 , const double &t6 , const double &t7 ) const { t1 = irv_uf( "op" , 7 , t1 , t2 , t3 , t4 , t5 , t6 , t7 ); } };
struct Op8 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 , const double &t4 , const double &t5 , const double &t6 , const double &t7 , const double &t8 ) const { t1 = irv_uf( "op" , 8 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 ); } };
struct Op9 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 , const double &t4 , const double &t5 , const double &t6 , const double &t7 , const double &t8 , const double &t9 ) const { t1 = irv_uf( "op" , 9 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 ); } };
struct Op10 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 , const double &t4 , const double &t5 , const double &t6 , const double &t7 , const double &t8 , const double &t9 , const double &t10 ) const { t1 = irv_uf( "op" , 10 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 ); } };
struct Op11 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 , const double &t4 , const double &t5 , const double &t6 , const double &t7 , const double &t8 , const double &t9 , const double &t10 , const double &t11 ) const { t1 = irv_uf( "op" , 11 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); } };
struct Op12 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 , const double &t4 , const double &t5 , const double &t6 , const double &t7 , const double &t8 , const double &t9 , const double &t10 , const double &t11 , const double &t12 ) const { t1 = irv_uf( "op" , 12 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); } };
struct Op13 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 , const double &t4 , const double &t5 , const double &t6 , const double &t7 , const double &t8 , const double &t9 , const double &t10 , const double &t11 , const double &t12 , const double &t13 ) const { t1 = irv_uf( "op" , 13 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); } };
struct Op14 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 , const double &t4 , const double &t5 , const double &t6 , const double &t7 , const double &t8 , const double &t9 , const double &t10 , const double &t11 , const double &t12 , const double &t13 , const double &t14 ) const { t1 = irv_uf( "op" , 14 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); } };
struct Op15 { typedef void result_type; void operator()( double &t1 , const double &t2 , const double &t3 , const double &t4 , const double &t5 , const double &t6 , const double &t7 , const double &t8 , const double &t9 , const double &t10 , const double &t11 , const double &t12 , const double &t13 , const double &t14 , const double &t15 ) const { t1 = irv_uf( "op" , 15 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 , t15 ); } };
static long g_n , g_i; static double *g_p;
extern "C" bool irv_inv_bound( double a , long k ) { if( ( g_i >= g_n ) | ( k <= g_i ) ) return a >= 0; return ( a >= 0 ) & ( a >= dabs( g_p[ g_i ] ) ); }
extern "C" bool irv_inv_nonneg( double a ) { return a >= 0; }
// an abstract sequence: element k is an arbitrary number; the ghost variable holds the largest absolute value read so far
static double g_max; static long g_pos;
struct It
{
    typedef std::forward_iterator_tag iterator_category; typedef double value_type; typedef long difference_type; typedef const double* pointer; typedef double reference;
    long pos;
    double operator*() const { irv_assert( ( pos >= 0 ) & ( pos < g_n ) , "no element outside the sequence is read" ); double v = irv_uf( "seq" , 1 , (double) pos ); double a = dabs( v ); g_max = g_max < a ? a : g_max; return v; }
    It& operator++() { ++pos; return *this; } It operator++( int ) { It r = *this; ++pos; return r; }
    bool operator==( const It &o ) const { return pos == o.pos; } bool operator!=( const It &o ) const { return pos != o.pos; }
};
extern "C" bool irv_inv_max( double a ) { return irv_eq( a , g_max ); }
IRV_HARNESS( C19_range_norm )
{
    g_n = irv_nat( "n" , 0 , 6 ); g_max = 0; g_i = 0; It b = { 0 } , e = { g_n };
    double r = range_algebra::norm_inf( boost::iterator_range< It >( b , e ) );
    irv_assert( irv_eq( r , g_max ) , "norm is the largest absolute value over all elements" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each1 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    if( n == 0 ) { range_algebra::for_each1( s1 , Op1() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i];
    range_algebra::for_each1( s1 , Op1() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 1 , o1 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each2 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    if( n == 0 ) { range_algebra::for_each2( s1 , s2 , Op2() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i];
    range_algebra::for_each2( s1 , s2 , Op2() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 2 , o1 , o2 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each3 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    if( n == 0 ) { range_algebra::for_each3( s1 , s2 , s3 , Op3() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i];
    range_algebra::for_each3( s1 , s2 , s3 , Op3() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 3 , o1 , o2 , o3 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each4 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    Rng s4; s4.p = mem( n ); s4.n = n;
    if( n == 0 ) { range_algebra::for_each4( s1 , s2 , s3 , s4 , Op4() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i];
    range_algebra::for_each4( s1 , s2 , s3 , s4 , Op4() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 4 , o1 , o2 , o3 , o4 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each5 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    Rng s4; s4.p = mem( n ); s4.n = n;
    Rng s5; s5.p = mem( n ); s5.n = n;
    if( n == 0 ) { range_algebra::for_each5( s1 , s2 , s3 , s4 , s5 , Op5() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i];
    range_algebra::for_each5( s1 , s2 , s3 , s4 , s5 , Op5() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 5 , o1 , o2 , o3 , o4 , o5 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each6 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    Rng s4; s4.p = mem( n ); s4.n = n;
    Rng s5; s5.p = mem( n ); s5.n = n;
    Rng s6; s6.p = mem( n ); s6.n = n;
    if( n == 0 ) { range_algebra::for_each6( s1 , s2 , s3 , s4 , s5 , s6 , Op6() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i];
    range_algebra::for_each6( s1 , s2 , s3 , s4 , s5 , s6 , Op6() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 6 , o1 , o2 , o3 , o4 , o5 , o6 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each7 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    Rng s4; s4.p = mem( n ); s4.n = n;
    Rng s5; s5.p = mem( n ); s5.n = n;
    Rng s6; s6.p = mem( n ); s6.n = n;
    Rng s7; s7.p = mem( n ); s7.n = n;
    if( n == 0 ) { range_algebra::for_each7( s1 , s2 , s3 , s4 , s5 , s6 , s7 , Op7() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i];
    range_algebra::for_each7( s1 , s2 , s3 , s4 , s5 , s6 , s7 , Op7() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 7 , o1 , o2 , o3 , o4 , o5 , o6 , o7 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each8 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    Rng s4; s4.p = mem( n ); s4.n = n;
    Rng s5; s5.p = mem( n ); s5.n = n;
    Rng s6; s6.p = mem( n ); s6.n = n;
    Rng s7; s7.p = mem( n ); s7.n = n;
    Rng s8; s8.p = mem( n ); s8.n = n;
    if( n == 0 ) { range_algebra::for_each8( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , Op8() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i];
    range_algebra::for_each8( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , Op8() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 8 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each9 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    Rng s4; s4.p = mem( n ); s4.n = n;
    Rng s5; s5.p = mem( n ); s5.n = n;
    Rng s6; s6.p = mem( n ); s6.n = n;
    Rng s7; s7.p = mem( n ); s7.n = n;
    Rng s8; s8.p = mem( n ); s8.n = n;
    Rng s9; s9.p = mem( n ); s9.n = n;
    if( n == 0 ) { range_algebra::for_each9( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , Op9() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i];
    range_algebra::for_each9( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , Op9() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 9 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each10 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    Rng s4; s4.p = mem( n ); s4.n = n;
    Rng s5; s5.p = mem( n ); s5.n = n;
    Rng s6; s6.p = mem( n ); s6.n = n;
    Rng s7; s7.p = mem( n ); s7.n = n;
    Rng s8; s8.p = mem( n ); s8.n = n;
    Rng s9; s9.p = mem( n ); s9.n = n;
    Rng s10; s10.p = mem( n ); s10.n = n;
    if( n == 0 ) { range_algebra::for_each10( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , Op10() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i] , o10 = s10.p[i];
    range_algebra::for_each10( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , Op10() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 10 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) & irv_eq( s10.p[i] , o10 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each11 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    Rng s4; s4.p = mem( n ); s4.n = n;
    Rng s5; s5.p = mem( n ); s5.n = n;
    Rng s6; s6.p = mem( n ); s6.n = n;
    Rng s7; s7.p = mem( n ); s7.n = n;
    Rng s8; s8.p = mem( n ); s8.n = n;
    Rng s9; s9.p = mem( n ); s9.n = n;
    Rng s10; s10.p = mem( n ); s10.n = n;
    Rng s11; s11.p = mem( n ); s11.n = n;
    if( n == 0 ) { range_algebra::for_each11( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , Op11() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i] , o10 = s10.p[i] , o11 = s11.p[i];
    range_algebra::for_each11( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , Op11() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 11 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) & irv_eq( s10.p[i] , o10 ) & irv_eq( s11.p[i] , o11 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each12 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    Rng s4; s4.p = mem( n ); s4.n = n;
    Rng s5; s5.p = mem( n ); s5.n = n;
    Rng s6; s6.p = mem( n ); s6.n = n;
    Rng s7; s7.p = mem( n ); s7.n = n;
    Rng s8; s8.p = mem( n ); s8.n = n;
    Rng s9; s9.p = mem( n ); s9.n = n;
    Rng s10; s10.p = mem( n ); s10.n = n;
    Rng s11; s11.p = mem( n ); s11.n = n;
    Rng s12; s12.p = mem( n ); s12.n = n;
    if( n == 0 ) { range_algebra::for_each12( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , Op12() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i] , o10 = s10.p[i] , o11 = s11.p[i] , o12 = s12.p[i];
    range_algebra::for_each12( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , Op12() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 12 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 , o12 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) & irv_eq( s10.p[i] , o10 ) & irv_eq( s11.p[i] , o11 ) & irv_eq( s12.p[i] , o12 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each13 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    Rng s4; s4.p = mem( n ); s4.n = n;
    Rng s5; s5.p = mem( n ); s5.n = n;
    Rng s6; s6.p = mem( n ); s6.n = n;
    Rng s7; s7.p = mem( n ); s7.n = n;
    Rng s8; s8.p = mem( n ); s8.n = n;
    Rng s9; s9.p = mem( n ); s9.n = n;
    Rng s10; s10.p = mem( n ); s10.n = n;
    Rng s11; s11.p = mem( n ); s11.n = n;
    Rng s12; s12.p = mem( n ); s12.n = n;
    Rng s13; s13.p = mem( n ); s13.n = n;
    if( n == 0 ) { range_algebra::for_each13( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , Op13() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i] , o10 = s10.p[i] , o11 = s11.p[i] , o12 = s12.p[i] , o13 = s13.p[i];
    range_algebra::for_each13( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , Op13() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 13 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 , o12 , o13 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) & irv_eq( s10.p[i] , o10 ) & irv_eq( s11.p[i] , o11 ) & irv_eq( s12.p[i] , o12 ) & irv_eq( s13.p[i] , o13 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each14 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    Rng s4; s4.p = mem( n ); s4.n = n;
    Rng s5; s5.p = mem( n ); s5.n = n;
    Rng s6; s6.p = mem( n ); s6.n = n;
    Rng s7; s7.p = mem( n ); s7.n = n;
    Rng s8; s8.p = mem( n ); s8.n = n;
    Rng s9; s9.p = mem( n ); s9.n = n;
    Rng s10; s10.p = mem( n ); s10.n = n;
    Rng s11; s11.p = mem( n ); s11.n = n;
    Rng s12; s12.p = mem( n ); s12.n = n;
    Rng s13; s13.p = mem( n ); s13.n = n;
    Rng s14; s14.p = mem( n ); s14.n = n;
    if( n == 0 ) { range_algebra::for_each14( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , Op14() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i] , o10 = s10.p[i] , o11 = s11.p[i] , o12 = s12.p[i] , o13 = s13.p[i] , o14 = s14.p[i];
    range_algebra::for_each14( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , Op14() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 14 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 , o12 , o13 , o14 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) & irv_eq( s10.p[i] , o10 ) & irv_eq( s11.p[i] , o11 ) & irv_eq( s12.p[i] , o12 ) & irv_eq( s13.p[i] , o13 ) & irv_eq( s14.p[i] , o14 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_for_each15 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Rng s1; s1.p = mem( n ); s1.n = n;
    Rng s2; s2.p = mem( n ); s2.n = n;
    Rng s3; s3.p = mem( n ); s3.n = n;
    Rng s4; s4.p = mem( n ); s4.n = n;
    Rng s5; s5.p = mem( n ); s5.n = n;
    Rng s6; s6.p = mem( n ); s6.n = n;
    Rng s7; s7.p = mem( n ); s7.n = n;
    Rng s8; s8.p = mem( n ); s8.n = n;
    Rng s9; s9.p = mem( n ); s9.n = n;
    Rng s10; s10.p = mem( n ); s10.n = n;
    Rng s11; s11.p = mem( n ); s11.n = n;
    Rng s12; s12.p = mem( n ); s12.n = n;
    Rng s13; s13.p = mem( n ); s13.n = n;
    Rng s14; s14.p = mem( n ); s14.n = n;
    Rng s15; s15.p = mem( n ); s15.n = n;
    if( n == 0 ) { range_algebra::for_each15( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , s15 , Op15() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i] , o10 = s10.p[i] , o11 = s11.p[i] , o12 = s12.p[i] , o13 = s13.p[i] , o14 = s14.p[i] , o15 = s15.p[i];
    range_algebra::for_each15( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , s15 , Op15() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 15 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 , o12 , o13 , o14 , o15 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) & irv_eq( s10.p[i] , o10 ) & irv_eq( s11.p[i] , o11 ) & irv_eq( s12.p[i] , o12 ) & irv_eq( s13.p[i] , o13 ) & irv_eq( s14.p[i] , o14 ) & irv_eq( s15.p[i] , o15 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_alias )
{
    long n = irv_nat( "n" , 1 , 5 ) , i = irv_nat( "i" , 0 , 4 ); irv_assume( i < n );
    Rng a , b; a.p = mem( n ); a.n = n; b.p = mem( n ); b.n = n; const double x = a.p[i] , y = b.p[i];
    range_algebra::for_each3( a , a , b , Op3() ); const double z = irv_uf( "op" , 3 , x , x , y );
    irv_assert( irv_eq( a.p[i] , z ) & irv_eq( b.p[i] , y ) , "output aliasing the second argument" );
    range_algebra::for_each3( a , b , a , Op3() );
    irv_assert( irv_eq( a.p[i] , irv_uf( "op" , 3 , z , y , z ) ) & irv_eq( b.p[i] , y ) , "output aliasing the third argument" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_range_norm_bound )
{
    g_n = irv_nat( "n" , 0 , 5 ); g_i = irv_nat( "i" , 0 , 4 ); Rng s; s.p = g_p = mem( g_n ); s.n = g_n;
    double r = range_algebra::norm_inf( s );
    irv_assert( r >= 0 , "norm is not negative" );
    irv_assert( ( g_n > 0 ) | irv_eq( r , 0.0 ) , "norm of an empty container is zero" );
    if( g_i < g_n ) irv_assert( r >= dabs( g_p[ g_i ] ) , "norm is an upper bound of every element's absolute value" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each1 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    if( n == 0 ) { multi_array_algebra::for_each1( s1 , Op1() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i];
    multi_array_algebra::for_each1( s1 , Op1() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 1 , o1 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each2 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    if( n == 0 ) { multi_array_algebra::for_each2( s1 , s2 , Op2() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i];
    multi_array_algebra::for_each2( s1 , s2 , Op2() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 2 , o1 , o2 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each3 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    if( n == 0 ) { multi_array_algebra::for_each3( s1 , s2 , s3 , Op3() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i];
    multi_array_algebra::for_each3( s1 , s2 , s3 , Op3() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 3 , o1 , o2 , o3 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each4 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    Multi s4; s4.p = mem( n ); s4.n = n;
    if( n == 0 ) { multi_array_algebra::for_each4( s1 , s2 , s3 , s4 , Op4() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i];
    multi_array_algebra::for_each4( s1 , s2 , s3 , s4 , Op4() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 4 , o1 , o2 , o3 , o4 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each5 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    Multi s4; s4.p = mem( n ); s4.n = n;
    Multi s5; s5.p = mem( n ); s5.n = n;
    if( n == 0 ) { multi_array_algebra::for_each5( s1 , s2 , s3 , s4 , s5 , Op5() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i];
    multi_array_algebra::for_each5( s1 , s2 , s3 , s4 , s5 , Op5() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 5 , o1 , o2 , o3 , o4 , o5 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each6 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    Multi s4; s4.p = mem( n ); s4.n = n;
    Multi s5; s5.p = mem( n ); s5.n = n;
    Multi s6; s6.p = mem( n ); s6.n = n;
    if( n == 0 ) { multi_array_algebra::for_each6( s1 , s2 , s3 , s4 , s5 , s6 , Op6() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i];
    multi_array_algebra::for_each6( s1 , s2 , s3 , s4 , s5 , s6 , Op6() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 6 , o1 , o2 , o3 , o4 , o5 , o6 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each7 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    Multi s4; s4.p = mem( n ); s4.n = n;
    Multi s5; s5.p = mem( n ); s5.n = n;
    Multi s6; s6.p = mem( n ); s6.n = n;
    Multi s7; s7.p = mem( n ); s7.n = n;
    if( n == 0 ) { multi_array_algebra::for_each7( s1 , s2 , s3 , s4 , s5 , s6 , s7 , Op7() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i];
    multi_array_algebra::for_each7( s1 , s2 , s3 , s4 , s5 , s6 , s7 , Op7() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 7 , o1 , o2 , o3 , o4 , o5 , o6 , o7 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each8 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    Multi s4; s4.p = mem( n ); s4.n = n;
    Multi s5; s5.p = mem( n ); s5.n = n;
    Multi s6; s6.p = mem( n ); s6.n = n;
    Multi s7; s7.p = mem( n ); s7.n = n;
    Multi s8; s8.p = mem( n ); s8.n = n;
    if( n == 0 ) { multi_array_algebra::for_each8( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , Op8() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i];
    multi_array_algebra::for_each8( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , Op8() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 8 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each9 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    Multi s4; s4.p = mem( n ); s4.n = n;
    Multi s5; s5.p = mem( n ); s5.n = n;
    Multi s6; s6.p = mem( n ); s6.n = n;
    Multi s7; s7.p = mem( n ); s7.n = n;
    Multi s8; s8.p = mem( n ); s8.n = n;
    Multi s9; s9.p = mem( n ); s9.n = n;
    if( n == 0 ) { multi_array_algebra::for_each9( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , Op9() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i];
    multi_array_algebra::for_each9( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , Op9() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 9 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each10 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    Multi s4; s4.p = mem( n ); s4.n = n;
    Multi s5; s5.p = mem( n ); s5.n = n;
    Multi s6; s6.p = mem( n ); s6.n = n;
    Multi s7; s7.p = mem( n ); s7.n = n;
    Multi s8; s8.p = mem( n ); s8.n = n;
    Multi s9; s9.p = mem( n ); s9.n = n;
    Multi s10; s10.p = mem( n ); s10.n = n;
    if( n == 0 ) { multi_array_algebra::for_each10( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , Op10() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i] , o10 = s10.p[i];
    multi_array_algebra::for_each10( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , Op10() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 10 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) & irv_eq( s10.p[i] , o10 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each11 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    Multi s4; s4.p = mem( n ); s4.n = n;
    Multi s5; s5.p = mem( n ); s5.n = n;
    Multi s6; s6.p = mem( n ); s6.n = n;
    Multi s7; s7.p = mem( n ); s7.n = n;
    Multi s8; s8.p = mem( n ); s8.n = n;
    Multi s9; s9.p = mem( n ); s9.n = n;
    Multi s10; s10.p = mem( n ); s10.n = n;
    Multi s11; s11.p = mem( n ); s11.n = n;
    if( n == 0 ) { multi_array_algebra::for_each11( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , Op11() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i] , o10 = s10.p[i] , o11 = s11.p[i];
    multi_array_algebra::for_each11( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , Op11() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 11 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) & irv_eq( s10.p[i] , o10 ) & irv_eq( s11.p[i] , o11 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each12 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    Multi s4; s4.p = mem( n ); s4.n = n;
    Multi s5; s5.p = mem( n ); s5.n = n;
    Multi s6; s6.p = mem( n ); s6.n = n;
    Multi s7; s7.p = mem( n ); s7.n = n;
    Multi s8; s8.p = mem( n ); s8.n = n;
    Multi s9; s9.p = mem( n ); s9.n = n;
    Multi s10; s10.p = mem( n ); s10.n = n;
    Multi s11; s11.p = mem( n ); s11.n = n;
    Multi s12; s12.p = mem( n ); s12.n = n;
    if( n == 0 ) { multi_array_algebra::for_each12( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , Op12() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i] , o10 = s10.p[i] , o11 = s11.p[i] , o12 = s12.p[i];
    multi_array_algebra::for_each12( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , Op12() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 12 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 , o12 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) & irv_eq( s10.p[i] , o10 ) & irv_eq( s11.p[i] , o11 ) & irv_eq( s12.p[i] , o12 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each13 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    Multi s4; s4.p = mem( n ); s4.n = n;
    Multi s5; s5.p = mem( n ); s5.n = n;
    Multi s6; s6.p = mem( n ); s6.n = n;
    Multi s7; s7.p = mem( n ); s7.n = n;
    Multi s8; s8.p = mem( n ); s8.n = n;
    Multi s9; s9.p = mem( n ); s9.n = n;
    Multi s10; s10.p = mem( n ); s10.n = n;
    Multi s11; s11.p = mem( n ); s11.n = n;
    Multi s12; s12.p = mem( n ); s12.n = n;
    Multi s13; s13.p = mem( n ); s13.n = n;
    if( n == 0 ) { multi_array_algebra::for_each13( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , Op13() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i] , o10 = s10.p[i] , o11 = s11.p[i] , o12 = s12.p[i] , o13 = s13.p[i];
    multi_array_algebra::for_each13( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , Op13() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 13 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 , o12 , o13 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) & irv_eq( s10.p[i] , o10 ) & irv_eq( s11.p[i] , o11 ) & irv_eq( s12.p[i] , o12 ) & irv_eq( s13.p[i] , o13 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each14 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    Multi s4; s4.p = mem( n ); s4.n = n;
    Multi s5; s5.p = mem( n ); s5.n = n;
    Multi s6; s6.p = mem( n ); s6.n = n;
    Multi s7; s7.p = mem( n ); s7.n = n;
    Multi s8; s8.p = mem( n ); s8.n = n;
    Multi s9; s9.p = mem( n ); s9.n = n;
    Multi s10; s10.p = mem( n ); s10.n = n;
    Multi s11; s11.p = mem( n ); s11.n = n;
    Multi s12; s12.p = mem( n ); s12.n = n;
    Multi s13; s13.p = mem( n ); s13.n = n;
    Multi s14; s14.p = mem( n ); s14.n = n;
    if( n == 0 ) { multi_array_algebra::for_each14( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , Op14() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i] , o10 = s10.p[i] , o11 = s11.p[i] , o12 = s12.p[i] , o13 = s13.p[i] , o14 = s14.p[i];
    multi_array_algebra::for_each14( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , Op14() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 14 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 , o12 , o13 , o14 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) & irv_eq( s10.p[i] , o10 ) & irv_eq( s11.p[i] , o11 ) & irv_eq( s12.p[i] , o12 ) & irv_eq( s13.p[i] , o13 ) & irv_eq( s14.p[i] , o14 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_for_each15 )
{
    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );
    Multi s1; s1.p = mem( n ); s1.n = n;
    Multi s2; s2.p = mem( n ); s2.n = n;
    Multi s3; s3.p = mem( n ); s3.n = n;
    Multi s4; s4.p = mem( n ); s4.n = n;
    Multi s5; s5.p = mem( n ); s5.n = n;
    Multi s6; s6.p = mem( n ); s6.n = n;
    Multi s7; s7.p = mem( n ); s7.n = n;
    Multi s8; s8.p = mem( n ); s8.n = n;
    Multi s9; s9.p = mem( n ); s9.n = n;
    Multi s10; s10.p = mem( n ); s10.n = n;
    Multi s11; s11.p = mem( n ); s11.n = n;
    Multi s12; s12.p = mem( n ); s12.n = n;
    Multi s13; s13.p = mem( n ); s13.n = n;
    Multi s14; s14.p = mem( n ); s14.n = n;
    Multi s15; s15.p = mem( n ); s15.n = n;
    if( n == 0 ) { multi_array_algebra::for_each15( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , s15 , Op15() ); irv_cover( "empty" ); return; }
    irv_assume( i < n );
    const double o1 = s1.p[i] , o2 = s2.p[i] , o3 = s3.p[i] , o4 = s4.p[i] , o5 = s5.p[i] , o6 = s6.p[i] , o7 = s7.p[i] , o8 = s8.p[i] , o9 = s9.p[i] , o10 = s10.p[i] , o11 = s11.p[i] , o12 = s12.p[i] , o13 = s13.p[i] , o14 = s14.p[i] , o15 = s15.p[i];
    multi_array_algebra::for_each15( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , s15 , Op15() );
    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , 15 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 , o12 , o13 , o14 , o15 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( s2.p[i] , o2 ) & irv_eq( s3.p[i] , o3 ) & irv_eq( s4.p[i] , o4 ) & irv_eq( s5.p[i] , o5 ) & irv_eq( s6.p[i] , o6 ) & irv_eq( s7.p[i] , o7 ) & irv_eq( s8.p[i] , o8 ) & irv_eq( s9.p[i] , o9 ) & irv_eq( s10.p[i] , o10 ) & irv_eq( s11.p[i] , o11 ) & irv_eq( s12.p[i] , o12 ) & irv_eq( s13.p[i] , o13 ) & irv_eq( s14.p[i] , o14 ) & irv_eq( s15.p[i] , o15 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_alias )
{
    long n = irv_nat( "n" , 1 , 5 ) , i = irv_nat( "i" , 0 , 4 ); irv_assume( i < n );
    Multi a , b; a.p = mem( n ); a.n = n; b.p = mem( n ); b.n = n; const double x = a.p[i] , y = b.p[i];
    multi_array_algebra::for_each3( a , a , b , Op3() ); const double z = irv_uf( "op" , 3 , x , x , y );
    irv_assert( irv_eq( a.p[i] , z ) & irv_eq( b.p[i] , y ) , "output aliasing the second argument" );
    multi_array_algebra::for_each3( a , b , a , Op3() );
    irv_assert( irv_eq( a.p[i] , irv_uf( "op" , 3 , z , y , z ) ) & irv_eq( b.p[i] , y ) , "output aliasing the third argument" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_multi_array_norm_bound )
{
    g_n = irv_nat( "n" , 0 , 5 ); g_i = irv_nat( "i" , 0 , 4 ); Multi s; s.p = g_p = mem( g_n ); s.n = g_n;
    double r = multi_array_algebra::norm_inf( s );
    irv_assert( r >= 0 , "norm is not negative" );
    irv_assert( ( g_n > 0 ) | irv_eq( r , 0.0 ) , "norm of an empty container is zero" );
    if( g_i < g_n ) irv_assert( r >= dabs( g_p[ g_i ] ) , "norm is an upper bound of every element's absolute value" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each1 )
{
    typedef boost::array< double , 1 > A; A s1 , o1;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    array_algebra::for_each1( s1 , Op1() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 1 , o1[c] ) ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each2 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    array_algebra::for_each2( s1 , s2 , Op2() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 2 , o1[c] , o2[c] ) ); b = b & irv_eq( s2[c] , o2[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each3 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    array_algebra::for_each3( s1 , s2 , s3 , Op3() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 3 , o1[c] , o2[c] , o3[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each4 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    array_algebra::for_each4( s1 , s2 , s3 , s4 , Op4() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 4 , o1[c] , o2[c] , o3[c] , o4[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each5 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    array_algebra::for_each5( s1 , s2 , s3 , s4 , s5 , Op5() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 5 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each6 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    array_algebra::for_each6( s1 , s2 , s3 , s4 , s5 , s6 , Op6() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 6 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each7 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    array_algebra::for_each7( s1 , s2 , s3 , s4 , s5 , s6 , s7 , Op7() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 7 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each8 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    array_algebra::for_each8( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , Op8() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 8 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each9 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    array_algebra::for_each9( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , Op9() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 9 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each10 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    array_algebra::for_each10( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , Op10() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 10 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each11 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    array_algebra::for_each11( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , Op11() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 11 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each12 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    array_algebra::for_each12( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , Op12() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 12 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each13 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12 , s13 , o13;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s13[c] = o13[c] = irv_real( "element" );
    array_algebra::for_each13( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , Op13() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 13 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] , o13[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ) & irv_eq( s13[c] , o13[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each14 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12 , s13 , o13 , s14 , o14;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s13[c] = o13[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s14[c] = o14[c] = irv_real( "element" );
    array_algebra::for_each14( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , Op14() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 14 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] , o13[c] , o14[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ) & irv_eq( s13[c] , o13[c] ) & irv_eq( s14[c] , o14[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_for_each15 )
{
    typedef boost::array< double , 1 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12 , s13 , o13 , s14 , o14 , s15 , o15;
    for( int c = 0 ; c < 1 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s13[c] = o13[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s14[c] = o14[c] = irv_real( "element" );
    for( int c = 0 ; c < 1 ; ++c ) s15[c] = o15[c] = irv_real( "element" );
    array_algebra::for_each15( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , s15 , Op15() );
    bool a = true , b = true; for( int c = 0 ; c < 1 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 15 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] , o13[c] , o14[c] , o15[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ) & irv_eq( s13[c] , o13[c] ) & irv_eq( s14[c] , o14[c] ) & irv_eq( s15[c] , o15[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array1_norm )
{
    boost::array< double , 1 > s; double m = 0; for( int c = 0 ; c < 1 ; ++c ) { s[c] = irv_real( "element" ); double a = dabs( s[c] ); m = m < a ? a : m; }
    irv_assert( irv_eq( array_algebra::norm_inf( s ) , m ) , "norm is the largest absolute value over all elements" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each1 )
{
    typedef boost::array< double , 2 > A; A s1 , o1;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    array_algebra::for_each1( s1 , Op1() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 1 , o1[c] ) ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each2 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    array_algebra::for_each2( s1 , s2 , Op2() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 2 , o1[c] , o2[c] ) ); b = b & irv_eq( s2[c] , o2[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each3 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    array_algebra::for_each3( s1 , s2 , s3 , Op3() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 3 , o1[c] , o2[c] , o3[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each4 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    array_algebra::for_each4( s1 , s2 , s3 , s4 , Op4() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 4 , o1[c] , o2[c] , o3[c] , o4[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each5 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    array_algebra::for_each5( s1 , s2 , s3 , s4 , s5 , Op5() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 5 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each6 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    array_algebra::for_each6( s1 , s2 , s3 , s4 , s5 , s6 , Op6() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 6 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each7 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    array_algebra::for_each7( s1 , s2 , s3 , s4 , s5 , s6 , s7 , Op7() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 7 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each8 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    array_algebra::for_each8( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , Op8() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 8 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each9 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    array_algebra::for_each9( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , Op9() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 9 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each10 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    array_algebra::for_each10( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , Op10() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 10 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each11 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    array_algebra::for_each11( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , Op11() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 11 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each12 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    array_algebra::for_each12( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , Op12() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 12 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each13 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12 , s13 , o13;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s13[c] = o13[c] = irv_real( "element" );
    array_algebra::for_each13( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , Op13() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 13 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] , o13[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ) & irv_eq( s13[c] , o13[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each14 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12 , s13 , o13 , s14 , o14;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s13[c] = o13[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s14[c] = o14[c] = irv_real( "element" );
    array_algebra::for_each14( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , Op14() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 14 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] , o13[c] , o14[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ) & irv_eq( s13[c] , o13[c] ) & irv_eq( s14[c] , o14[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_for_each15 )
{
    typedef boost::array< double , 2 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12 , s13 , o13 , s14 , o14 , s15 , o15;
    for( int c = 0 ; c < 2 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s13[c] = o13[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s14[c] = o14[c] = irv_real( "element" );
    for( int c = 0 ; c < 2 ; ++c ) s15[c] = o15[c] = irv_real( "element" );
    array_algebra::for_each15( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , s15 , Op15() );
    bool a = true , b = true; for( int c = 0 ; c < 2 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 15 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] , o13[c] , o14[c] , o15[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ) & irv_eq( s13[c] , o13[c] ) & irv_eq( s14[c] , o14[c] ) & irv_eq( s15[c] , o15[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array2_norm )
{
    boost::array< double , 2 > s; double m = 0; for( int c = 0 ; c < 2 ; ++c ) { s[c] = irv_real( "element" ); double a = dabs( s[c] ); m = m < a ? a : m; }
    irv_assert( irv_eq( array_algebra::norm_inf( s ) , m ) , "norm is the largest absolute value over all elements" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each1 )
{
    typedef boost::array< double , 3 > A; A s1 , o1;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    array_algebra::for_each1( s1 , Op1() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 1 , o1[c] ) ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each2 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    array_algebra::for_each2( s1 , s2 , Op2() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 2 , o1[c] , o2[c] ) ); b = b & irv_eq( s2[c] , o2[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each3 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    array_algebra::for_each3( s1 , s2 , s3 , Op3() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 3 , o1[c] , o2[c] , o3[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each4 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    array_algebra::for_each4( s1 , s2 , s3 , s4 , Op4() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 4 , o1[c] , o2[c] , o3[c] , o4[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each5 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    array_algebra::for_each5( s1 , s2 , s3 , s4 , s5 , Op5() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 5 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each6 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    array_algebra::for_each6( s1 , s2 , s3 , s4 , s5 , s6 , Op6() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 6 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each7 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    array_algebra::for_each7( s1 , s2 , s3 , s4 , s5 , s6 , s7 , Op7() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 7 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each8 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    array_algebra::for_each8( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , Op8() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 8 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each9 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    array_algebra::for_each9( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , Op9() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 9 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each10 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    array_algebra::for_each10( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , Op10() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 10 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each11 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    array_algebra::for_each11( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , Op11() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 11 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each12 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    array_algebra::for_each12( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , Op12() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 12 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each13 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12 , s13 , o13;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s13[c] = o13[c] = irv_real( "element" );
    array_algebra::for_each13( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , Op13() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 13 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] , o13[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ) & irv_eq( s13[c] , o13[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each14 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12 , s13 , o13 , s14 , o14;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s13[c] = o13[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s14[c] = o14[c] = irv_real( "element" );
    array_algebra::for_each14( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , Op14() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 14 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] , o13[c] , o14[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ) & irv_eq( s13[c] , o13[c] ) & irv_eq( s14[c] , o14[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_for_each15 )
{
    typedef boost::array< double , 3 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12 , s13 , o13 , s14 , o14 , s15 , o15;
    for( int c = 0 ; c < 3 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s13[c] = o13[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s14[c] = o14[c] = irv_real( "element" );
    for( int c = 0 ; c < 3 ; ++c ) s15[c] = o15[c] = irv_real( "element" );
    array_algebra::for_each15( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , s15 , Op15() );
    bool a = true , b = true; for( int c = 0 ; c < 3 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 15 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] , o13[c] , o14[c] , o15[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ) & irv_eq( s13[c] , o13[c] ) & irv_eq( s14[c] , o14[c] ) & irv_eq( s15[c] , o15[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array3_norm )
{
    boost::array< double , 3 > s; double m = 0; for( int c = 0 ; c < 3 ; ++c ) { s[c] = irv_real( "element" ); double a = dabs( s[c] ); m = m < a ? a : m; }
    irv_assert( irv_eq( array_algebra::norm_inf( s ) , m ) , "norm is the largest absolute value over all elements" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each1 )
{
    typedef boost::array< double , 5 > A; A s1 , o1;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    array_algebra::for_each1( s1 , Op1() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 1 , o1[c] ) ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each2 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    array_algebra::for_each2( s1 , s2 , Op2() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 2 , o1[c] , o2[c] ) ); b = b & irv_eq( s2[c] , o2[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each3 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    array_algebra::for_each3( s1 , s2 , s3 , Op3() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 3 , o1[c] , o2[c] , o3[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each4 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    array_algebra::for_each4( s1 , s2 , s3 , s4 , Op4() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 4 , o1[c] , o2[c] , o3[c] , o4[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each5 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    array_algebra::for_each5( s1 , s2 , s3 , s4 , s5 , Op5() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 5 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each6 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    array_algebra::for_each6( s1 , s2 , s3 , s4 , s5 , s6 , Op6() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 6 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each7 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    array_algebra::for_each7( s1 , s2 , s3 , s4 , s5 , s6 , s7 , Op7() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 7 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each8 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    array_algebra::for_each8( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , Op8() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 8 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each9 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    array_algebra::for_each9( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , Op9() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 9 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each10 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    array_algebra::for_each10( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , Op10() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 10 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each11 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    array_algebra::for_each11( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , Op11() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 11 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each12 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    array_algebra::for_each12( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , Op12() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 12 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each13 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12 , s13 , o13;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s13[c] = o13[c] = irv_real( "element" );
    array_algebra::for_each13( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , Op13() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 13 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] , o13[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ) & irv_eq( s13[c] , o13[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each14 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12 , s13 , o13 , s14 , o14;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s13[c] = o13[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s14[c] = o14[c] = irv_real( "element" );
    array_algebra::for_each14( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , Op14() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 14 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] , o13[c] , o14[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ) & irv_eq( s13[c] , o13[c] ) & irv_eq( s14[c] , o14[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_for_each15 )
{
    typedef boost::array< double , 5 > A; A s1 , o1 , s2 , o2 , s3 , o3 , s4 , o4 , s5 , o5 , s6 , o6 , s7 , o7 , s8 , o8 , s9 , o9 , s10 , o10 , s11 , o11 , s12 , o12 , s13 , o13 , s14 , o14 , s15 , o15;
    for( int c = 0 ; c < 5 ; ++c ) s1[c] = o1[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s2[c] = o2[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s3[c] = o3[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s4[c] = o4[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s5[c] = o5[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s6[c] = o6[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s7[c] = o7[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s8[c] = o8[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s9[c] = o9[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s10[c] = o10[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s11[c] = o11[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s12[c] = o12[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s13[c] = o13[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s14[c] = o14[c] = irv_real( "element" );
    for( int c = 0 ; c < 5 ; ++c ) s15[c] = o15[c] = irv_real( "element" );
    array_algebra::for_each15( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , s15 , Op15() );
    bool a = true , b = true; for( int c = 0 ; c < 5 ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , 15 , o1[c] , o2[c] , o3[c] , o4[c] , o5[c] , o6[c] , o7[c] , o8[c] , o9[c] , o10[c] , o11[c] , o12[c] , o13[c] , o14[c] , o15[c] ) ); b = b & irv_eq( s2[c] , o2[c] ) & irv_eq( s3[c] , o3[c] ) & irv_eq( s4[c] , o4[c] ) & irv_eq( s5[c] , o5[c] ) & irv_eq( s6[c] , o6[c] ) & irv_eq( s7[c] , o7[c] ) & irv_eq( s8[c] , o8[c] ) & irv_eq( s9[c] , o9[c] ) & irv_eq( s10[c] , o10[c] ) & irv_eq( s11[c] , o11[c] ) & irv_eq( s12[c] , o12[c] ) & irv_eq( s13[c] , o13[c] ) & irv_eq( s14[c] , o14[c] ) & irv_eq( s15[c] , o15[c] ); }
    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );
}
IRV_HARNESS( C19_array5_norm )
{
    boost::array< double , 5 > s; double m = 0; for( int c = 0 ; c < 5 ; ++c ) { s[c] = irv_real( "element" ); double a = dabs( s[c] ); m = m < a ? a : m; }
    irv_assert( irv_eq( array_algebra::norm_inf( s ) , m ) , "norm is the largest absolute value over all elements" ); irv_cover( "end" );
}
struct Swap { template< class A , class B , class C > void operator()( A &a , B &b , const C &c ) const { const double x = a; a = irv_uf( "op" , 2 , b , c ); b = x; } };
IRV_HARNESS( C19_array_swap )
{
    boost::array< double , 3 > a , b , c , A , B , C; for( int i = 0 ; i < 3 ; ++i ) { a[i] = A[i] = irv_real( "a" ); b[i] = B[i] = irv_real( "b" ); c[i] = C[i] = irv_real( "c" ); }
    array_algebra::for_each3( a , b , c , Swap() ); bool r = true; for( int i = 0 ; i < 3 ; ++i ) r = r & irv_eq( a[i] , irv_uf( "op" , 2 , B[i] , C[i] ) ) & irv_eq( b[i] , A[i] ) & irv_eq( c[i] , C[i] );
    irv_assert( r , "operations that modify two arguments" ); irv_cover( "end" );
}
IRV_HARNESS( C19_range_swap )
{
    long n = irv_nat( "n" , 1 , 5 ) , i = irv_nat( "i" , 0 , 4 ); irv_assume( i < n ); Rng a , b , c; a.n = b.n = c.n = n; a.p = mem( n ); b.p = mem( n ); c.p = mem( n ); const double A = a.p[i] , B = b.p[i] , C = c.p[i];
    range_algebra::for_each3( a , b , c , Swap() );
    irv_assert( irv_eq( a.p[i] , irv_uf( "op" , 2 , B , C ) ) & irv_eq( b.p[i] , A ) & irv_eq( c.p[i] , C ) , "operations that modify two arguments" ); irv_cover( "end" );
}
IRV_HARNESS( C19_vector_space_for_each1 ) { double s1 = irv_real( "s" ); const double o1 = s1; vector_space_algebra::for_each1( s1 , Op1() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 1 , o1 ) ) , "the operation is applied once to the whole states" ); irv_assert( true , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each2 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ); const double o1 = s1 , o2 = s2; vector_space_algebra::for_each2( s1 , s2 , Op2() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 2 , o1 , o2 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each3 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3; vector_space_algebra::for_each3( s1 , s2 , s3 , Op3() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 3 , o1 , o2 , o3 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each4 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ) , s4 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3 , o4 = s4; vector_space_algebra::for_each4( s1 , s2 , s3 , s4 , Op4() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 4 , o1 , o2 , o3 , o4 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) & irv_eq( s4 , o4 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each5 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ) , s4 = irv_real( "s" ) , s5 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3 , o4 = s4 , o5 = s5; vector_space_algebra::for_each5( s1 , s2 , s3 , s4 , s5 , Op5() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 5 , o1 , o2 , o3 , o4 , o5 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) & irv_eq( s4 , o4 ) & irv_eq( s5 , o5 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each6 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ) , s4 = irv_real( "s" ) , s5 = irv_real( "s" ) , s6 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3 , o4 = s4 , o5 = s5 , o6 = s6; vector_space_algebra::for_each6( s1 , s2 , s3 , s4 , s5 , s6 , Op6() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 6 , o1 , o2 , o3 , o4 , o5 , o6 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) & irv_eq( s4 , o4 ) & irv_eq( s5 , o5 ) & irv_eq( s6 , o6 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each7 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ) , s4 = irv_real( "s" ) , s5 = irv_real( "s" ) , s6 = irv_real( "s" ) , s7 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3 , o4 = s4 , o5 = s5 , o6 = s6 , o7 = s7; vector_space_algebra::for_each7( s1 , s2 , s3 , s4 , s5 , s6 , s7 , Op7() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 7 , o1 , o2 , o3 , o4 , o5 , o6 , o7 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) & irv_eq( s4 , o4 ) & irv_eq( s5 , o5 ) & irv_eq( s6 , o6 ) & irv_eq( s7 , o7 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each8 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ) , s4 = irv_real( "s" ) , s5 = irv_real( "s" ) , s6 = irv_real( "s" ) , s7 = irv_real( "s" ) , s8 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3 , o4 = s4 , o5 = s5 , o6 = s6 , o7 = s7 , o8 = s8; vector_space_algebra::for_each8( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , Op8() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 8 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) & irv_eq( s4 , o4 ) & irv_eq( s5 , o5 ) & irv_eq( s6 , o6 ) & irv_eq( s7 , o7 ) & irv_eq( s8 , o8 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each9 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ) , s4 = irv_real( "s" ) , s5 = irv_real( "s" ) , s6 = irv_real( "s" ) , s7 = irv_real( "s" ) , s8 = irv_real( "s" ) , s9 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3 , o4 = s4 , o5 = s5 , o6 = s6 , o7 = s7 , o8 = s8 , o9 = s9; vector_space_algebra::for_each9( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , Op9() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 9 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) & irv_eq( s4 , o4 ) & irv_eq( s5 , o5 ) & irv_eq( s6 , o6 ) & irv_eq( s7 , o7 ) & irv_eq( s8 , o8 ) & irv_eq( s9 , o9 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each10 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ) , s4 = irv_real( "s" ) , s5 = irv_real( "s" ) , s6 = irv_real( "s" ) , s7 = irv_real( "s" ) , s8 = irv_real( "s" ) , s9 = irv_real( "s" ) , s10 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3 , o4 = s4 , o5 = s5 , o6 = s6 , o7 = s7 , o8 = s8 , o9 = s9 , o10 = s10; vector_space_algebra::for_each10( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , Op10() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 10 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) & irv_eq( s4 , o4 ) & irv_eq( s5 , o5 ) & irv_eq( s6 , o6 ) & irv_eq( s7 , o7 ) & irv_eq( s8 , o8 ) & irv_eq( s9 , o9 ) & irv_eq( s10 , o10 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each11 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ) , s4 = irv_real( "s" ) , s5 = irv_real( "s" ) , s6 = irv_real( "s" ) , s7 = irv_real( "s" ) , s8 = irv_real( "s" ) , s9 = irv_real( "s" ) , s10 = irv_real( "s" ) , s11 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3 , o4 = s4 , o5 = s5 , o6 = s6 , o7 = s7 , o8 = s8 , o9 = s9 , o10 = s10 , o11 = s11; vector_space_algebra::for_each11( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , Op11() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 11 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) & irv_eq( s4 , o4 ) & irv_eq( s5 , o5 ) & irv_eq( s6 , o6 ) & irv_eq( s7 , o7 ) & irv_eq( s8 , o8 ) & irv_eq( s9 , o9 ) & irv_eq( s10 , o10 ) & irv_eq( s11 , o11 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each12 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ) , s4 = irv_real( "s" ) , s5 = irv_real( "s" ) , s6 = irv_real( "s" ) , s7 = irv_real( "s" ) , s8 = irv_real( "s" ) , s9 = irv_real( "s" ) , s10 = irv_real( "s" ) , s11 = irv_real( "s" ) , s12 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3 , o4 = s4 , o5 = s5 , o6 = s6 , o7 = s7 , o8 = s8 , o9 = s9 , o10 = s10 , o11 = s11 , o12 = s12; vector_space_algebra::for_each12( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , Op12() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 12 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 , o12 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) & irv_eq( s4 , o4 ) & irv_eq( s5 , o5 ) & irv_eq( s6 , o6 ) & irv_eq( s7 , o7 ) & irv_eq( s8 , o8 ) & irv_eq( s9 , o9 ) & irv_eq( s10 , o10 ) & irv_eq( s11 , o11 ) & irv_eq( s12 , o12 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each13 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ) , s4 = irv_real( "s" ) , s5 = irv_real( "s" ) , s6 = irv_real( "s" ) , s7 = irv_real( "s" ) , s8 = irv_real( "s" ) , s9 = irv_real( "s" ) , s10 = irv_real( "s" ) , s11 = irv_real( "s" ) , s12 = irv_real( "s" ) , s13 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3 , o4 = s4 , o5 = s5 , o6 = s6 , o7 = s7 , o8 = s8 , o9 = s9 , o10 = s10 , o11 = s11 , o12 = s12 , o13 = s13; vector_space_algebra::for_each13( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , Op13() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 13 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 , o12 , o13 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) & irv_eq( s4 , o4 ) & irv_eq( s5 , o5 ) & irv_eq( s6 , o6 ) & irv_eq( s7 , o7 ) & irv_eq( s8 , o8 ) & irv_eq( s9 , o9 ) & irv_eq( s10 , o10 ) & irv_eq( s11 , o11 ) & irv_eq( s12 , o12 ) & irv_eq( s13 , o13 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each14 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ) , s4 = irv_real( "s" ) , s5 = irv_real( "s" ) , s6 = irv_real( "s" ) , s7 = irv_real( "s" ) , s8 = irv_real( "s" ) , s9 = irv_real( "s" ) , s10 = irv_real( "s" ) , s11 = irv_real( "s" ) , s12 = irv_real( "s" ) , s13 = irv_real( "s" ) , s14 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3 , o4 = s4 , o5 = s5 , o6 = s6 , o7 = s7 , o8 = s8 , o9 = s9 , o10 = s10 , o11 = s11 , o12 = s12 , o13 = s13 , o14 = s14; vector_space_algebra::for_each14( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , Op14() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 14 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 , o12 , o13 , o14 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) & irv_eq( s4 , o4 ) & irv_eq( s5 , o5 ) & irv_eq( s6 , o6 ) & irv_eq( s7 , o7 ) & irv_eq( s8 , o8 ) & irv_eq( s9 , o9 ) & irv_eq( s10 , o10 ) & irv_eq( s11 , o11 ) & irv_eq( s12 , o12 ) & irv_eq( s13 , o13 ) & irv_eq( s14 , o14 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_for_each15 ) { double s1 = irv_real( "s" ) , s2 = irv_real( "s" ) , s3 = irv_real( "s" ) , s4 = irv_real( "s" ) , s5 = irv_real( "s" ) , s6 = irv_real( "s" ) , s7 = irv_real( "s" ) , s8 = irv_real( "s" ) , s9 = irv_real( "s" ) , s10 = irv_real( "s" ) , s11 = irv_real( "s" ) , s12 = irv_real( "s" ) , s13 = irv_real( "s" ) , s14 = irv_real( "s" ) , s15 = irv_real( "s" ); const double o1 = s1 , o2 = s2 , o3 = s3 , o4 = s4 , o5 = s5 , o6 = s6 , o7 = s7 , o8 = s8 , o9 = s9 , o10 = s10 , o11 = s11 , o12 = s12 , o13 = s13 , o14 = s14 , o15 = s15; vector_space_algebra::for_each15( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , s11 , s12 , s13 , s14 , s15 , Op15() ); irv_assert( irv_eq( s1 , irv_uf( "op" , 15 , o1 , o2 , o3 , o4 , o5 , o6 , o7 , o8 , o9 , o10 , o11 , o12 , o13 , o14 , o15 ) ) , "the operation is applied once to the whole states" ); irv_assert( irv_eq( s2 , o2 ) & irv_eq( s3 , o3 ) & irv_eq( s4 , o4 ) & irv_eq( s5 , o5 ) & irv_eq( s6 , o6 ) & irv_eq( s7 , o7 ) & irv_eq( s8 , o8 ) & irv_eq( s9 , o9 ) & irv_eq( s10 , o10 ) & irv_eq( s11 , o11 ) & irv_eq( s12 , o12 ) & irv_eq( s13 , o13 ) & irv_eq( s14 , o14 ) & irv_eq( s15 , o15 ) , "inputs unmodified" ); irv_cover( "end" ); }
IRV_HARNESS( C19_vector_space_norm ) { double x = irv_real( "x" ); irv_assert( irv_eq( vector_space_algebra::norm_inf( x ) , dabs( x ) ) , "norm of a scalar" ); irv_cover( "end" ); }
IRV_HARNESS( C19_fusion_for_each1 )
{
    typedef boost::fusion::vector< double , double , double > S; using boost::fusion::at_c;
    const double a1 = irv_real( "a" ) , b1 = irv_real( "b" ) , c1 = irv_real( "c" ); S s1( a1 , b1 , c1 );
    fusion_algebra::for_each1( s1 , Op1() );
    irv_assert( irv_eq( at_c< 0 >( s1 ) , irv_uf( "op" , 1 , a1 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 1 >( s1 ) , irv_uf( "op" , 1 , b1 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 2 >( s1 ) , irv_uf( "op" , 1 , c1 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_fusion_for_each2 )
{
    typedef boost::fusion::vector< double , double , double > S; using boost::fusion::at_c;
    const double a1 = irv_real( "a" ) , b1 = irv_real( "b" ) , c1 = irv_real( "c" ); S s1( a1 , b1 , c1 );
    const double a2 = irv_real( "a" ) , b2 = irv_real( "b" ) , c2 = irv_real( "c" ); S s2( a2 , b2 , c2 );
    fusion_algebra::for_each2( s1 , s2 , Op2() );
    irv_assert( irv_eq( at_c< 0 >( s1 ) , irv_uf( "op" , 2 , a1 , a2 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 1 >( s1 ) , irv_uf( "op" , 2 , b1 , b2 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 2 >( s1 ) , irv_uf( "op" , 2 , c1 , c2 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 0 >( s2 ) , a2 ) & irv_eq( at_c< 1 >( s2 ) , b2 ) & irv_eq( at_c< 2 >( s2 ) , c2 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_fusion_for_each3 )
{
    typedef boost::fusion::vector< double , double , double > S; using boost::fusion::at_c;
    const double a1 = irv_real( "a" ) , b1 = irv_real( "b" ) , c1 = irv_real( "c" ); S s1( a1 , b1 , c1 );
    const double a2 = irv_real( "a" ) , b2 = irv_real( "b" ) , c2 = irv_real( "c" ); S s2( a2 , b2 , c2 );
    const double a3 = irv_real( "a" ) , b3 = irv_real( "b" ) , c3 = irv_real( "c" ); S s3( a3 , b3 , c3 );
    fusion_algebra::for_each3( s1 , s2 , s3 , Op3() );
    irv_assert( irv_eq( at_c< 0 >( s1 ) , irv_uf( "op" , 3 , a1 , a2 , a3 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 1 >( s1 ) , irv_uf( "op" , 3 , b1 , b2 , b3 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 2 >( s1 ) , irv_uf( "op" , 3 , c1 , c2 , c3 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 0 >( s2 ) , a2 ) & irv_eq( at_c< 1 >( s2 ) , b2 ) & irv_eq( at_c< 2 >( s2 ) , c2 ) & irv_eq( at_c< 0 >( s3 ) , a3 ) & irv_eq( at_c< 1 >( s3 ) , b3 ) & irv_eq( at_c< 2 >( s3 ) , c3 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_fusion_for_each4 )
{
    typedef boost::fusion::vector< double , double , double > S; using boost::fusion::at_c;
    const double a1 = irv_real( "a" ) , b1 = irv_real( "b" ) , c1 = irv_real( "c" ); S s1( a1 , b1 , c1 );
    const double a2 = irv_real( "a" ) , b2 = irv_real( "b" ) , c2 = irv_real( "c" ); S s2( a2 , b2 , c2 );
    const double a3 = irv_real( "a" ) , b3 = irv_real( "b" ) , c3 = irv_real( "c" ); S s3( a3 , b3 , c3 );
    const double a4 = irv_real( "a" ) , b4 = irv_real( "b" ) , c4 = irv_real( "c" ); S s4( a4 , b4 , c4 );
    fusion_algebra::for_each4( s1 , s2 , s3 , s4 , Op4() );
    irv_assert( irv_eq( at_c< 0 >( s1 ) , irv_uf( "op" , 4 , a1 , a2 , a3 , a4 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 1 >( s1 ) , irv_uf( "op" , 4 , b1 , b2 , b3 , b4 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 2 >( s1 ) , irv_uf( "op" , 4 , c1 , c2 , c3 , c4 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 0 >( s2 ) , a2 ) & irv_eq( at_c< 1 >( s2 ) , b2 ) & irv_eq( at_c< 2 >( s2 ) , c2 ) & irv_eq( at_c< 0 >( s3 ) , a3 ) & irv_eq( at_c< 1 >( s3 ) , b3 ) & irv_eq( at_c< 2 >( s3 ) , c3 ) & irv_eq( at_c< 0 >( s4 ) , a4 ) & irv_eq( at_c< 1 >( s4 ) , b4 ) & irv_eq( at_c< 2 >( s4 ) , c4 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_fusion_for_each5 )
{
    typedef boost::fusion::vector< double , double , double > S; using boost::fusion::at_c;
    const double a1 = irv_real( "a" ) , b1 = irv_real( "b" ) , c1 = irv_real( "c" ); S s1( a1 , b1 , c1 );
    const double a2 = irv_real( "a" ) , b2 = irv_real( "b" ) , c2 = irv_real( "c" ); S s2( a2 , b2 , c2 );
    const double a3 = irv_real( "a" ) , b3 = irv_real( "b" ) , c3 = irv_real( "c" ); S s3( a3 , b3 , c3 );
    const double a4 = irv_real( "a" ) , b4 = irv_real( "b" ) , c4 = irv_real( "c" ); S s4( a4 , b4 , c4 );
    const double a5 = irv_real( "a" ) , b5 = irv_real( "b" ) , c5 = irv_real( "c" ); S s5( a5 , b5 , c5 );
    fusion_algebra::for_each5( s1 , s2 , s3 , s4 , s5 , Op5() );
    irv_assert( irv_eq( at_c< 0 >( s1 ) , irv_uf( "op" , 5 , a1 , a2 , a3 , a4 , a5 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 1 >( s1 ) , irv_uf( "op" , 5 , b1 , b2 , b3 , b4 , b5 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 2 >( s1 ) , irv_uf( "op" , 5 , c1 , c2 , c3 , c4 , c5 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 0 >( s2 ) , a2 ) & irv_eq( at_c< 1 >( s2 ) , b2 ) & irv_eq( at_c< 2 >( s2 ) , c2 ) & irv_eq( at_c< 0 >( s3 ) , a3 ) & irv_eq( at_c< 1 >( s3 ) , b3 ) & irv_eq( at_c< 2 >( s3 ) , c3 ) & irv_eq( at_c< 0 >( s4 ) , a4 ) & irv_eq( at_c< 1 >( s4 ) , b4 ) & irv_eq( at_c< 2 >( s4 ) , c4 ) & irv_eq( at_c< 0 >( s5 ) , a5 ) & irv_eq( at_c< 1 >( s5 ) , b5 ) & irv_eq( at_c< 2 >( s5 ) , c5 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_fusion_for_each6 )
{
    typedef boost::fusion::vector< double , double , double > S; using boost::fusion::at_c;
    const double a1 = irv_real( "a" ) , b1 = irv_real( "b" ) , c1 = irv_real( "c" ); S s1( a1 , b1 , c1 );
    const double a2 = irv_real( "a" ) , b2 = irv_real( "b" ) , c2 = irv_real( "c" ); S s2( a2 , b2 , c2 );
    const double a3 = irv_real( "a" ) , b3 = irv_real( "b" ) , c3 = irv_real( "c" ); S s3( a3 , b3 , c3 );
    const double a4 = irv_real( "a" ) , b4 = irv_real( "b" ) , c4 = irv_real( "c" ); S s4( a4 , b4 , c4 );
    const double a5 = irv_real( "a" ) , b5 = irv_real( "b" ) , c5 = irv_real( "c" ); S s5( a5 , b5 , c5 );
    const double a6 = irv_real( "a" ) , b6 = irv_real( "b" ) , c6 = irv_real( "c" ); S s6( a6 , b6 , c6 );
    fusion_algebra::for_each6( s1 , s2 , s3 , s4 , s5 , s6 , Op6() );
    irv_assert( irv_eq( at_c< 0 >( s1 ) , irv_uf( "op" , 6 , a1 , a2 , a3 , a4 , a5 , a6 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 1 >( s1 ) , irv_uf( "op" , 6 , b1 , b2 , b3 , b4 , b5 , b6 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 2 >( s1 ) , irv_uf( "op" , 6 , c1 , c2 , c3 , c4 , c5 , c6 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 0 >( s2 ) , a2 ) & irv_eq( at_c< 1 >( s2 ) , b2 ) & irv_eq( at_c< 2 >( s2 ) , c2 ) & irv_eq( at_c< 0 >( s3 ) , a3 ) & irv_eq( at_c< 1 >( s3 ) , b3 ) & irv_eq( at_c< 2 >( s3 ) , c3 ) & irv_eq( at_c< 0 >( s4 ) , a4 ) & irv_eq( at_c< 1 >( s4 ) , b4 ) & irv_eq( at_c< 2 >( s4 ) , c4 ) & irv_eq( at_c< 0 >( s5 ) , a5 ) & irv_eq( at_c< 1 >( s5 ) , b5 ) & irv_eq( at_c< 2 >( s5 ) , c5 ) & irv_eq( at_c< 0 >( s6 ) , a6 ) & irv_eq( at_c< 1 >( s6 ) , b6 ) & irv_eq( at_c< 2 >( s6 ) , c6 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_fusion_for_each7 )
{
    typedef boost::fusion::vector< double , double , double > S; using boost::fusion::at_c;
    const double a1 = irv_real( "a" ) , b1 = irv_real( "b" ) , c1 = irv_real( "c" ); S s1( a1 , b1 , c1 );
    const double a2 = irv_real( "a" ) , b2 = irv_real( "b" ) , c2 = irv_real( "c" ); S s2( a2 , b2 , c2 );
    const double a3 = irv_real( "a" ) , b3 = irv_real( "b" ) , c3 = irv_real( "c" ); S s3( a3 , b3 , c3 );
    const double a4 = irv_real( "a" ) , b4 = irv_real( "b" ) , c4 = irv_real( "c" ); S s4( a4 , b4 , c4 );
    const double a5 = irv_real( "a" ) , b5 = irv_real( "b" ) , c5 = irv_real( "c" ); S s5( a5 , b5 , c5 );
    const double a6 = irv_real( "a" ) , b6 = irv_real( "b" ) , c6 = irv_real( "c" ); S s6( a6 , b6 , c6 );
    const double a7 = irv_real( "a" ) , b7 = irv_real( "b" ) , c7 = irv_real( "c" ); S s7( a7 , b7 , c7 );
    fusion_algebra::for_each7( s1 , s2 , s3 , s4 , s5 , s6 , s7 , Op7() );
    irv_assert( irv_eq( at_c< 0 >( s1 ) , irv_uf( "op" , 7 , a1 , a2 , a3 , a4 , a5 , a6 , a7 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 1 >( s1 ) , irv_uf( "op" , 7 , b1 , b2 , b3 , b4 , b5 , b6 , b7 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 2 >( s1 ) , irv_uf( "op" , 7 , c1 , c2 , c3 , c4 , c5 , c6 , c7 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 0 >( s2 ) , a2 ) & irv_eq( at_c< 1 >( s2 ) , b2 ) & irv_eq( at_c< 2 >( s2 ) , c2 ) & irv_eq( at_c< 0 >( s3 ) , a3 ) & irv_eq( at_c< 1 >( s3 ) , b3 ) & irv_eq( at_c< 2 >( s3 ) , c3 ) & irv_eq( at_c< 0 >( s4 ) , a4 ) & irv_eq( at_c< 1 >( s4 ) , b4 ) & irv_eq( at_c< 2 >( s4 ) , c4 ) & irv_eq( at_c< 0 >( s5 ) , a5 ) & irv_eq( at_c< 1 >( s5 ) , b5 ) & irv_eq( at_c< 2 >( s5 ) , c5 ) & irv_eq( at_c< 0 >( s6 ) , a6 ) & irv_eq( at_c< 1 >( s6 ) , b6 ) & irv_eq( at_c< 2 >( s6 ) , c6 ) & irv_eq( at_c< 0 >( s7 ) , a7 ) & irv_eq( at_c< 1 >( s7 ) , b7 ) & irv_eq( at_c< 2 >( s7 ) , c7 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_fusion_for_each8 )
{
    typedef boost::fusion::vector< double , double , double > S; using boost::fusion::at_c;
    const double a1 = irv_real( "a" ) , b1 = irv_real( "b" ) , c1 = irv_real( "c" ); S s1( a1 , b1 , c1 );
    const double a2 = irv_real( "a" ) , b2 = irv_real( "b" ) , c2 = irv_real( "c" ); S s2( a2 , b2 , c2 );
    const double a3 = irv_real( "a" ) , b3 = irv_real( "b" ) , c3 = irv_real( "c" ); S s3( a3 , b3 , c3 );
    const double a4 = irv_real( "a" ) , b4 = irv_real( "b" ) , c4 = irv_real( "c" ); S s4( a4 , b4 , c4 );
    const double a5 = irv_real( "a" ) , b5 = irv_real( "b" ) , c5 = irv_real( "c" ); S s5( a5 , b5 , c5 );
    const double a6 = irv_real( "a" ) , b6 = irv_real( "b" ) , c6 = irv_real( "c" ); S s6( a6 , b6 , c6 );
    const double a7 = irv_real( "a" ) , b7 = irv_real( "b" ) , c7 = irv_real( "c" ); S s7( a7 , b7 , c7 );
    const double a8 = irv_real( "a" ) , b8 = irv_real( "b" ) , c8 = irv_real( "c" ); S s8( a8 , b8 , c8 );
    fusion_algebra::for_each8( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , Op8() );
    irv_assert( irv_eq( at_c< 0 >( s1 ) , irv_uf( "op" , 8 , a1 , a2 , a3 , a4 , a5 , a6 , a7 , a8 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 1 >( s1 ) , irv_uf( "op" , 8 , b1 , b2 , b3 , b4 , b5 , b6 , b7 , b8 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 2 >( s1 ) , irv_uf( "op" , 8 , c1 , c2 , c3 , c4 , c5 , c6 , c7 , c8 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 0 >( s2 ) , a2 ) & irv_eq( at_c< 1 >( s2 ) , b2 ) & irv_eq( at_c< 2 >( s2 ) , c2 ) & irv_eq( at_c< 0 >( s3 ) , a3 ) & irv_eq( at_c< 1 >( s3 ) , b3 ) & irv_eq( at_c< 2 >( s3 ) , c3 ) & irv_eq( at_c< 0 >( s4 ) , a4 ) & irv_eq( at_c< 1 >( s4 ) , b4 ) & irv_eq( at_c< 2 >( s4 ) , c4 ) & irv_eq( at_c< 0 >( s5 ) , a5 ) & irv_eq( at_c< 1 >( s5 ) , b5 ) & irv_eq( at_c< 2 >( s5 ) , c5 ) & irv_eq( at_c< 0 >( s6 ) , a6 ) & irv_eq( at_c< 1 >( s6 ) , b6 ) & irv_eq( at_c< 2 >( s6 ) , c6 ) & irv_eq( at_c< 0 >( s7 ) , a7 ) & irv_eq( at_c< 1 >( s7 ) , b7 ) & irv_eq( at_c< 2 >( s7 ) , c7 ) & irv_eq( at_c< 0 >( s8 ) , a8 ) & irv_eq( at_c< 1 >( s8 ) , b8 ) & irv_eq( at_c< 2 >( s8 ) , c8 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_fusion_for_each9 )
{
    typedef boost::fusion::vector< double , double , double > S; using boost::fusion::at_c;
    const double a1 = irv_real( "a" ) , b1 = irv_real( "b" ) , c1 = irv_real( "c" ); S s1( a1 , b1 , c1 );
    const double a2 = irv_real( "a" ) , b2 = irv_real( "b" ) , c2 = irv_real( "c" ); S s2( a2 , b2 , c2 );
    const double a3 = irv_real( "a" ) , b3 = irv_real( "b" ) , c3 = irv_real( "c" ); S s3( a3 , b3 , c3 );
    const double a4 = irv_real( "a" ) , b4 = irv_real( "b" ) , c4 = irv_real( "c" ); S s4( a4 , b4 , c4 );
    const double a5 = irv_real( "a" ) , b5 = irv_real( "b" ) , c5 = irv_real( "c" ); S s5( a5 , b5 , c5 );
    const double a6 = irv_real( "a" ) , b6 = irv_real( "b" ) , c6 = irv_real( "c" ); S s6( a6 , b6 , c6 );
    const double a7 = irv_real( "a" ) , b7 = irv_real( "b" ) , c7 = irv_real( "c" ); S s7( a7 , b7 , c7 );
    const double a8 = irv_real( "a" ) , b8 = irv_real( "b" ) , c8 = irv_real( "c" ); S s8( a8 , b8 , c8 );
    const double a9 = irv_real( "a" ) , b9 = irv_real( "b" ) , c9 = irv_real( "c" ); S s9( a9 , b9 , c9 );
    fusion_algebra::for_each9( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , Op9() );
    irv_assert( irv_eq( at_c< 0 >( s1 ) , irv_uf( "op" , 9 , a1 , a2 , a3 , a4 , a5 , a6 , a7 , a8 , a9 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 1 >( s1 ) , irv_uf( "op" , 9 , b1 , b2 , b3 , b4 , b5 , b6 , b7 , b8 , b9 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 2 >( s1 ) , irv_uf( "op" , 9 , c1 , c2 , c3 , c4 , c5 , c6 , c7 , c8 , c9 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 0 >( s2 ) , a2 ) & irv_eq( at_c< 1 >( s2 ) , b2 ) & irv_eq( at_c< 2 >( s2 ) , c2 ) & irv_eq( at_c< 0 >( s3 ) , a3 ) & irv_eq( at_c< 1 >( s3 ) , b3 ) & irv_eq( at_c< 2 >( s3 ) , c3 ) & irv_eq( at_c< 0 >( s4 ) , a4 ) & irv_eq( at_c< 1 >( s4 ) , b4 ) & irv_eq( at_c< 2 >( s4 ) , c4 ) & irv_eq( at_c< 0 >( s5 ) , a5 ) & irv_eq( at_c< 1 >( s5 ) , b5 ) & irv_eq( at_c< 2 >( s5 ) , c5 ) & irv_eq( at_c< 0 >( s6 ) , a6 ) & irv_eq( at_c< 1 >( s6 ) , b6 ) & irv_eq( at_c< 2 >( s6 ) , c6 ) & irv_eq( at_c< 0 >( s7 ) , a7 ) & irv_eq( at_c< 1 >( s7 ) , b7 ) & irv_eq( at_c< 2 >( s7 ) , c7 ) & irv_eq( at_c< 0 >( s8 ) , a8 ) & irv_eq( at_c< 1 >( s8 ) , b8 ) & irv_eq( at_c< 2 >( s8 ) , c8 ) & irv_eq( at_c< 0 >( s9 ) , a9 ) & irv_eq( at_c< 1 >( s9 ) , b9 ) & irv_eq( at_c< 2 >( s9 ) , c9 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_fusion_for_each10 )
{
    typedef boost::fusion::vector< double , double , double > S; using boost::fusion::at_c;
    const double a1 = irv_real( "a" ) , b1 = irv_real( "b" ) , c1 = irv_real( "c" ); S s1( a1 , b1 , c1 );
    const double a2 = irv_real( "a" ) , b2 = irv_real( "b" ) , c2 = irv_real( "c" ); S s2( a2 , b2 , c2 );
    const double a3 = irv_real( "a" ) , b3 = irv_real( "b" ) , c3 = irv_real( "c" ); S s3( a3 , b3 , c3 );
    const double a4 = irv_real( "a" ) , b4 = irv_real( "b" ) , c4 = irv_real( "c" ); S s4( a4 , b4 , c4 );
    const double a5 = irv_real( "a" ) , b5 = irv_real( "b" ) , c5 = irv_real( "c" ); S s5( a5 , b5 , c5 );
    const double a6 = irv_real( "a" ) , b6 = irv_real( "b" ) , c6 = irv_real( "c" ); S s6( a6 , b6 , c6 );
    const double a7 = irv_real( "a" ) , b7 = irv_real( "b" ) , c7 = irv_real( "c" ); S s7( a7 , b7 , c7 );
    const double a8 = irv_real( "a" ) , b8 = irv_real( "b" ) , c8 = irv_real( "c" ); S s8( a8 , b8 , c8 );
    const double a9 = irv_real( "a" ) , b9 = irv_real( "b" ) , c9 = irv_real( "c" ); S s9( a9 , b9 , c9 );
    const double a10 = irv_real( "a" ) , b10 = irv_real( "b" ) , c10 = irv_real( "c" ); S s10( a10 , b10 , c10 );
    fusion_algebra::for_each10( s1 , s2 , s3 , s4 , s5 , s6 , s7 , s8 , s9 , s10 , Op10() );
    irv_assert( irv_eq( at_c< 0 >( s1 ) , irv_uf( "op" , 10 , a1 , a2 , a3 , a4 , a5 , a6 , a7 , a8 , a9 , a10 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 1 >( s1 ) , irv_uf( "op" , 10 , b1 , b2 , b3 , b4 , b5 , b6 , b7 , b8 , b9 , b10 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 2 >( s1 ) , irv_uf( "op" , 10 , c1 , c2 , c3 , c4 , c5 , c6 , c7 , c8 , c9 , c10 ) ) , "the operation is applied once to every element, in matching positions" );
    irv_assert( irv_eq( at_c< 0 >( s2 ) , a2 ) & irv_eq( at_c< 1 >( s2 ) , b2 ) & irv_eq( at_c< 2 >( s2 ) , c2 ) & irv_eq( at_c< 0 >( s3 ) , a3 ) & irv_eq( at_c< 1 >( s3 ) , b3 ) & irv_eq( at_c< 2 >( s3 ) , c3 ) & irv_eq( at_c< 0 >( s4 ) , a4 ) & irv_eq( at_c< 1 >( s4 ) , b4 ) & irv_eq( at_c< 2 >( s4 ) , c4 ) & irv_eq( at_c< 0 >( s5 ) , a5 ) & irv_eq( at_c< 1 >( s5 ) , b5 ) & irv_eq( at_c< 2 >( s5 ) , c5 ) & irv_eq( at_c< 0 >( s6 ) , a6 ) & irv_eq( at_c< 1 >( s6 ) , b6 ) & irv_eq( at_c< 2 >( s6 ) , c6 ) & irv_eq( at_c< 0 >( s7 ) , a7 ) & irv_eq( at_c< 1 >( s7 ) , b7 ) & irv_eq( at_c< 2 >( s7 ) , c7 ) & irv_eq( at_c< 0 >( s8 ) , a8 ) & irv_eq( at_c< 1 >( s8 ) , b8 ) & irv_eq( at_c< 2 >( s8 ) , c8 ) & irv_eq( at_c< 0 >( s9 ) , a9 ) & irv_eq( at_c< 1 >( s9 ) , b9 ) & irv_eq( at_c< 2 >( s9 ) , c9 ) & irv_eq( at_c< 0 >( s10 ) , a10 ) & irv_eq( at_c< 1 >( s10 ) , b10 ) & irv_eq( at_c< 2 >( s10 ) , c10 ) , "inputs unmodified" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_fusion_norm )
{
    const double a = irv_real( "a" ) , b = irv_real( "b" ) , c = irv_real( "c" ); boost::fusion::vector< double , double , double > s( a , b , c ); double m = 0 , x = dabs( a ) , y = dabs( b ) , z = dabs( c ); m = m < x ? x : m; m = m < y ? y : m; m = m < z ? z : m;
    irv_assert( irv_eq( fusion_algebra::norm_inf( s ) , m ) , "norm is the largest absolute value over all elements" ); irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum1 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 , o1 = t1;
    default_operations::scale_sum1< double > op( a1 );
    op( out , t1 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) , "inputs unmodified" );
    op( t1 , t1 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum2 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 , o1 = t1 , o2 = t2;
    default_operations::scale_sum2< double , double > op( a1 , a2 );
    op( out , t1 , t2 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) , "inputs unmodified" );
    op( t1 , t1 , t2 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum3 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , a3 = irv_real( "alpha" ) , t3 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 + a3 * t3 , o1 = t1 , o2 = t2 , o3 = t3;
    default_operations::scale_sum3< double , double , double > op( a1 , a2 , a3 );
    op( out , t1 , t2 , t3 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) & irv_eq( t3 , o3 ) , "inputs unmodified" );
    op( t1 , t1 , t2 , t3 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 , t3 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    op( t3 , t1 , t2 , t3 ); irv_assert( irv_eq( t3 , sum ) , "linear combination written over input 3" ); t3 = o3;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum4 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , a3 = irv_real( "alpha" ) , t3 = irv_real( "t" ) , a4 = irv_real( "alpha" ) , t4 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 + a3 * t3 + a4 * t4 , o1 = t1 , o2 = t2 , o3 = t3 , o4 = t4;
    default_operations::scale_sum4< double , double , double , double > op( a1 , a2 , a3 , a4 );
    op( out , t1 , t2 , t3 , t4 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) & irv_eq( t3 , o3 ) & irv_eq( t4 , o4 ) , "inputs unmodified" );
    op( t1 , t1 , t2 , t3 , t4 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 , t3 , t4 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    op( t3 , t1 , t2 , t3 , t4 ); irv_assert( irv_eq( t3 , sum ) , "linear combination written over input 3" ); t3 = o3;
    op( t4 , t1 , t2 , t3 , t4 ); irv_assert( irv_eq( t4 , sum ) , "linear combination written over input 4" ); t4 = o4;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum5 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , a3 = irv_real( "alpha" ) , t3 = irv_real( "t" ) , a4 = irv_real( "alpha" ) , t4 = irv_real( "t" ) , a5 = irv_real( "alpha" ) , t5 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 + a3 * t3 + a4 * t4 + a5 * t5 , o1 = t1 , o2 = t2 , o3 = t3 , o4 = t4 , o5 = t5;
    default_operations::scale_sum5< double , double , double , double , double > op( a1 , a2 , a3 , a4 , a5 );
    op( out , t1 , t2 , t3 , t4 , t5 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) & irv_eq( t3 , o3 ) & irv_eq( t4 , o4 ) & irv_eq( t5 , o5 ) , "inputs unmodified" );
    op( t1 , t1 , t2 , t3 , t4 , t5 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 , t3 , t4 , t5 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    op( t3 , t1 , t2 , t3 , t4 , t5 ); irv_assert( irv_eq( t3 , sum ) , "linear combination written over input 3" ); t3 = o3;
    op( t4 , t1 , t2 , t3 , t4 , t5 ); irv_assert( irv_eq( t4 , sum ) , "linear combination written over input 4" ); t4 = o4;
    op( t5 , t1 , t2 , t3 , t4 , t5 ); irv_assert( irv_eq( t5 , sum ) , "linear combination written over input 5" ); t5 = o5;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum6 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , a3 = irv_real( "alpha" ) , t3 = irv_real( "t" ) , a4 = irv_real( "alpha" ) , t4 = irv_real( "t" ) , a5 = irv_real( "alpha" ) , t5 = irv_real( "t" ) , a6 = irv_real( "alpha" ) , t6 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 + a3 * t3 + a4 * t4 + a5 * t5 + a6 * t6 , o1 = t1 , o2 = t2 , o3 = t3 , o4 = t4 , o5 = t5 , o6 = t6;
    default_operations::scale_sum6< double , double , double , double , double , double > op( a1 , a2 , a3 , a4 , a5 , a6 );
    op( out , t1 , t2 , t3 , t4 , t5 , t6 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) & irv_eq( t3 , o3 ) & irv_eq( t4 , o4 ) & irv_eq( t5 , o5 ) & irv_eq( t6 , o6 ) , "inputs unmodified" );
    op( t1 , t1 , t2 , t3 , t4 , t5 , t6 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 , t3 , t4 , t5 , t6 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    op( t3 , t1 , t2 , t3 , t4 , t5 , t6 ); irv_assert( irv_eq( t3 , sum ) , "linear combination written over input 3" ); t3 = o3;
    op( t4 , t1 , t2 , t3 , t4 , t5 , t6 ); irv_assert( irv_eq( t4 , sum ) , "linear combination written over input 4" ); t4 = o4;
    op( t5 , t1 , t2 , t3 , t4 , t5 , t6 ); irv_assert( irv_eq( t5 , sum ) , "linear combination written over input 5" ); t5 = o5;
    op( t6 , t1 , t2 , t3 , t4 , t5 , t6 ); irv_assert( irv_eq( t6 , sum ) , "linear combination written over input 6" ); t6 = o6;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum7 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , a3 = irv_real( "alpha" ) , t3 = irv_real( "t" ) , a4 = irv_real( "alpha" ) , t4 = irv_real( "t" ) , a5 = irv_real( "alpha" ) , t5 = irv_real( "t" ) , a6 = irv_real( "alpha" ) , t6 = irv_real( "t" ) , a7 = irv_real( "alpha" ) , t7 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 + a3 * t3 + a4 * t4 + a5 * t5 + a6 * t6 + a7 * t7 , o1 = t1 , o2 = t2 , o3 = t3 , o4 = t4 , o5 = t5 , o6 = t6 , o7 = t7;
    default_operations::scale_sum7< double , double , double , double , double , double , double > op( a1 , a2 , a3 , a4 , a5 , a6 , a7 );
    op( out , t1 , t2 , t3 , t4 , t5 , t6 , t7 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) & irv_eq( t3 , o3 ) & irv_eq( t4 , o4 ) & irv_eq( t5 , o5 ) & irv_eq( t6 , o6 ) & irv_eq( t7 , o7 ) , "inputs unmodified" );
    op( t1 , t1 , t2 , t3 , t4 , t5 , t6 , t7 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 , t3 , t4 , t5 , t6 , t7 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    op( t3 , t1 , t2 , t3 , t4 , t5 , t6 , t7 ); irv_assert( irv_eq( t3 , sum ) , "linear combination written over input 3" ); t3 = o3;
    op( t4 , t1 , t2 , t3 , t4 , t5 , t6 , t7 ); irv_assert( irv_eq( t4 , sum ) , "linear combination written over input 4" ); t4 = o4;
    op( t5 , t1 , t2 , t3 , t4 , t5 , t6 , t7 ); irv_assert( irv_eq( t5 , sum ) , "linear combination written over input 5" ); t5 = o5;
    op( t6 , t1 , t2 , t3 , t4 , t5 , t6 , t7 ); irv_assert( irv_eq( t6 , sum ) , "linear combination written over input 6" ); t6 = o6;
    op( t7 , t1 , t2 , t3 , t4 , t5 , t6 , t7 ); irv_assert( irv_eq( t7 , sum ) , "linear combination written over input 7" ); t7 = o7;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum8 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , a3 = irv_real( "alpha" ) , t3 = irv_real( "t" ) , a4 = irv_real( "alpha" ) , t4 = irv_real( "t" ) , a5 = irv_real( "alpha" ) , t5 = irv_real( "t" ) , a6 = irv_real( "alpha" ) , t6 = irv_real( "t" ) , a7 = irv_real( "alpha" ) , t7 = irv_real( "t" ) , a8 = irv_real( "alpha" ) , t8 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 + a3 * t3 + a4 * t4 + a5 * t5 + a6 * t6 + a7 * t7 + a8 * t8 , o1 = t1 , o2 = t2 , o3 = t3 , o4 = t4 , o5 = t5 , o6 = t6 , o7 = t7 , o8 = t8;
    default_operations::scale_sum8< double , double , double , double , double , double , double , double > op( a1 , a2 , a3 , a4 , a5 , a6 , a7 , a8 );
    op( out , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) & irv_eq( t3 , o3 ) & irv_eq( t4 , o4 ) & irv_eq( t5 , o5 ) & irv_eq( t6 , o6 ) & irv_eq( t7 , o7 ) & irv_eq( t8 , o8 ) , "inputs unmodified" );
    op( t1 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    op( t3 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 ); irv_assert( irv_eq( t3 , sum ) , "linear combination written over input 3" ); t3 = o3;
    op( t4 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 ); irv_assert( irv_eq( t4 , sum ) , "linear combination written over input 4" ); t4 = o4;
    op( t5 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 ); irv_assert( irv_eq( t5 , sum ) , "linear combination written over input 5" ); t5 = o5;
    op( t6 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 ); irv_assert( irv_eq( t6 , sum ) , "linear combination written over input 6" ); t6 = o6;
    op( t7 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 ); irv_assert( irv_eq( t7 , sum ) , "linear combination written over input 7" ); t7 = o7;
    op( t8 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 ); irv_assert( irv_eq( t8 , sum ) , "linear combination written over input 8" ); t8 = o8;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum9 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , a3 = irv_real( "alpha" ) , t3 = irv_real( "t" ) , a4 = irv_real( "alpha" ) , t4 = irv_real( "t" ) , a5 = irv_real( "alpha" ) , t5 = irv_real( "t" ) , a6 = irv_real( "alpha" ) , t6 = irv_real( "t" ) , a7 = irv_real( "alpha" ) , t7 = irv_real( "t" ) , a8 = irv_real( "alpha" ) , t8 = irv_real( "t" ) , a9 = irv_real( "alpha" ) , t9 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 + a3 * t3 + a4 * t4 + a5 * t5 + a6 * t6 + a7 * t7 + a8 * t8 + a9 * t9 , o1 = t1 , o2 = t2 , o3 = t3 , o4 = t4 , o5 = t5 , o6 = t6 , o7 = t7 , o8 = t8 , o9 = t9;
    default_operations::scale_sum9< double , double , double , double , double , double , double , double , double > op( a1 , a2 , a3 , a4 , a5 , a6 , a7 , a8 , a9 );
    op( out , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) & irv_eq( t3 , o3 ) & irv_eq( t4 , o4 ) & irv_eq( t5 , o5 ) & irv_eq( t6 , o6 ) & irv_eq( t7 , o7 ) & irv_eq( t8 , o8 ) & irv_eq( t9 , o9 ) , "inputs unmodified" );
    op( t1 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    op( t3 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 ); irv_assert( irv_eq( t3 , sum ) , "linear combination written over input 3" ); t3 = o3;
    op( t4 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 ); irv_assert( irv_eq( t4 , sum ) , "linear combination written over input 4" ); t4 = o4;
    op( t5 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 ); irv_assert( irv_eq( t5 , sum ) , "linear combination written over input 5" ); t5 = o5;
    op( t6 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 ); irv_assert( irv_eq( t6 , sum ) , "linear combination written over input 6" ); t6 = o6;
    op( t7 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 ); irv_assert( irv_eq( t7 , sum ) , "linear combination written over input 7" ); t7 = o7;
    op( t8 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 ); irv_assert( irv_eq( t8 , sum ) , "linear combination written over input 8" ); t8 = o8;
    op( t9 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 ); irv_assert( irv_eq( t9 , sum ) , "linear combination written over input 9" ); t9 = o9;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum10 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , a3 = irv_real( "alpha" ) , t3 = irv_real( "t" ) , a4 = irv_real( "alpha" ) , t4 = irv_real( "t" ) , a5 = irv_real( "alpha" ) , t5 = irv_real( "t" ) , a6 = irv_real( "alpha" ) , t6 = irv_real( "t" ) , a7 = irv_real( "alpha" ) , t7 = irv_real( "t" ) , a8 = irv_real( "alpha" ) , t8 = irv_real( "t" ) , a9 = irv_real( "alpha" ) , t9 = irv_real( "t" ) , a10 = irv_real( "alpha" ) , t10 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 + a3 * t3 + a4 * t4 + a5 * t5 + a6 * t6 + a7 * t7 + a8 * t8 + a9 * t9 + a10 * t10 , o1 = t1 , o2 = t2 , o3 = t3 , o4 = t4 , o5 = t5 , o6 = t6 , o7 = t7 , o8 = t8 , o9 = t9 , o10 = t10;
    default_operations::scale_sum10< double , double , double , double , double , double , double , double , double , double > op( a1 , a2 , a3 , a4 , a5 , a6 , a7 , a8 , a9 , a10 );
    op( out , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) & irv_eq( t3 , o3 ) & irv_eq( t4 , o4 ) & irv_eq( t5 , o5 ) & irv_eq( t6 , o6 ) & irv_eq( t7 , o7 ) & irv_eq( t8 , o8 ) & irv_eq( t9 , o9 ) & irv_eq( t10 , o10 ) , "inputs unmodified" );
    op( t1 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    op( t3 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 ); irv_assert( irv_eq( t3 , sum ) , "linear combination written over input 3" ); t3 = o3;
    op( t4 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 ); irv_assert( irv_eq( t4 , sum ) , "linear combination written over input 4" ); t4 = o4;
    op( t5 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 ); irv_assert( irv_eq( t5 , sum ) , "linear combination written over input 5" ); t5 = o5;
    op( t6 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 ); irv_assert( irv_eq( t6 , sum ) , "linear combination written over input 6" ); t6 = o6;
    op( t7 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 ); irv_assert( irv_eq( t7 , sum ) , "linear combination written over input 7" ); t7 = o7;
    op( t8 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 ); irv_assert( irv_eq( t8 , sum ) , "linear combination written over input 8" ); t8 = o8;
    op( t9 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 ); irv_assert( irv_eq( t9 , sum ) , "linear combination written over input 9" ); t9 = o9;
    op( t10 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 ); irv_assert( irv_eq( t10 , sum ) , "linear combination written over input 10" ); t10 = o10;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum11 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , a3 = irv_real( "alpha" ) , t3 = irv_real( "t" ) , a4 = irv_real( "alpha" ) , t4 = irv_real( "t" ) , a5 = irv_real( "alpha" ) , t5 = irv_real( "t" ) , a6 = irv_real( "alpha" ) , t6 = irv_real( "t" ) , a7 = irv_real( "alpha" ) , t7 = irv_real( "t" ) , a8 = irv_real( "alpha" ) , t8 = irv_real( "t" ) , a9 = irv_real( "alpha" ) , t9 = irv_real( "t" ) , a10 = irv_real( "alpha" ) , t10 = irv_real( "t" ) , a11 = irv_real( "alpha" ) , t11 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 + a3 * t3 + a4 * t4 + a5 * t5 + a6 * t6 + a7 * t7 + a8 * t8 + a9 * t9 + a10 * t10 + a11 * t11 , o1 = t1 , o2 = t2 , o3 = t3 , o4 = t4 , o5 = t5 , o6 = t6 , o7 = t7 , o8 = t8 , o9 = t9 , o10 = t10 , o11 = t11;
    default_operations::scale_sum11< double , double , double , double , double , double , double , double , double , double , double > op( a1 , a2 , a3 , a4 , a5 , a6 , a7 , a8 , a9 , a10 , a11 );
    op( out , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) & irv_eq( t3 , o3 ) & irv_eq( t4 , o4 ) & irv_eq( t5 , o5 ) & irv_eq( t6 , o6 ) & irv_eq( t7 , o7 ) & irv_eq( t8 , o8 ) & irv_eq( t9 , o9 ) & irv_eq( t10 , o10 ) & irv_eq( t11 , o11 ) , "inputs unmodified" );
    op( t1 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    op( t3 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); irv_assert( irv_eq( t3 , sum ) , "linear combination written over input 3" ); t3 = o3;
    op( t4 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); irv_assert( irv_eq( t4 , sum ) , "linear combination written over input 4" ); t4 = o4;
    op( t5 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); irv_assert( irv_eq( t5 , sum ) , "linear combination written over input 5" ); t5 = o5;
    op( t6 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); irv_assert( irv_eq( t6 , sum ) , "linear combination written over input 6" ); t6 = o6;
    op( t7 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); irv_assert( irv_eq( t7 , sum ) , "linear combination written over input 7" ); t7 = o7;
    op( t8 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); irv_assert( irv_eq( t8 , sum ) , "linear combination written over input 8" ); t8 = o8;
    op( t9 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); irv_assert( irv_eq( t9 , sum ) , "linear combination written over input 9" ); t9 = o9;
    op( t10 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); irv_assert( irv_eq( t10 , sum ) , "linear combination written over input 10" ); t10 = o10;
    op( t11 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 ); irv_assert( irv_eq( t11 , sum ) , "linear combination written over input 11" ); t11 = o11;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum12 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , a3 = irv_real( "alpha" ) , t3 = irv_real( "t" ) , a4 = irv_real( "alpha" ) , t4 = irv_real( "t" ) , a5 = irv_real( "alpha" ) , t5 = irv_real( "t" ) , a6 = irv_real( "alpha" ) , t6 = irv_real( "t" ) , a7 = irv_real( "alpha" ) , t7 = irv_real( "t" ) , a8 = irv_real( "alpha" ) , t8 = irv_real( "t" ) , a9 = irv_real( "alpha" ) , t9 = irv_real( "t" ) , a10 = irv_real( "alpha" ) , t10 = irv_real( "t" ) , a11 = irv_real( "alpha" ) , t11 = irv_real( "t" ) , a12 = irv_real( "alpha" ) , t12 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 + a3 * t3 + a4 * t4 + a5 * t5 + a6 * t6 + a7 * t7 + a8 * t8 + a9 * t9 + a10 * t10 + a11 * t11 + a12 * t12 , o1 = t1 , o2 = t2 , o3 = t3 , o4 = t4 , o5 = t5 , o6 = t6 , o7 = t7 , o8 = t8 , o9 = t9 , o10 = t10 , o11 = t11 , o12 = t12;
    default_operations::scale_sum12< double , double , double , double , double , double , double , double , double , double , double , double > op( a1 , a2 , a3 , a4 , a5 , a6 , a7 , a8 , a9 , a10 , a11 , a12 );
    op( out , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) & irv_eq( t3 , o3 ) & irv_eq( t4 , o4 ) & irv_eq( t5 , o5 ) & irv_eq( t6 , o6 ) & irv_eq( t7 , o7 ) & irv_eq( t8 , o8 ) & irv_eq( t9 , o9 ) & irv_eq( t10 , o10 ) & irv_eq( t11 , o11 ) & irv_eq( t12 , o12 ) , "inputs unmodified" );
    op( t1 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    op( t3 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( t3 , sum ) , "linear combination written over input 3" ); t3 = o3;
    op( t4 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( t4 , sum ) , "linear combination written over input 4" ); t4 = o4;
    op( t5 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( t5 , sum ) , "linear combination written over input 5" ); t5 = o5;
    op( t6 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( t6 , sum ) , "linear combination written over input 6" ); t6 = o6;
    op( t7 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( t7 , sum ) , "linear combination written over input 7" ); t7 = o7;
    op( t8 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( t8 , sum ) , "linear combination written over input 8" ); t8 = o8;
    op( t9 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( t9 , sum ) , "linear combination written over input 9" ); t9 = o9;
    op( t10 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( t10 , sum ) , "linear combination written over input 10" ); t10 = o10;
    op( t11 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( t11 , sum ) , "linear combination written over input 11" ); t11 = o11;
    op( t12 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 ); irv_assert( irv_eq( t12 , sum ) , "linear combination written over input 12" ); t12 = o12;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum13 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , a3 = irv_real( "alpha" ) , t3 = irv_real( "t" ) , a4 = irv_real( "alpha" ) , t4 = irv_real( "t" ) , a5 = irv_real( "alpha" ) , t5 = irv_real( "t" ) , a6 = irv_real( "alpha" ) , t6 = irv_real( "t" ) , a7 = irv_real( "alpha" ) , t7 = irv_real( "t" ) , a8 = irv_real( "alpha" ) , t8 = irv_real( "t" ) , a9 = irv_real( "alpha" ) , t9 = irv_real( "t" ) , a10 = irv_real( "alpha" ) , t10 = irv_real( "t" ) , a11 = irv_real( "alpha" ) , t11 = irv_real( "t" ) , a12 = irv_real( "alpha" ) , t12 = irv_real( "t" ) , a13 = irv_real( "alpha" ) , t13 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 + a3 * t3 + a4 * t4 + a5 * t5 + a6 * t6 + a7 * t7 + a8 * t8 + a9 * t9 + a10 * t10 + a11 * t11 + a12 * t12 + a13 * t13 , o1 = t1 , o2 = t2 , o3 = t3 , o4 = t4 , o5 = t5 , o6 = t6 , o7 = t7 , o8 = t8 , o9 = t9 , o10 = t10 , o11 = t11 , o12 = t12 , o13 = t13;
    default_operations::scale_sum13< double , double , double , double , double , double , double , double , double , double , double , double , double > op( a1 , a2 , a3 , a4 , a5 , a6 , a7 , a8 , a9 , a10 , a11 , a12 , a13 );
    op( out , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) & irv_eq( t3 , o3 ) & irv_eq( t4 , o4 ) & irv_eq( t5 , o5 ) & irv_eq( t6 , o6 ) & irv_eq( t7 , o7 ) & irv_eq( t8 , o8 ) & irv_eq( t9 , o9 ) & irv_eq( t10 , o10 ) & irv_eq( t11 , o11 ) & irv_eq( t12 , o12 ) & irv_eq( t13 , o13 ) , "inputs unmodified" );
    op( t1 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    op( t3 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t3 , sum ) , "linear combination written over input 3" ); t3 = o3;
    op( t4 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t4 , sum ) , "linear combination written over input 4" ); t4 = o4;
    op( t5 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t5 , sum ) , "linear combination written over input 5" ); t5 = o5;
    op( t6 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t6 , sum ) , "linear combination written over input 6" ); t6 = o6;
    op( t7 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t7 , sum ) , "linear combination written over input 7" ); t7 = o7;
    op( t8 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t8 , sum ) , "linear combination written over input 8" ); t8 = o8;
    op( t9 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t9 , sum ) , "linear combination written over input 9" ); t9 = o9;
    op( t10 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t10 , sum ) , "linear combination written over input 10" ); t10 = o10;
    op( t11 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t11 , sum ) , "linear combination written over input 11" ); t11 = o11;
    op( t12 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t12 , sum ) , "linear combination written over input 12" ); t12 = o12;
    op( t13 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 ); irv_assert( irv_eq( t13 , sum ) , "linear combination written over input 13" ); t13 = o13;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale_sum14 )
{
    double a1 = irv_real( "alpha" ) , t1 = irv_real( "t" ) , a2 = irv_real( "alpha" ) , t2 = irv_real( "t" ) , a3 = irv_real( "alpha" ) , t3 = irv_real( "t" ) , a4 = irv_real( "alpha" ) , t4 = irv_real( "t" ) , a5 = irv_real( "alpha" ) , t5 = irv_real( "t" ) , a6 = irv_real( "alpha" ) , t6 = irv_real( "t" ) , a7 = irv_real( "alpha" ) , t7 = irv_real( "t" ) , a8 = irv_real( "alpha" ) , t8 = irv_real( "t" ) , a9 = irv_real( "alpha" ) , t9 = irv_real( "t" ) , a10 = irv_real( "alpha" ) , t10 = irv_real( "t" ) , a11 = irv_real( "alpha" ) , t11 = irv_real( "t" ) , a12 = irv_real( "alpha" ) , t12 = irv_real( "t" ) , a13 = irv_real( "alpha" ) , t13 = irv_real( "t" ) , a14 = irv_real( "alpha" ) , t14 = irv_real( "t" ) , out = irv_real( "old" );
    const double sum = a1 * t1 + a2 * t2 + a3 * t3 + a4 * t4 + a5 * t5 + a6 * t6 + a7 * t7 + a8 * t8 + a9 * t9 + a10 * t10 + a11 * t11 + a12 * t12 + a13 * t13 + a14 * t14 , o1 = t1 , o2 = t2 , o3 = t3 , o4 = t4 , o5 = t5 , o6 = t6 , o7 = t7 , o8 = t8 , o9 = t9 , o10 = t10 , o11 = t11 , o12 = t12 , o13 = t13 , o14 = t14;
    default_operations::scale_sum14< double , double , double , double , double , double , double , double , double , double , double , double , double , double > op( a1 , a2 , a3 , a4 , a5 , a6 , a7 , a8 , a9 , a10 , a11 , a12 , a13 , a14 );
    op( out , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( irv_eq( t1 , o1 ) & irv_eq( t2 , o2 ) & irv_eq( t3 , o3 ) & irv_eq( t4 , o4 ) & irv_eq( t5 , o5 ) & irv_eq( t6 , o6 ) & irv_eq( t7 , o7 ) & irv_eq( t8 , o8 ) & irv_eq( t9 , o9 ) & irv_eq( t10 , o10 ) & irv_eq( t11 , o11 ) & irv_eq( t12 , o12 ) & irv_eq( t13 , o13 ) & irv_eq( t14 , o14 ) , "inputs unmodified" );
    op( t1 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t1 , sum ) , "linear combination written over input 1" ); t1 = o1;
    op( t2 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t2 , sum ) , "linear combination written over input 2" ); t2 = o2;
    op( t3 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t3 , sum ) , "linear combination written over input 3" ); t3 = o3;
    op( t4 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t4 , sum ) , "linear combination written over input 4" ); t4 = o4;
    op( t5 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t5 , sum ) , "linear combination written over input 5" ); t5 = o5;
    op( t6 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t6 , sum ) , "linear combination written over input 6" ); t6 = o6;
    op( t7 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t7 , sum ) , "linear combination written over input 7" ); t7 = o7;
    op( t8 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t8 , sum ) , "linear combination written over input 8" ); t8 = o8;
    op( t9 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t9 , sum ) , "linear combination written over input 9" ); t9 = o9;
    op( t10 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t10 , sum ) , "linear combination written over input 10" ); t10 = o10;
    op( t11 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t11 , sum ) , "linear combination written over input 11" ); t11 = o11;
    op( t12 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t12 , sum ) , "linear combination written over input 12" ); t12 = o12;
    op( t13 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t13 , sum ) , "linear combination written over input 13" ); t13 = o13;
    op( t14 , t1 , t2 , t3 , t4 , t5 , t6 , t7 , t8 , t9 , t10 , t11 , t12 , t13 , t14 ); irv_assert( irv_eq( t14 , sum ) , "linear combination written over input 14" ); t14 = o14;
    irv_cover( "end" );
}
IRV_HARNESS( C19_scale )
{ double a = irv_real( "a" ) , t = irv_real( "t" ); const double o = t; default_operations::scale< double > op( a ); op( t ); irv_assert( irv_eq( t , a * o ) , "scale" ); irv_cover( "end" ); }
IRV_HARNESS( C19_scale_sum_swap2 )
{ double a = irv_real( "a" ) , b = irv_real( "b" ) , x = irv_real( "x" ) , y = irv_real( "y" ) , z = irv_real( "z" ); const double X = x , Y = y , Z = z; default_operations::scale_sum_swap2< double , double > op( a , b ); op( x , y , z );
  irv_assert( irv_eq( x , a * Y + b * Z ) & irv_eq( y , X ) & irv_eq( z , Z ) , "linear combination and swap" );
  double p = X , q = Y; op( p , q , q ); irv_assert( irv_eq( p , a * Y + b * Y ) & irv_eq( q , X ) , "linear combination and swap, third argument aliasing the second" );
  p = X; q = Y; op( p , q , p ); irv_assert( irv_eq( p , a * Y + b * X ) & irv_eq( q , X ) , "linear combination and swap, third argument aliasing the first" ); irv_cover( "end" ); }
static double mx( double a , double b ) { return a < b ? b : a; }
IRV_HARNESS( C19_rel_error )
{
    double ea = irv_real( "eps_abs" ) , er = irv_real( "eps_rel" ) , ax = irv_real( "a_x" ) , ad = irv_real( "a_dxdt" ) , e = irv_real( "err" ) , x = irv_real( "x" ) , d = irv_real( "dxdt" ) , y = irv_real( "y" ) , r = irv_real( "r" ); irv_assume( ( ea > 0 ) & ( er >= 0 ) & ( ax >= 0 ) & ( ad >= 0 ) );
    const double E = e; default_operations::rel_error< double > op( ea , er , ax , ad ); op( e , x , d ); const double s = dabs( E ) / ( ea + er * ( ax * dabs( x ) + ad * dabs( d ) ) );
    irv_assert( irv_eq( e , s ) , "rel_error" );
    const double q = dabs( E ) / ( ea + er * mx( dabs( x ) , dabs( y ) ) );
    e = E; default_operations::default_rel_error< double > o2( ea , er ); o2( e , x , y ); irv_assert( irv_eq( e , q ) , "default_rel_error" );
    default_operations::rel_error_max< double > o3( ea , er ); irv_assert( irv_eq( o3( r , x , y , E ) , mx( r , q ) ) , "rel_error_max" );
    default_operations::rel_error_max2< double > o4( ea , er , ax , ad ); irv_assert( irv_eq( o4( r , x , y , d , E ) , mx( r , s ) ) , "rel_error_max2" );
    default_operations::rel_error_l2< double > o5( ea , er ); irv_assert( irv_eq( o5( r , x , y , E ) , r + q * q ) , "rel_error_l2" );
    default_operations::rel_error_l2_2< double > o6( ea , er , ax , ad ); irv_assert( irv_eq( o6( r , x , y , d , E ) , r + s * s ) , "rel_error_l2_2" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_maximum )
{ double a = irv_real( "a" ) , b = irv_real( "b" ); default_operations::maximum< double > op; irv_assert( irv_eq( op( a , b ) , mx( dabs( a ) , dabs( b ) ) ) , "maximum of absolute values" ); irv_cover( "end" ); }

