# writes proofs/algebra.cpp (C19): one harness per algebra and arity
o=[]
w=o.append
w('''// C19: algebras and operations.  Written by tools/gen_algebra.py.
#include <utility>
#include <vector>
#include <boost/array.hpp>
#include <boost/fusion/container/vector.hpp>
#include <boost/fusion/include/at_c.hpp>
#include <boost/fusion/include/is_sequence.hpp>
#include <boost/fusion/include/size.hpp>
#include <boost/numeric/odeint/util/unit_helper.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#include <boost/range/iterator_range.hpp>
#include "irv.h"
using namespace boost::numeric::odeint;
static double dabs( double x ) { return __builtin_fabs( x ); }
// contiguous storage of any length with arbitrary contents
static double* mem( long n ) { double *p = new double[ n ]; if( irv_native() ) for( long i = 0 ; i < n ; ++i ) p[i] = irv_real( "element" ); return p; }
struct Rng { typedef double value_type; typedef double* iterator; typedef const double* const_iterator; double *p; long n; iterator begin() { return p; } iterator end() { return p + n; } const_iterator begin() const { return p; } const_iterator end() const { return p + n; } };
struct Multi { typedef double value_type; typedef double element; double *p; long n; double* data() { return p; } const double* data() const { return p; } long num_elements() const { return n; } };
''')
for N in range(1,16):
    ts=' , '.join('double &t%d'%i if i==1 else 'const double &t%d'%i for i in range(1,N+1))
    w('struct Op%d { typedef void result_type; void operator()( %s ) const { t1 = irv_uf( "op" , %d , %s ); } };'%(N,ts,N,' , '.join('t%d'%i for i in range(1,N+1))))
def body(alg,N,decl,arg,get,n='n'):
    L=[]
    return L
# symbolic length containers
for alg,ty,tag in (('range_algebra','Rng','range'),('multi_array_algebra','Multi','multi_array')):
    for N in range(1,16):
        L=['IRV_HARNESS( C19_%s_for_each%d )'%(tag,N),'{','    long n = irv_nat( "n" , 0 , 5 ) , i = irv_nat( "i" , 0 , 5 );']
        for j in range(1,N+1): L.append('    %s s%d; s%d.p = mem( n ); s%d.n = n;'%(ty,j,j,j))
        L.append('    if( n == 0 ) { %s::for_each%d( %s , Op%d() ); irv_cover( "empty" ); return; }'%(alg,N,' , '.join('s%d'%j for j in range(1,N+1)),N))
        L.append('    irv_assume( i < n );')
        L.append('    const double %s;'%' , '.join('o%d = s%d.p[i]'%(j,j) for j in range(1,N+1)))
        L.append('    %s::for_each%d( %s , Op%d() );'%(alg,N,' , '.join('s%d'%j for j in range(1,N+1)),N))
        L.append('    irv_assert( irv_eq( s1.p[i] , irv_uf( "op" , %d , %s ) ) , "the operation is applied once to every element, in matching positions" );'%(N,' , '.join('o%d'%j for j in range(1,N+1))))
        if N>1: L.append('    irv_assert( %s , "inputs unmodified" );'%' & '.join('irv_eq( s%d.p[i] , o%d )'%(j,j) for j in range(2,N+1)))
        L.append('    irv_cover( "end" );'); L.append('}')
        w('\n'.join(L))
    # aliasing
    w('''IRV_HARNESS( C19_%s_alias )
{
    long n = irv_nat( "n" , 1 , 5 ) , i = irv_nat( "i" , 0 , 4 ); irv_assume( i < n );
    %s a , b; a.p = mem( n ); a.n = n; b.p = mem( n ); b.n = n; const double x = a.p[i] , y = b.p[i];
    %s::for_each3( a , a , b , Op3() ); const double z = irv_uf( "op" , 3 , x , x , y );
    irv_assert( irv_eq( a.p[i] , z ) & irv_eq( b.p[i] , y ) , "output aliasing the second argument" );
    %s::for_each3( a , b , a , Op3() );
    irv_assert( irv_eq( a.p[i] , irv_uf( "op" , 3 , z , y , z ) ) & irv_eq( b.p[i] , y ) , "output aliasing the third argument" );
    irv_cover( "end" );
}'''%(tag,ty,alg,alg))
    w('''IRV_HARNESS( C19_%s_norm_bound )
{
    g_n = irv_nat( "n" , 0 , 5 ); g_i = irv_nat( "i" , 0 , 4 ); %s s; s.p = g_p = mem( g_n ); s.n = g_n;
    double r = %s::norm_inf( s );
    irv_assert( r >= 0 , "norm is not negative" );
    irv_assert( ( g_n > 0 ) | irv_eq( r , 0.0 ) , "norm of an empty container is zero" );
    if( g_i < g_n ) irv_assert( r >= dabs( g_p[ g_i ] ) , "norm is an upper bound of every element's absolute value" );
    irv_cover( "end" );
}'''%(tag,ty,alg))
i=[k for k,x in enumerate(o) if x.startswith('IRV_HARNESS')][0]
o.insert(i,'''static long g_n , g_i; static double *g_p;
extern "C" bool irv_inv_bound( double a , long k ) { if( ( g_i >= g_n ) | ( k <= g_i ) ) return a >= 0; return ( a >= 0 ) & ( a >= dabs( g_p[ g_i ] ) ); }
extern "C" bool irv_inv_nonneg( double a ) { return a >= 0; }
// an abstract sequence: element k is an arbitrary number; the ghost variable holds the largest absolute value read so far
static double g_max; static long g_pos;
struct It
{
    typedef std::forward_iterator_tag iterator_category; typedef double value_type; typedef long difference_type; typedef const double* pointer; typedef double reference;
    long pos;
    double operator*() const { irv_assert( ( pos >= 0 ) & ( pos < g_n ) , "no element outside the sequence is read" ); double v = irv_uf( "seq" , 1 , (double) pos ); double a = dabs( v ); g_max = g_max < a ? a : g_max; return v; }
    It& operator++() { ++pos; return *this; } It operator++( int ) { It r = *this; ++pos; return r; }
    bool operator==( const It &o ) const { return pos == o.pos; } bool operator!=( const It &o ) const { return pos != o.pos; }
};
extern "C" bool irv_inv_max( double a ) { return irv_eq( a , g_max ); }
IRV_HARNESS( C19_range_norm )
{
    g_n = irv_nat( "n" , 0 , 6 ); g_max = 0; g_i = 0; It b = { 0 } , e = { g_n };
    double r = range_algebra::norm_inf( boost::iterator_range< It >( b , e ) );
    irv_assert( irv_eq( r , g_max ) , "norm is the largest absolute value over all elements" );
    irv_cover( "end" );
}''')
# static arrays
for D in (1,2,3,5):
    for N in range(1,16):
        L=['IRV_HARNESS( C19_array%d_for_each%d )'%(D,N),'{','    typedef boost::array< double , %d > A; A %s;'%(D,' , '.join('s%d , o%d'%(j,j) for j in range(1,N+1)))]
        for j in range(1,N+1): L.append('    for( int c = 0 ; c < %d ; ++c ) s%d[c] = o%d[c] = irv_real( "element" );'%(D,j,j))
        L.append('    array_algebra::for_each%d( %s , Op%d() );'%(N,' , '.join('s%d'%j for j in range(1,N+1)),N))
        L.append('    bool a = true , b = true; for( int c = 0 ; c < %d ; ++c ) { a = a & irv_eq( s1[c] , irv_uf( "op" , %d , %s ) );%s }'%(D,N,' , '.join('o%d[c]'%j for j in range(1,N+1)),' b = b & %s;'%' & '.join('irv_eq( s%d[c] , o%d[c] )'%(j,j) for j in range(2,N+1)) if N>1 else ''))
        L.append('    irv_assert( a , "the operation is applied once to every element, in matching positions" ); irv_assert( b , "inputs unmodified" ); irv_cover( "end" );'); L.append('}')
        w('\n'.join(L))
    w('''IRV_HARNESS( C19_array%d_norm )
{
    boost::array< double , %d > s; double m = 0; for( int c = 0 ; c < %d ; ++c ) { s[c] = irv_real( "element" ); double a = dabs( s[c] ); m = m < a ? a : m; }
    irv_assert( irv_eq( array_algebra::norm_inf( s ) , m ) , "norm is the largest absolute value over all elements" ); irv_cover( "end" );
}'''%(D,D,D))
# non const second argument (used by scale_sum_swap2)
w('''struct Swap { template< class A , class B , class C > void operator()( A &a , B &b , const C &c ) const { const double x = a; a = irv_uf( "op" , 2 , b , c ); b = x; } };
IRV_HARNESS( C19_array_swap )
{
    boost::array< double , 3 > a , b , c , A , B , C; for( int i = 0 ; i < 3 ; ++i ) { a[i] = A[i] = irv_real( "a" ); b[i] = B[i] = irv_real( "b" ); c[i] = C[i] = irv_real( "c" ); }
    array_algebra::for_each3( a , b , c , Swap() ); bool r = true; for( int i = 0 ; i < 3 ; ++i ) r = r & irv_eq( a[i] , irv_uf( "op" , 2 , B[i] , C[i] ) ) & irv_eq( b[i] , A[i] ) & irv_eq( c[i] , C[i] );
    irv_assert( r , "operations that modify two arguments" ); irv_cover( "end" );
}
IRV_HARNESS( C19_range_swap )
{
    long n = irv_nat( "n" , 1 , 5 ) , i = irv_nat( "i" , 0 , 4 ); irv_assume( i < n ); Rng a , b , c; a.n = b.n = c.n = n; a.p = mem( n ); b.p = mem( n ); c.p = mem( n ); const double A = a.p[i] , B = b.p[i] , C = c.p[i];
    range_algebra::for_each3( a , b , c , Swap() );
    irv_assert( irv_eq( a.p[i] , irv_uf( "op" , 2 , B , C ) ) & irv_eq( b.p[i] , A ) & irv_eq( c.p[i] , C ) , "operations that modify two arguments" ); irv_cover( "end" );
}''')
# vector space
L=[]
for N in range(1,16):
    w('IRV_HARNESS( C19_vector_space_for_each%d ) { double %s; const double %s; vector_space_algebra::for_each%d( %s , Op%d() ); irv_assert( irv_eq( s1 , irv_uf( "op" , %d , %s ) ) , "the operation is applied once to the whole states" ); irv_assert( %s , "inputs unmodified" ); irv_cover( "end" ); }'%(
        N,' , '.join('s%d = irv_real( "s" )'%j for j in range(1,N+1)),' , '.join('o%d = s%d'%(j,j) for j in range(1,N+1)),N,' , '.join('s%d'%j for j in range(1,N+1)),N,N,' , '.join('o%d'%j for j in range(1,N+1)),' & '.join('irv_eq( s%d , o%d )'%(j,j) for j in range(2,N+1)) if N>1 else 'true'))
w('IRV_HARNESS( C19_vector_space_norm ) { double x = irv_real( "x" ); irv_assert( irv_eq( vector_space_algebra::norm_inf( x ) , dabs( x ) ) , "norm of a scalar" ); irv_cover( "end" ); }')
# fusion (arity limited by boost::fusion::vector / make_fused)
for N in range(1,11):
    L=['IRV_HARNESS( C19_fusion_for_each%d )'%N,'{','    typedef boost::fusion::vector< double , double , double > S; using boost::fusion::at_c;']
    for j in range(1,N+1): L.append('    const double a%d = irv_real( "a" ) , b%d = irv_real( "b" ) , c%d = irv_real( "c" ); S s%d( a%d , b%d , c%d );'%((j,)*7))
    L.append('    fusion_algebra::for_each%d( %s , Op%d() );'%(N,' , '.join('s%d'%j for j in range(1,N+1)),N))
    for k,x in enumerate('abc'): L.append('    irv_assert( irv_eq( at_c< %d >( s1 ) , irv_uf( "op" , %d , %s ) ) , "the operation is applied once to every element, in matching positions" );'%(k,N,' , '.join('%s%d'%(x,j) for j in range(1,N+1))))
    if N>1: L.append('    irv_assert( %s , "inputs unmodified" );'%' & '.join('irv_eq( at_c< %d >( s%d ) , %s%d )'%(k,j,x,j) for j in range(2,N+1) for k,x in enumerate('abc')))
    L.append('    irv_cover( "end" );'); L.append('}'); w('\n'.join(L))
w('''IRV_HARNESS( C19_fusion_norm )
{
    const double a = irv_real( "a" ) , b = irv_real( "b" ) , c = irv_real( "c" ); boost::fusion::vector< double , double , double > s( a , b , c ); double m = 0 , x = dabs( a ) , y = dabs( b ) , z = dabs( c ); m = m < x ? x : m; m = m < y ? y : m; m = m < z ? z : m;
    irv_assert( irv_eq( fusion_algebra::norm_inf( s ) , m ) , "norm is the largest absolute value over all elements" ); irv_cover( "end" );
}''')
# operations
for N in range(1,15):
    fac=' , '.join('a%d'%j for j in range(1,N+1)); ts=' , '.join('t%d'%j for j in range(1,N+1))
    L=['IRV_HARNESS( C19_scale_sum%d )'%N,'{','    double %s , out = irv_real( "old" );'%(' , '.join('a%d = irv_real( "alpha" ) , t%d = irv_real( "t" )'%(j,j) for j in range(1,N+1))),
       '    const double sum = %s , %s;'%(' + '.join('a%d * t%d'%(j,j) for j in range(1,N+1)),' , '.join('o%d = t%d'%(j,j) for j in range(1,N+1))),
       '    default_operations::scale_sum%d< %s > op( %s );'%(N,' , '.join(['double']*N),fac),
       '    op( out , %s ); irv_assert( irv_eq( out , sum ) , "linear combination" ); irv_assert( %s , "inputs unmodified" );'%(ts,' & '.join('irv_eq( t%d , o%d )'%(j,j) for j in range(1,N+1)))]
    for j in range(1,N+1): L.append('    op( t%d , %s ); irv_assert( irv_eq( t%d , sum ) , "linear combination written over input %d" ); t%d = o%d;'%(j,ts,j,j,j,j))
    L.append('    irv_cover( "end" );'); L.append('}'); w('\n'.join(L))
w('''IRV_HARNESS( C19_scale )
{ double a = irv_real( "a" ) , t = irv_real( "t" ); const double o = t; default_operations::scale< double > op( a ); op( t ); irv_assert( irv_eq( t , a * o ) , "scale" ); irv_cover( "end" ); }
IRV_HARNESS( C19_scale_sum_swap2 )
{ double a = irv_real( "a" ) , b = irv_real( "b" ) , x = irv_real( "x" ) , y = irv_real( "y" ) , z = irv_real( "z" ); const double X = x , Y = y , Z = z; default_operations::scale_sum_swap2< double , double > op( a , b ); op( x , y , z );
  irv_assert( irv_eq( x , a * Y + b * Z ) & irv_eq( y , X ) & irv_eq( z , Z ) , "linear combination and swap" );
  double p = X , q = Y; op( p , q , q ); irv_assert( irv_eq( p , a * Y + b * Y ) & irv_eq( q , X ) , "linear combination and swap, third argument aliasing the second" );
  p = X; q = Y; op( p , q , p ); irv_assert( irv_eq( p , a * Y + b * X ) & irv_eq( q , X ) , "linear combination and swap, third argument aliasing the first" ); irv_cover( "end" ); }
static double mx( double a , double b ) { return a < b ? b : a; }
IRV_HARNESS( C19_rel_error )
{
    double ea = irv_real( "eps_abs" ) , er = irv_real( "eps_rel" ) , ax = irv_real( "a_x" ) , ad = irv_real( "a_dxdt" ) , e = irv_real( "err" ) , x = irv_real( "x" ) , d = irv_real( "dxdt" ) , y = irv_real( "y" ) , r = irv_real( "r" ); irv_assume( ( ea > 0 ) & ( er >= 0 ) & ( ax >= 0 ) & ( ad >= 0 ) );
    const double E = e; default_operations::rel_error< double > op( ea , er , ax , ad ); op( e , x , d ); const double s = dabs( E ) / ( ea + er * ( ax * dabs( x ) + ad * dabs( d ) ) );
    irv_assert( irv_eq( e , s ) , "rel_error" );
    const double q = dabs( E ) / ( ea + er * mx( dabs( x ) , dabs( y ) ) );
    e = E; default_operations::default_rel_error< double > o2( ea , er ); o2( e , x , y ); irv_assert( irv_eq( e , q ) , "default_rel_error" );
    default_operations::rel_error_max< double > o3( ea , er ); irv_assert( irv_eq( o3( r , x , y , E ) , mx( r , q ) ) , "rel_error_max" );
    default_operations::rel_error_max2< double > o4( ea , er , ax , ad ); irv_assert( irv_eq( o4( r , x , y , d , E ) , mx( r , s ) ) , "rel_error_max2" );
    default_operations::rel_error_l2< double > o5( ea , er ); irv_assert( irv_eq( o5( r , x , y , E ) , r + q * q ) , "rel_error_l2" );
    default_operations::rel_error_l2_2< double > o6( ea , er , ax , ad ); irv_assert( irv_eq( o6( r , x , y , d , E ) , r + s * s ) , "rel_error_l2_2" );
    irv_cover( "end" );
}
IRV_HARNESS( C19_maximum )
{ double a = irv_real( "a" ) , b = irv_real( "b" ); default_operations::maximum< double > op; irv_assert( irv_eq( op( a , b ) , mx( dabs( a ) , dabs( b ) ) ) , "maximum of absolute values" ); irv_cover( "end" ); }
''')
open('/verif/proofs/algebra.cpp','w').write('\n'.join(o)+'\n')
