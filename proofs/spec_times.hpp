// an arbitrary monotone sequence of observation times (specification side)
#ifndef SPEC_TIMES_HPP
#define SPEC_TIMES_HPP
#include <iterator>
#include "spec_steppers.hpp"
static long g_n;   // number of times
// the i-th observation time: arbitrary, monotone in the direction of integration
static double tm( long i )
{
    if( irv_native() ) { double v = g_t0; for( long k = 1 ; k <= i ; ++k ) { double d = absd( irv_uf( "tm" , 2 , (double) k , g_t0 ) ); v += g_s * ( d < 0.3 ? 0.0 : d ); } return v; }
    double v = irv_uf( "tm" , 1 , (double) i );
    return v;
}
struct TimeIter
{
    typedef double value_type; typedef std::ptrdiff_t difference_type; typedef const double* pointer; typedef double reference; typedef std::bidirectional_iterator_tag iterator_category;
    long i;
    TimeIter() : i( -1 ) {}
    explicit TimeIter( long k ) : i( k ) {}
    double operator*() const
    {
        irv_assert( ( i >= 0 ) & ( i < g_n ) , "only valid positions of the time sequence are read" );
        double v = tm( i );
        if( !irv_native() )
        {
            // the sequence is monotone (instances of the assumption)
            irv_assume( ( i == 0 ) | irv_eq( tm( i - 1 ) , v ) | ( ( v - tm( i - 1 ) ) * g_s > 8*EPS ) );
            irv_assume( ( i + 1 >= g_n ) | irv_eq( v , tm( i + 1 ) ) | ( ( tm( i + 1 ) - v ) * g_s > 8*EPS ) );   // equal or distinguishable
            irv_assume( ( v - tm( g_n - 1 ) ) * g_s <= 0 );
            irv_assume( ( tm( 0 ) - v ) * g_s <= 0 );
        }
        return v;
    }
    TimeIter& operator++() { ++i; return *this; }
    TimeIter operator++(int) { TimeIter r( *this ); ++i; return r; }
    TimeIter operator-( long k ) const { return TimeIter( i - k ); }
    TimeIter& operator--() { --i; return *this; }
    TimeIter operator--(int) { TimeIter r( *this ); --i; return r; }
    bool operator==( const TimeIter &o ) const { return i == o.i; }
    bool operator!=( const TimeIter &o ) const { return i != o.i; }
};
#endif
