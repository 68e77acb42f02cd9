// C10: the step checkers themselves
#include <utility>
#include <vector>
#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
#include <boost/numeric/odeint/util/odeint_error.hpp>
#include "irv.h"
using namespace boost::numeric::odeint;
template< class C , class E > static void counts( bool reset )
{
    long n = irv_nat( "n" , 0 , 6 ) , k = irv_nat( "k" , 0 , 6 ) , pre = irv_nat( "pre" , 0 , 6 );
    irv_assume( n < 2147483647 );
    irv_assume( k <= n ); irv_assume( pre <= n );
    C c( (int) n );
    long i = 0;
    try
    {
        if( reset ) { for( long j = 0 ; j < pre ; ++j ) c(); c.reset(); }
        for( i = 0 ; i < k ; ++i ) c();
    }
    catch( const E& ) { irv_assert( false , "up to limit calls are accepted" ); return; }
    irv_cover( "accepted" );
    if( k != n ) return;
    bool thrown = false;
    try { c(); } catch( const E& ) { thrown = true; }
    irv_assert( thrown , "limit+1 calls throw" );
    irv_cover( "end" );
}
IRV_HARNESS( C10_max_step_checker ) { counts< max_step_checker , no_progress_error >( false ); }
IRV_HARNESS( C10_max_step_checker_reset ) { counts< max_step_checker , no_progress_error >( true ); }
IRV_HARNESS( C10_failed_step_checker ) { counts< failed_step_checker , step_adjustment_error >( false ); }
IRV_HARNESS( C10_failed_step_checker_reset ) { counts< failed_step_checker , step_adjustment_error >( true ); }
IRV_HARNESS( C10_default_limit )
{
    max_step_checker c; failed_step_checker f; long i = 0; bool t1 = false , t2 = false; long k = irv_nat( "k" , 0 , 520 ); irv_assume( k <= 500 );
    try { for( i = 0 ; i < k ; ++i ) { c(); f(); } } catch( const no_progress_error& ) { t1 = true; } catch( const step_adjustment_error& ) { t1 = true; }
    irv_assert( !t1 , "default limit allows 500 calls" );
    irv_cover( "end" );
}
