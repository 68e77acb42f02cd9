// C25: the proofs of the integrate functions and iterators with the stepper, the system and the observer passed
// IRV_C25 = 0: by value (a copy is used, never the object itself; copies carry the state of the object)
// IRV_C25 = 1: through boost::ref, IRV_C25 = 2: through std::ref (every call is made on the object itself)
#ifndef SPEC_REFS_HPP
#define SPEC_REFS_HPP
#include <functional>
#include <boost/ref.hpp>
#ifdef IRV_C25
static const void *g_id_st , *g_id_sys , *g_id_obs;
#define TAG long tag = 0;
#if IRV_C25 == 0
#define CHK_ID( p , id , what ) irv_assert( ( (const void*) ( p ) != id ) & ( ( p )->tag == 7 ) , what " passed by value: a copy with its state is used" );
#define REF( x ) x
#define CHK_UNCHANGED( x , what ) irv_assert( x.tag == 7 , what " passed by value is unmodified" );
#else
#define CHK_ID( p , id , what ) irv_assert( ( (const void*) ( p ) == id ) & ( ( p )->tag == 7 ) , what " passed by reference: the object itself is used" );
#define CHK_UNCHANGED( x , what )
#if IRV_C25 == 1
#define REF( x ) boost::ref( x )
#else
#define REF( x ) std::ref( x )
#endif
#endif
template< class S > static const S* addr( const S &s ) { return &s; }
template< class S > static const S* addr( const boost::reference_wrapper< S > &s ) { return s.get_pointer(); }
template< class S > static const S* addr( const std::reference_wrapper< S > &s ) { return &s.get(); }
#define CHK_SYS( sys ) CHK_ID( addr( sys ) , g_id_sys , "system" )
template< class T > static T& object( const void *&id ) { static T t; t = T(); t.tag = 7; id = &t; return t; }
#define ST( S ) REF( object< S >( g_id_st ) )
#define SYS REF( object< Sys >( g_id_sys ) )
#define OBS REF( object< Obs >( g_id_obs ) )
#define C25CAT( a , b ) C25CAT2( a , b )
#define C25_H2( d , m , x ) IRV_HARNESS( C25_##d##_##m##_##x )
#define C25_H1( d , m , x ) C25_H2( d , m , x )
#define C25_HARNESS( m , x ) C25_H1( IRV_C25_NAME , m , x )
#define C25CAT2( a , b ) a##b
#define HP( x ) static inline void C25CAT( unused_ , x )()
#if IRV_C25 == 0
#define HPF( x ) C25_HARNESS( value , x )
#elif IRV_C25 == 1
#define HPF( x ) C25_HARNESS( boost_ref , x )
#else
#define HPB( x ) C25_HARNESS( std_ref , x )
#endif
#ifndef HPF
#define HPF( x ) static inline void unused_fwd_##x()
#else
#define HPB( x ) static inline void unused_bwd_##x()
#endif
#else
#define TAG
#define CHK_ID( p , id , what )
#define CHK_SYS( sys )
#define ST( S ) S()
#define SYS Sys()
#define OBS Obs()
#endif
#endif
