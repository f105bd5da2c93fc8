/* what the race detector's build calls at accesses to volatile variables, which the run-time of the
   detector does not define. A volatile bool is a flag that threads of the library wait for: setting it
   publishes what its thread did before, seeing it orders what is done after. The call for a read comes
   before the access itself, so the order is taken over at the next start or end of a function as well;
   otherwise a flag that is set in between would be missed. Other volatile variables are counters that
   are sampled while they change: they are left out. */
#include <dlfcn.h>
#include <cstdlib>
extern "C" {
void __tsan_acquire( void * );
void __tsan_release( void * );
static thread_local void *seen[ 4 ];
static thread_local unsigned n_seen;
typedef void ( *plain_t )();
typedef void ( *entry_t )( void * );
static plain_t real_exit;
static entry_t real_entry;
static inline void take()
{
    if( __builtin_expect( n_seen != 0, 0 ) )
    {
        const unsigned n = n_seen; n_seen = 0;
        for( unsigned i = 0; i < n; i++ ) __tsan_acquire( seen[ i ] );
    }
}
void __tsan_func_exit() { take(); if( ! real_exit ) real_exit = (plain_t) dlsym( RTLD_NEXT, "__tsan_func_exit" ); real_exit(); }
void __tsan_func_entry( void *pc ) { take(); if( ! real_entry ) real_entry = (entry_t) dlsym( RTLD_NEXT, "__tsan_func_entry" ); real_entry( pc ); }
#ifdef VH_SHARED_PLAIN
#define R(n) __tsan_volatile_read1( p );
#define W(n) __tsan_volatile_write1( p );
#else
#define R(n)
#define W(n)
#endif
void __tsan_volatile_read1( void *p );
void __tsan_volatile_write1( void *p );
#define N(n) void __tsan_volatile_read##n(void*p){R(n)} void __tsan_volatile_write##n(void*p){W(n)} void __tsan_unaligned_volatile_read##n(void*p){R(n)} void __tsan_unaligned_volatile_write##n(void*p){W(n)}
N(2) N(4) N(8) N(16)
void __tsan_volatile_read1( void *p ) { __tsan_acquire( p ); for( unsigned i = 0; i < n_seen; i++ ) if( seen[ i ] == p ) return; if( n_seen == 4 ) take(); seen[ n_seen++ ] = p; }
void __tsan_volatile_write1( void *p ) { __tsan_release( p ); }
}
