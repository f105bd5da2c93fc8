/* chaos.cpp - linked into the builds made with -finstrument-functions: each
 * call of an instrumented function may stop its thread for a moment. This is
 * what moves threads against each other; the code itself is not changed. */
#include <atomic>
#include <cstdint>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#define NI __attribute__(( no_instrument_function ))
extern "C" {
std::atomic< int > vh_chaos_rate{ 0 };          /* a delay in one of this many calls; 0: off */
std::atomic< unsigned long long > vh_chaos_seed{ 1 };
std::atomic< unsigned long long > vh_chaos_points{ 0 }, vh_chaos_delays{ 0 };
static std::atomic< unsigned > vh_tid{ 0 };
static thread_local uint64_t st = 0;
static thread_local unsigned long long epoch = 0;
NI static void point()
{
    const int rate = vh_chaos_rate.load( std::memory_order_relaxed );
    if( rate == 0 ) return;
    const auto sd = vh_chaos_seed.load( std::memory_order_relaxed );
    if( st == 0 || epoch != sd ) { epoch = sd; st = sd * 0x9e3779b97f4a7c15ull + ( ++vh_tid ) * 0xbf58476d1ce4e5b9ull | 1; }
    st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    if( ( st >> 11 ) % (unsigned) rate != 0 ) return;
    vh_chaos_delays.fetch_add( 1, std::memory_order_relaxed );
    const unsigned k = ( st >> 40 ) & 31;
    if( k < 18 ) { for( volatile unsigned i = 0; i < ( k + 1 ) * 40; i = i + 1 ); }
    else if( k < 28 ) sched_yield();
    else { struct timespec t = { 0, (long)( 2000 + ( ( st >> 45 ) & 0xffff ) ) }; nanosleep( &t, nullptr ); }
}
NI void __cyg_profile_func_enter( void *, void * ) { point(); }
NI void __cyg_profile_func_exit( void *, void * ) { point(); }
}
