/* vh.hpp - common part of every harness: seeded cases, monitors, watchdog,
 * statistics. A harness is one process that runs cases i = shard, shard+n, ...
 * until its time is over; every case is a function of (seed, case) alone, apart
 * from the scheduling of its threads.
 * exit codes: 0 held, 97 a monitor saw a violation, 98 a case did not end,
 * anything else: a sanitizer report or a crash (a violation too). */
#ifndef VH_HPP
#define VH_HPP
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <time.h>
#include <unistd.h>

namespace vh {

inline uint64_t mix( uint64_t x )
{
    x += 0x9e3779b97f4a7c15ull;
    x = ( x ^ ( x >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
    x = ( x ^ ( x >> 27 ) ) * 0x94d049bb133111ebull;
    return x ^ ( x >> 31 );
}

struct Rng
{
    uint64_t s;
    explicit Rng( uint64_t seed = 1 ) : s( mix( seed ) ) {}
    uint64_t next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return mix( s ); }
    /* uniform in [0,n) */
    uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
    /* uniform in [a,b] */
    int64_t range( int64_t a, int64_t b ) { return a + (int64_t) below( (uint64_t)( b - a + 1 ) ); }
    bool chance( int num, int den ) { return (int) below( den ) < num; }
    template < class V > auto &pick( V &v ) { return v[ below( v.size() ) ]; }
};

struct Ctx
{
    std::string prop = "?", out, log;
    uint64_t seed = 1;
    bool thorough = false;
    double secs = 10;
    int shard = 0, shards = 1;
    long long only = -1;                       /* run this case alone */
    double case_deadline = 40;
    std::map< std::string, std::string > opt;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

    std::atomic< long long > cur{ -1 };
    std::atomic< uint64_t > case_start_ms{ 0 };
    std::mutex m;
    std::string cur_desc;
    std::map< std::string, std::atomic< long long > > cnt;   /* counters */
    std::unordered_set< uint64_t > distinct;                 /* hashes of distinct non-trivial cases */
    std::unordered_set< uint64_t > inter;                    /* hashes of observed interleavings */
    std::vector< std::string > samples;
    long long cases = 0;
};
inline Ctx &ctx() { static Ctx *c = new Ctx; return *c; }

inline uint64_t now_ms()
{
    return std::chrono::duration_cast< std::chrono::milliseconds >(
        std::chrono::steady_clock::now() - ctx().t0 ).count();
}

inline void count( const char *name, long long n = 1 )
{
    auto &c( ctx() );
    std::lock_guard< std::mutex > g( c.m );
    c.cnt[ name ] += n;
}
/* a case that is distinct and not trivial, by its hash */
inline void distinct( uint64_t h ) { auto &c( ctx() ); std::lock_guard< std::mutex > g( c.m ); c.distinct.insert( h ); }
inline void interleaving( uint64_t h ) { auto &c( ctx() ); std::lock_guard< std::mutex > g( c.m ); if( c.inter.size() < 4000000 ) c.inter.insert( h ); }
inline void sample( const std::string &s )
{
    auto &c( ctx() );
    std::lock_guard< std::mutex > g( c.m );
    if( c.samples.size() < 4 ) c.samples.push_back( s );
}
inline uint64_t hstr( const std::string &s )
{
    uint64_t h = 1469598103934665603ull;
    for( unsigned char ch : s ) { h ^= ch; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hcomb( uint64_t a, uint64_t b ) { return mix( a * 31 + b ); }

inline std::string fmt( const char *f, ... )
{
    char b[ 4096 ];
    va_list ap; va_start( ap, f ); vsnprintf( b, sizeof b, f, ap ); va_end( ap );
    return b;
}
inline void describe( const std::string &d )
{
    auto &c( ctx() );
    std::lock_guard< std::mutex > g( c.m );
    c.cur_desc = d;
}

/* a monitor saw something that the property rules out */
[[noreturn]] inline void violation( const std::string &key, const std::string &msg )
{
    auto &c( ctx() );
    std::string d;
    if( c.m.try_lock() ) { d = c.cur_desc; c.m.unlock(); }
    static std::atomic< bool > once{ false };
    if( ! once.exchange( true ) )
    {
        fprintf( stderr, "\nVH-VIOLATION key=%s case=%lld :: %s :: %s\n", key.c_str(), (long long) c.cur, msg.c_str(), d.c_str() );
        fflush( stderr );
        _exit( 97 );
    }
    for( ;; ) pause();
}
#define VCHECK( cond, key, ... ) do{ if( ! ( cond ) ) ::vh::violation( key, ::vh::fmt( __VA_ARGS__ ) ); }while( 0 )

inline std::string jstr( const std::string &s )
{
    std::string o = "\"";
    for( unsigned char ch : s )
    {
        if( ch == '"' || ch == '\\' ) { o += '\\'; o += (char) ch; }
        else if( ch < 0x20 || ch > 0x7e ) { char b[ 8 ]; snprintf( b, 8, "\\u%04x", ch ); o += b; }
        else o += (char) ch;
    }
    return o + "\"";
}

inline void write_stats()
{
    auto &c( ctx() );
    if( c.out.empty() ) return;
    FILE *f = fopen( c.out.c_str(), "w" );
    if( ! f ) return;
    fprintf( f, "{\"cases\":%lld,\"distinct\":[", c.cases );
    bool first = true;
    size_t k = 0;
    for( auto h : c.distinct ) { if( ++k > 200000 ) break; fprintf( f, "%s%llu", first ? "" : ",", (unsigned long long)( h >> 12 ) ); first = false; }
    fprintf( f, "],\"interleavings\":%zu,\"counters\":{", c.inter.size() );
    first = true;
    for( auto &p : c.cnt ) { fprintf( f, "%s%s:%lld", first ? "" : ",", jstr( p.first ).c_str(), (long long) p.second ); first = false; }
    fprintf( f, "},\"samples\":[" );
    first = true;
    for( auto &s : c.samples ) { fprintf( f, "%s%s", first ? "" : ",", jstr( s ).c_str() ); first = false; }
    fprintf( f, "]}\n" );
    fclose( f );
}

inline bool time_over() { return now_ms() > ctx().secs * 1000; }

/* kernels and threads of the harness tell that they got on, without a barrier or a shared line */
struct alignas( 64 ) Beat { std::atomic< uint64_t > n{ 0 }; };
constexpr int BEATS = 256;
inline Beat *beats() { static Beat b[ BEATS ]; return b; }
inline void beat()
{
    static std::atomic< unsigned > next{ 0 };
    static thread_local Beat *b = beats() + next++ % BEATS;
    b->n.store( b->n.load( std::memory_order_relaxed ) + 1, std::memory_order_relaxed );
}

inline void watchdog()
{
    std::thread( []
    {
        auto &c( ctx() );
        long long seen = -1;
        double cpu0 = 0, since = 0;
        uint64_t beat0 = 0;
        for( ;; )
        {
            usleep( 200000 );
            struct timespec ts; clock_gettime( CLOCK_PROCESS_CPUTIME_ID, &ts );
            const double cpu = ts.tv_sec + ts.tv_nsec * 1e-9;
            const long long cur = c.cur;
            if( cur != seen ) { seen = cur; cpu0 = cpu; since = now_ms(); continue; }
            if( cur < 0 ) continue;
            const double el = ( now_ms() - c.case_start_ms ) / 1000.0;
            uint64_t bt = 0;
            for( int i = 0; i < BEATS; i++ ) bt += beats()[ i ].n.load( std::memory_order_relaxed );
            if( bt != beat0 && el < 6 * c.case_deadline ) { beat0 = bt; cpu0 = cpu; since = now_ms(); continue; }
            const double still = ( now_ms() - since ) / 1000.0;
            /* a case takes milliseconds; all of its threads wait by spinning
             * or by short sleeps, so it had the time to get on in any case */
            if( ( still > c.case_deadline && ( cpu - cpu0 > c.case_deadline / 4 || still > 3 * c.case_deadline ) ) || el > 7 * c.case_deadline )
            {
                std::string d;
                if( c.m.try_lock() ) { d = c.cur_desc; c.m.unlock(); }
                fprintf( stderr, "\nVH-HANG key=no-progress case=%lld :: did not end within %.0f s (%.0f s of cpu) :: %s\n",
                         cur, el, cpu - cpu0, d.c_str() );
                fflush( stderr );
                _exit( 98 );
            }
        }
    } ).detach();
}

/* runs the cases; fn gets the case number and its generator */
inline int run( int argc, char **argv, const std::function< void( long long, Rng & ) > &fn,
                long long max_cases = 1ll << 60 )
{
    auto &c( ctx() );
    for( int i = 1; i < argc; i++ )
    {
        std::string a = argv[ i ];
        auto val = [ & ]{ return std::string( i + 1 < argc ? argv[ ++i ] : "" ); };
        if( a == "--seed" ) c.seed = strtoull( val().c_str(), 0, 10 );
        else if( a == "--secs" ) c.secs = atof( val().c_str() );
        else if( a == "--shard" ) { auto v = val(); sscanf( v.c_str(), "%d/%d", &c.shard, &c.shards ); }
        else if( a == "--case" ) c.only = atoll( val().c_str() );
        else if( a == "--out" ) c.out = val();
        else if( a == "--thorough" ) c.thorough = true;
        else if( a == "--deadline" ) c.case_deadline = atof( val().c_str() );
        else if( a.compare( 0, 2, "--" ) == 0 ) { auto k = a.substr( 2 ); c.opt[ k ] = val(); }
    }
    watchdog();
    auto one = [ & ]( long long i )
    {
        { std::lock_guard< std::mutex > g( c.m ); c.cur_desc.clear(); }
        c.case_start_ms = now_ms();
        c.cur = i;
        if( FILE *f = fopen( ( c.out + ".cur" ).c_str(), "w" ) ) { fprintf( f, "%lld\n", i ); fclose( f ); }
        Rng r( hcomb( c.seed, (uint64_t) i ) );
        fn( i, r );
        c.cases++;
    };
    if( c.only >= 0 ) one( c.only );
    else
        for( long long i = c.shard; i < max_cases && ! time_over(); i += c.shards ) one( i );
    c.cur = -1;
    write_stats();
    return 0;
}
inline std::string opt( const char *k, const char *d = "" )
{
    auto &o( ctx().opt );
    auto it( o.find( k ) );
    return it == o.end() ? d : it->second;
}

/* ---- lifetime monitor: every object of a Tracked type that is alive, by address ---- */
struct Live
{
    struct Shard { std::mutex m; std::unordered_map< const void *, uint64_t > objs; };
    static constexpr int N = 64;
    Shard s[ N ];
    std::atomic< long long > ctor{ 0 }, dtor{ 0 };
    Shard &of( const void *p ) { return s[ mix( (uint64_t) p ) % N ]; }
    void born( const void *p, const char *what )
    {
        auto &x( of( p ) );
        std::lock_guard< std::mutex > g( x.m );
        ctor++;
        if( ! x.objs.emplace( p, 1 ).second )
            violation( "object-overwritten", fmt( "%s made at %p, where an object that was never destroyed still is", what, p ) );
    }
    void died( const void *p )
    {
        auto &x( of( p ) );
        std::lock_guard< std::mutex > g( x.m );
        dtor++;
        if( ! x.objs.erase( p ) )
            violation( "object-destroyed-twice", fmt( "destructor at %p, where no object is alive", p ) );
    }
    void used( const void *p, const char *what )
    {
        auto &x( of( p ) );
        std::lock_guard< std::mutex > g( x.m );
        if( ! x.objs.count( p ) )
            violation( "dead-object-used", fmt( "%s at %p, where no object is alive", what, p ) );
    }
    long long alive()
    {
        long long n = 0;
        for( auto &x : s ) { std::lock_guard< std::mutex > g( x.m ); n += (long long) x.objs.size(); }
        return n;
    }
};
inline Live &live() { static Live *l = new Live; return *l; }

template < std::size_t PAD > struct Tracked
{
    uint64_t id = 0;
    uint64_t sum = 0;
    char *heap = nullptr;           /* so that LeakSanitizer and ASan see it too */
    unsigned char pad[ PAD ];
    void fill() { for( size_t i = 0; i < PAD; i++ ) pad[ i ] = (unsigned char)( id * 7 + i ); sum = mix( id ); }
    bool intact() const
    {
        if( sum != mix( id ) || heap == nullptr || (unsigned char) *heap != (unsigned char) id ) return false;
        for( size_t i = 0; i < PAD; i++ ) if( pad[ i ] != (unsigned char)( id * 7 + i ) ) return false;
        return true;
    }
    void set( uint64_t v ) { live().used( this, "write" ); id = v; *heap = (char) v; fill(); }
    Tracked() { live().born( this, "default" ); heap = new char( 0 ); fill(); }
    explicit Tracked( uint64_t v ) : id( v ) { live().born( this, "value" ); heap = new char( (char) v ); fill(); }
    Tracked( const Tracked &o ) : id( o.id )
    {
        live().used( &o, "copy from" ); live().born( this, "copy" );
        if( ! o.intact() ) violation( "object-corrupt", fmt( "copied object %llu is not intact", (unsigned long long) o.id ) );
        heap = new char( *o.heap ); fill();
    }
    Tracked( Tracked &&o ) noexcept : id( o.id )
    {
        live().used( &o, "move from" ); live().born( this, "move" );
        heap = o.heap; o.heap = new char( (char) o.id ); fill();
    }
    Tracked &operator=( const Tracked &o )
    {
        live().used( this, "assign to" ); live().used( &o, "assign from" );
        if( ! o.intact() ) violation( "object-corrupt", fmt( "assigned object %llu is not intact", (unsigned long long) o.id ) );
        id = o.id; *heap = *o.heap; fill();
        return *this;
    }
    ~Tracked() { live().died( this ); delete heap; heap = nullptr; sum = 0xdead; }
};
using TSmall = Tracked< 8 >;      /* within a cache line  */
using TBig = Tracked< 120 >;      /* allocated externally */

/* ---- element values: make an element of type T that carries the number v, and read it back ---- */
template < class T > struct Val
{
    static T make( uint64_t v ) { return (T) v; }
    static void put( T &t, uint64_t v ) { t = (T) v; }
    static bool is( const T &t, uint64_t v ) { return t == (T) v; }
    static std::string str( const T &t ) { std::ostringstream o; o << +t; return o.str(); }
    static constexpr bool wide = sizeof( T ) >= 4;
};
template <> struct Val< bool >
{
    static bool make( uint64_t v ) { return mix( v ) & 1; }
    static void put( bool &t, uint64_t v ) { t = mix( v ) & 1; }
    static bool is( const bool &t, uint64_t v ) { return t == (bool)( mix( v ) & 1 ); }
    static std::string str( const bool &t ) { return t ? "true" : "false"; }
};
template <> struct Val< std::string >
{
    /* short and long strings: with and without heap memory */
    static std::string make( uint64_t v )
    {
        auto s = std::to_string( v );
        if( mix( v ) % 3 == 0 ) s += std::string( 20 + mix( v ) % 40, (char)( 'a' + v % 26 ) );
        return s;
    }
    static void put( std::string &t, uint64_t v ) { t = make( v ); }
    static bool is( const std::string &t, uint64_t v ) { return t == make( v ); }
    static std::string str( const std::string &t ) { return t; }
};
template < class U > struct Val< std::vector< U > >
{
    using V = std::vector< U >;
    static V make( uint64_t v ) { V x; for( size_t i = 0; i < mix( v ) % 7; i++ ) x.push_back( (U)( v + i ) ); return x; }
    static void put( V &t, uint64_t v ) { t = make( v ); }
    static bool is( const V &t, uint64_t v ) { return t == make( v ); }
    static std::string str( const V &t ) { return fmt( "vector of %zu", t.size() ); }
};
struct Pod24 { uint64_t a, b, c; };
template <> struct Val< Pod24 >
{
    static Pod24 make( uint64_t v ) { return { v, ~v, mix( v ) }; }
    static void put( Pod24 &t, uint64_t v ) { t = make( v ); }
    static bool is( const Pod24 &t, uint64_t v ) { return t.a == v && t.b == ~v && t.c == mix( v ); }
    static std::string str( const Pod24 &t ) { return fmt( "{%llu,%llx,%llx}", (unsigned long long) t.a, (unsigned long long) t.b, (unsigned long long) t.c ); }
};
/* plain, but larger than a cache line */
struct Pod200 { uint64_t a[ 25 ]; };
template <> struct Val< Pod200 >
{
    static Pod200 make( uint64_t v ) { Pod200 p; put( p, v ); return p; }
    static void put( Pod200 &t, uint64_t v ) { for( int i = 0; i < 25; i++ ) t.a[ i ] = v * 25 + i; }
    static bool is( const Pod200 &t, uint64_t v ) { for( int i = 0; i < 25; i++ ) if( t.a[ i ] != v * 25 + i ) return false; return true; }
    static std::string str( const Pod200 &t ) { return fmt( "%llu../25", (unsigned long long) t.a[ 0 ] ); }
};
template < size_t P > struct Val< Tracked< P > >
{
    using T = Tracked< P >;
    static T make( uint64_t v ) { return T( v ); }
    static void put( T &t, uint64_t v ) { t.set( v ); }
    static bool is( const T &t, uint64_t v ) { live().used( &t, "read" ); return t.id == v && t.intact(); }
    static std::string str( const T &t ) { return fmt( "%llu%s", (unsigned long long) t.id, t.intact() ? "" : " (not intact)" ); }
};

/* a cell of a range that was allocated on a stream: no object lives there yet */
template < class T > void put_raw( T &cell, uint64_t v )
{
    if constexpr( std::is_trivially_copyable< T >::value ) Val< T >::put( cell, v );
    else new ( (void *) &cell ) T( Val< T >::make( v ) );
}

/* ---- seeded delays: threads stop for a while at random points of the code ---- */
inline std::atomic< int > &chaos() { static std::atomic< int > c{ 0 }; return c; }   /* 1 in chaos() calls */

} /* namespace vh */
#endif
