/* libk - the kernels that the library brings along, in small graphs that the
 * real run-time runs in random configurations: what comes out of them is
 * compared with what they are specified to make of what goes in.
 * --mode split | adapt | file | search | math | each (for_each); none: all */
#include <iterator>
#include <list>
#include <memory>
#include <fstream>
#include <raftio>
#include <raftalgorithm>
#include <raftrandom>
#include <raftmath>
#include <cmath>
#include "fifo_common.hpp"
#include "dct.tcc"
using namespace vh;
using raft::signal;
#ifdef VH_CHAOS
extern "C" { extern std::atomic< int > vh_chaos_rate; extern std::atomic< unsigned long long > vh_chaos_seed, vh_chaos_points, vh_chaos_delays; }
#endif

template < class T > struct vh::Val< raft::matrix< T, 8 > >
{
    static raft::matrix< T, 8 > make( uint64_t v ) { raft::matrix< T, 8 > m; for( auto &x : m.arr ) x = (T) v; return m; }
};
namespace lk {

inline thread_local uint64_t all_links = 0; /* the size of all links of this case; 0: each its own */
struct Config
{
    bool basic_part = false, stdalloc = false, no_par = false;
    explicit Config( Rng &r ) : basic_part( r.chance( 1, 3 ) ), stdalloc( r.chance( 1, 2 ) ), no_par( r.chance( 1, 2 ) )
    {
        all_links = r.chance( 1, 5 ) ? ( r.chance( 1, 2 ) ? 1 : 1 + r.below( 4 ) ) : 0;
    }
    std::string str() const { return fmt( "%s %s %s, links of size %llu", basic_part ? "basic-part" : "no-part", stdalloc ? "fixed" : "growing", no_par ? "no_par" : "par", (unsigned long long) all_links ); }
};

struct Pace
{
    int mode; Rng q;
    explicit Pace( Rng &r ) : mode( (int) r.below( 5 ) ), q( r.next() ) {}
    void operator()()
    {
        beat();
        switch( mode )
        {
        case 1: if( q.chance( 1, 3 ) ) sched_yield(); break;
        case 2: if( q.chance( 1, 30 ) ) usleep( q.below( 300 ) ); break;
        case 3: if( q.chance( 1, 200 ) ) usleep( 1000 + q.below( 3000 ) ); break;
        default: break;
        }
    }
};
inline raft::signal sig_of( uint64_t v )
{
    const auto h = mix( v ^ 0x77 );
    if( h % 3 ) return raft::none;
    switch( ( h >> 8 ) % 8 )
    {
        case 0: return raft::eof;
        case 1: return raft::quit;
        case 2: return raft::term;
        case 3: return (raft::signal)( raft::eof + 1 + ( h >> 16 ) % 3 );
        case 4: return (raft::signal)( 5000 + ( h >> 16 ) % 100000 );
        default: return (raft::signal)( 1 + ( h >> 16 ) % 4090 );
    }
}

/* sends the numbers base .. base+n-1 */
template < class T > class Src : public raft::kernel
{
public:
    const uint64_t base, n; uint64_t at = 0; Pace pace; const bool sigs; std::string name;
    std::atomic< uint64_t > done{ 0 };
    Src( uint64_t base, uint64_t n, Rng &r, bool sigs, const char *name = "out" ) : base( base ), n( n ), pace( r ), sigs( sigs ), name( name ) { output.addPort< T >( name ); }
    virtual raft::kstatus run()
    {
        auto &f( output[ name ] );
        for( uint64_t b = 1 + pace.q.below( 30 ); b && at < n; b--, at++ )
        {
            const uint64_t v = base + at;
            if( pace.q.chance( 1, 2 ) ) { const T t( Val< T >::make( v ) ); f.template push< T >( t, sigs ? sig_of( v ) : raft::none ); }
            else { auto a( f.template allocate_s< T >() ); Val< T >::put( *a, v ); a.sig() = sigs ? sig_of( v ) : raft::none; }
            done = at + 1;
            pace();
        }
        return at < n ? raft::proceed : raft::stop;
    }
};
/* a given sequence */
template < class T > class SrcOf : public raft::kernel
{
public:
    const std::vector< T > &x; size_t at = 0; Pace pace;
    SrcOf( const std::vector< T > &x, Rng &r ) : x( x ), pace( r ) { output.addPort< T >( "out" ); }
    virtual raft::kstatus run()
    {
        for( uint64_t b = 1 + pace.q.below( 30 ); b && at < x.size(); b--, at++ ) { output[ "out" ].template push< T >( x[ at ] ); pace(); }
        return at < x.size() ? raft::proceed : raft::stop;
    }
};
/* keeps what arrives */
template < class T > class Keep : public raft::kernel
{
public:
    std::vector< std::pair< T, signal > > got; Pace pace; int slow; std::string name;
    uint64_t runs = 0, trace = 1;
    Keep( Rng &r, const char *name = "in" ) : pace( r ), slow( r.chance( 1, 6 ) ? (int) r.below( 20 ) : 0 ), name( name ) { input.addPort< T >( name ); }
    virtual raft::kstatus run()
    {
        auto &f( input[ name ] );
        runs++; trace = hcomb( trace, f.size() );
        if( slow > 0 ) { slow--; usleep( 1500 + pace.q.below( 3000 ) ); }
        for( uint64_t b = 1 + pace.q.below( 20 ); b; b-- )
        {
            signal s = (signal) 4242;
            if( f.size() > 0 ) look( f );
            if( pace.q.chance( 1, 2 ) ) { T t( Val< T >::make( 5 ) ); f.template pop< T >( t, &s ); got.emplace_back( t, s ); }
            else { T &t( f.template peek< T >( &s ) ); look( t ); got.emplace_back( t, s ); f.unpeek(); f.recycle(); }
            pace();
            if( f.size() == 0 ) break;
        }
        return raft::proceed;
    }
    virtual void look( FIFO & ) {}
    virtual void look( T & ) {}
    ~Keep() { interleaving( trace ); }
};
/* passes on, with signals */
template < class T > class Pass : public raft::kernel
{
public:
    Pace pace; Rng q; uint64_t n = 0;
    Pass( Rng &r ) : pace( r ), q( r.next() ) { input.addPort< T >( "in" ); output.addPort< T >( "out" ); }
    virtual raft::kstatus run()
    {
        signal s = (signal) 4242;
        T t( Val< T >::make( 5 ) );
        input[ "in" ].template pop< T >( t, &s );
        pace();
        output[ "out" ].template push< T >( t, s );
        n++;
        return raft::proceed;
    }
};

inline void wire( raft::map &m, raft::kernel &a, const std::string &an, raft::kernel &b, const std::string &bn, Rng &r )
{
    const uint64_t k = r.below( 4 );
    if( all_links > 0 ) m.link( &a, an, &b, bn, all_links );
    else if( k == 0 ) m.link( &a, an, &b, bn );
    else if( k == 1 ) m.link( &a, an, &b, bn, 1 + r.below( 6 ) );
    else if( k == 2 ) m.link( &a, an, &b, bn, 1 + r.below( 100 ) );
    else m += a[ an ] >> b[ bn ];
}

void drive( raft::map &m, const Config &c, Rng &r );

/* ---------- K01 ---------- */
/* what path p of several got: part of base..base+n-1 in increasing order */
template < class T > struct Count
{
    std::vector< char > seen; uint64_t base, total = 0;
    Count( uint64_t base, uint64_t n ) : seen( n, 0 ), base( base ) {}
};
inline uint64_t dec( const uint64_t &t ) { return t; }
inline uint64_t dec( const Pod24 &t ) { return t.a; }
inline uint64_t dec( const std::string &t ) { return strtoull( t.c_str(), 0, 10 ); }
inline uint64_t dec( const TSmall &t ) { return t.id; }
inline uint64_t dec( const TBig &t ) { return t.id; }
inline uint64_t dec( const float &t ) { return (uint64_t) t; }

/* every element from one of the sources, once, intact, in order within source when `ordered` */
template < class T > void account( const char *what, const std::vector< std::vector< std::pair< T, signal > > > &paths, const std::vector< std::pair< uint64_t, uint64_t > > &srcs,
                                   bool sigs, bool ordered = true )
{
    std::vector< std::vector< char > > seen;
    uint64_t want = 0, have = 0;
    for( auto &s : srcs ) { seen.emplace_back( s.second, 0 ); want += s.second; }
    for( size_t p = 0; p < paths.size(); p++ )
    {
        std::vector< uint64_t > last( srcs.size(), 0 );
        for( size_t i = 0; i < paths[ p ].size(); i++ )
        {
            auto &e( paths[ p ][ i ] );
            const uint64_t v = dec( e.first );
            VCHECK( Val< T >::is( e.first, v ), "altered", "%s: element %zu of path %zu is not intact: %s", what, i, p, Val< T >::str( e.first ).c_str() );
            size_t k = 0;
            while( k < srcs.size() && ! ( v >= srcs[ k ].first && v < srcs[ k ].first + srcs[ k ].second ) ) k++;
            VCHECK( k < srcs.size(), "invented", "%s: element %zu of path %zu is %llu, which no source sent", what, i, p, (unsigned long long) v );
            const uint64_t x = v - srcs[ k ].first;
            VCHECK( ! seen[ k ][ x ], "duplicated", "%s: %llu of source %zu arrived twice (second time on path %zu)", what, (unsigned long long) x, k, p );
            seen[ k ][ x ] = 1;
            if( ordered ) { VCHECK( x + 1 > last[ k ], "out-of-order", "%s: on path %zu, %llu of source %zu after %llu", what, p, (unsigned long long) x, k, (unsigned long long) last[ k ] - 1 ); }
            last[ k ] = x + 1;
            const signal due = sigs ? sig_of( v ) : raft::none;
            VCHECK( e.second == due, "wrong-signal", "%s: %llu of source %zu came with signal %d, sent with %d", what, (unsigned long long) x, k, (int) e.second, (int) due );
            have++;
        }
    }
    VCHECK( have == want, "elements-lost", "%s: %llu of %llu elements arrived", what, (unsigned long long) have, (unsigned long long) want );
    count( "elements accounted", (long long) have );
}

/* join as the library has it, but a clone with the same number of inputs for the map */
template < class T > void split_join( Rng &r, const char *tname )
{
    constexpr bool ext = ext_alloc< T >::value;
    const Config c( r );
    const bool sigs = r.chance( 3, 4 );
    const uint64_t n = r.chance( 1, 10 ) ? r.below( 3 ) : 1 + r.below( ctx().thorough ? 3000 : 700 );
    const int ports = r.chance( 1, 6 ) ? 1 : (int) r.range( 2, r.chance( 1, 5 ) ? 12 : 5 );
    int kind = (int) r.below( 4 );
    if( ext ) kind = 1;                 /* a split takes ranges, which large elements do not have */
    const std::string d = fmt( "%s %d ports %llu elements kind %d %s", tname, ports, (unsigned long long) n, kind, c.str().c_str() );
    describe( d );
    raft::map m;
    std::vector< std::vector< std::pair< T, signal > > > paths;
    std::vector< std::pair< uint64_t, uint64_t > > srcs;
    if constexpr( ! ext )
    {
        if( kind == 0 )
        {
            Src< T > s( 1000, n, r, sigs );
            raft::split< T > sp( (size_t) ports );
            wire( m, s, "out", sp, "0", r );
            std::vector< std::unique_ptr< Keep< T > > > k;
            for( int i = 0; i < ports; i++ ) { k.emplace_back( new Keep< T >( r ) ); wire( m, sp, std::to_string( i ), *k.back(), "in", r ); }
            drive( m, c, r );
            for( auto &x : k ) paths.push_back( std::move( x->got ) );
            account< T >( "split", paths, { { 1000, n } }, sigs );
        }
        else if( kind == 2 )
        {
            /* split, work on each path, join */
            Src< T > s( 1000, n, r, sigs );
            raft::split< T > sp( (size_t) ports );
            raft::join< T > jn( (size_t) ports );
            Keep< T > k( r );
            std::vector< std::unique_ptr< Pass< T > > > w;
            wire( m, s, "out", sp, "0", r );
            uint64_t worked = 0;
            for( int i = 0; i < ports; i++ )
            {
                w.emplace_back( new Pass< T >( r ) );
                wire( m, sp, std::to_string( i ), *w.back(), "in", r );
                wire( m, *w.back(), "out", jn, std::to_string( i ), r );
            }
            wire( m, jn, "0", k, "in", r );
            drive( m, c, r );
            for( auto &x : w ) worked += x->n;
            VCHECK( worked == n, "elements-lost", "split and join: %llu of %llu elements were worked on", (unsigned long long) worked, (unsigned long long) n );
            paths.push_back( std::move( k.got ) );
            account< T >( "split and join", paths, { { 1000, n } }, sigs, ports == 1 );
        }
        else if( kind == 3 )
        {
            /* a tree: split into two splits, and what leaves them */
            Src< T > s( 77, n, r, sigs );
            raft::split< T > sp( (size_t) ports ), sp2( 3 );
            raft::join< T > jn( 2 );
            wire( m, s, "out", sp, "0", r );
            std::vector< std::unique_ptr< Keep< T > > > k;
            auto keep = [ & ]( raft::kernel &a, const char *p ) { k.emplace_back( new Keep< T >( r ) ); wire( m, a, p, *k.back(), "in", r ); };
            wire( m, sp, "0", sp2, "0", r );
            for( int i = 1; i < ports; i++ ) keep( sp, std::to_string( i ).c_str() );
            wire( m, sp2, "0", jn, "1", r ); wire( m, sp2, "2", jn, "0", r );
            keep( sp2, "1" ); 
            const size_t joined = k.size();
            keep( jn, "0" );
            drive( m, c, r );
            for( size_t i = 0; i < k.size(); i++ ) paths.push_back( std::move( k[ i ]->got ) );
            (void) joined;
            account< T >( "splits in a row", paths, { { 77, n } }, sigs, false );
        }
    }
    if( kind == 1 )
    {
        raft::join< T > jn( (size_t) ports );
        std::vector< std::unique_ptr< Src< T > > > s;
        Keep< T > k( r );
        for( int i = 0; i < ports; i++ )
        {
            const uint64_t x = r.chance( 1, 6 ) ? 0 : 1 + r.below( 1 + n );
            srcs.emplace_back( 100000ull * ( i + 1 ), x );
            s.emplace_back( new Src< T >( 100000ull * ( i + 1 ), x, r, sigs ) );
            wire( m, *s.back(), "out", jn, std::to_string( i ), r );
        }
        wire( m, jn, "0", k, "in", r );
        drive( m, c, r );
        paths.push_back( std::move( k.got ) );
        account< T >( "join", paths, srcs, sigs );
    }
    if( n > 10 ) distinct( hstr( d ) );
    sample( d );
}

/* ---------- K02 ---------- */
template < class T > std::vector< T > numbers( uint64_t n, uint64_t base )
{
    std::vector< T > v;
    for( uint64_t i = 0; i < n; i++ ) v.push_back( Val< T >::make( base + i ) );
    return v;
}
/* source kernel a -> what is checked */
template < class T > void same( const char *what, const std::vector< T > &want, const std::vector< T > &got )
{
    for( size_t i = 0; i < want.size() && i < got.size(); i++ )
        VCHECK( want[ i ] == got[ i ], "wrong-element", "%s: element %zu of %zu is %s, %s is due", what, i, want.size(), Val< T >::str( got[ i ] ).c_str(), Val< T >::str( want[ i ] ).c_str() );
    VCHECK( want.size() == got.size(), "wrong-count", "%s: %zu elements, %zu are due", what, got.size(), want.size() );
    count( "elements compared", (long long) want.size() );
}
template < class T, class K > void read_from( const char *what, K &&k, const std::vector< T > &want, Rng &r, const Config &c )
{
    raft::map m;
    Keep< T > s( r );
    wire( m, k, "0", s, "in", r );
    drive( m, c, r );
    std::vector< T > got;
    for( auto &x : s.got ) { got.push_back( x.first ); VCHECK( x.second == raft::none, "wrong-signal", "%s: signal %d", what, (int) x.second ); }
    same( what, want, got );
}
template < class T > void reading( Rng &r )
{
    const Config c( r );
    const uint64_t n = r.chance( 1, 5 ) ? r.below( 3 ) : r.below( 400 );
    const auto v( numbers< T >( n, r.below( 100000 ) ) );
    const int kind = (int) r.below( 7 );
    const std::string d = fmt( "read_each of %llu elements of %zu bytes from container %d, %s", (unsigned long long) n, sizeof( T ), kind, c.str().c_str() );
    describe( d );
    switch( kind )
    {
    case 0: { auto w( v ); read_from< T >( "read_each of a vector", raft::read_each< T >( w.begin(), w.end() ), v, r, c ); same( "the vector after it was read", v, w ); } break;
    case 1: { std::list< T > w( v.begin(), v.end() ); read_from< T >( "read_each of a list", raft::read_each< T >( w.begin(), w.end() ), v, r, c ); } break;
    case 2: { std::deque< T > w( v.begin(), v.end() ); read_from< T >( "read_each of a deque", raft::read_each< T >( w.cbegin(), w.cend() ), v, r, c ); } break;
    case 3: { std::vector< T > w( v.rbegin(), v.rend() ); read_from< T >( "read_each of a vector backwards", raft::read_each< T >( w.rbegin(), w.rend() ), v, r, c ); } break;
    case 4:
    {
        const size_t a = r.below( n + 1 ), b = a + r.below( n - a + 1 );
        read_from< T >( "read_each of a part of an array", raft::read_each< T >( v.data() + a, v.data() + b ), std::vector< T >( v.begin() + (long) a, v.begin() + (long) b ), r, c );
    }
    break;
    case 5:
    {
        /* user-owned, from lvalue iterators */
        auto b( v.begin() ), e( v.end() );
        raft::readeach< T, typename std::vector< T >::const_iterator > k( b, e );
        VCHECK( b == v.begin() && e == v.end(), "iterator-moved", "the user's iterators were moved" );
        read_from< T >( "readeach", k, v, r, c );
    }
    break;
    case 6:
    {
        std::vector< T > w( v );
        read_from< T >( "a copy of read_each", raft::readeach< T, typename std::vector< T >::iterator >( raft::read_each< T >( w.begin(), w.end() ) ), v, r, c );
    }
    break;
    }
    if( n > 3 ) distinct( hstr( d ) );
    sample( d );
}
/* a range that can be read once only */
inline void reading_once( Rng &r )
{
    const Config c( r );
    const uint64_t n = r.below( 200 );
    auto v( numbers< uint64_t >( n, r.below( 100000 ) ) );
    std::string text;
    for( auto x : v ) text += std::to_string( x ) + ( x % 3 ? " " : "\n" );
    std::istringstream in( text );
    describe( fmt( "read_each of %llu numbers from an input stream, %s", (unsigned long long) n, c.str().c_str() ) );
    read_from< uint64_t >( "read_each of an input stream", raft::read_each< uint64_t >( std::istream_iterator< uint64_t >( in ), std::istream_iterator< uint64_t >() ), v, r, c );
}
template < class T > void write_to( raft::kernel &k, const std::vector< T > &v, Rng &r, const Config &c )
{
    raft::map m;
    SrcOf< T > s( v, r );
    wire( m, s, "out", k, "0", r );
    drive( m, c, r );
}
template < class T > void writing( Rng &r )
{
    const Config c( r );
    const uint64_t n = r.chance( 1, 5 ) ? r.below( 3 ) : r.below( 400 );
    const auto v( numbers< T >( n, r.below( 100000 ) ) );
    const int kind = (int) r.below( 6 );
    const std::string d = fmt( "write_each of %llu elements of %zu bytes to container %d, %s", (unsigned long long) n, sizeof( T ), kind, c.str().c_str() );
    describe( d );
    switch( kind )
    {
    case 0: { std::vector< T > w; auto k( raft::write_each< T >( std::back_inserter( w ) ) ); write_to( k, v, r, c ); same( "write_each to a vector", v, w ); } break;
    case 1: { std::list< T > w; auto k( raft::write_each< T >( std::back_inserter( w ) ) ); write_to( k, v, r, c ); same( "write_each to a list", v, std::vector< T >( w.begin(), w.end() ) ); } break;
    case 2: { std::deque< T > w; auto k( raft::write_each< T >( std::front_inserter( w ) ) ); write_to( k, v, r, c ); same( "write_each to the front of a deque", v, std::vector< T >( w.rbegin(), w.rend() ) ); } break;
    case 3:
    {
        /* what lies behind must not be touched */
        std::vector< T > w( n + 3, Val< T >::make( 7 ) );
        auto k( raft::write_each< T >( w.begin() ) );
        write_to( k, v, r, c );
        for( int i = 0; i < 3; i++ ) VCHECK( Val< T >::is( w[ n + i ], 7 ), "written-behind", "write_each to an array: element %d behind the end was written", i );
        w.resize( n );
        same( "write_each to an array", v, w );
    }
    break;
    case 4:
    {
        std::vector< T > w;
        auto k0( raft::write_each< T >( std::back_inserter( w ) ) );
        auto k( k0 );
        write_to( k, v, r, c ); same( "a copy of write_each", v, w );
    }
    break;
    case 5:
    {
        /* from range to range, as the documentation has it */
        std::vector< T > w, u( v );
        raft::map m;
        if( r.chance( 1, 2 ) )
        {
            auto a( raft::read_each< T >( u.begin(), u.end() ) );
            auto b( raft::write_each< T >( std::back_inserter( w ) ) );
            m += a >> b;
            drive( m, c, r );
        }
        else
        {
            using RE = raft::readeach< T, typename std::vector< T >::iterator >;
            using WE = raft::writeeach< T, std::back_insert_iterator< std::vector< T > > >;
            auto b( u.begin() ), e( u.end() );
            auto bi( std::back_inserter( w ) );
            if( r.chance( 1, 2 ) ) m += raft::kernel::make< RE >( b, e ) >> raft::kernel::make< Pass< T > >( r ) >> raft::kernel::make< WE >( bi );
            else m += raft::kernel::make< RE >( b, e ) >> raft::kernel::make< WE >( bi );
            drive( m, c, r );
        }
        same( "read_each to write_each", v, w );
    }
    break;
    }
    if( n > 3 ) distinct( hstr( d ) );
    sample( d );
}

/* an element that prints itself */
template < class T > std::string shown( const std::vector< T > &v, const std::string &delim )
{
    std::ostringstream o;
    for( auto &x : v ) o << x << delim;
    return o.str();
}
template < class T, char D > void printing( Rng &r, const char *tname )
{
    const Config c( r );
    const int ports = r.chance( 2, 3 ) ? 1 : (int) r.range( 2, 5 );
    const uint64_t n = r.chance( 1, 5 ) ? r.below( 3 ) : r.below( 300 );
    const int how = r.chance( 1, 3 ) ? 1 + (int) r.below( 2 ) : 0;     /* itself, a copy, a clone (that the map owns) */
    const std::string d = fmt( "print%s of %s, delimiter %d, %d ports, %llu elements, %s", how == 1 ? ", a copy," : how ? ", a clone," : "", tname, (int) D, ports, (unsigned long long) n, c.str().c_str() );
    describe( d );
    std::ostringstream out;
    out << "before:";
    std::vector< std::vector< T > > v;
    {
        raft::map m;
        std::unique_ptr< raft::print< T, D > > p0( new raft::print< T, D >( out, (size_t) ports ) ), p1;
        raft::kernel *pk = p0.get();
        if( how == 1 ) { p1.reset( new raft::print< T, D >( *p0 ) ); pk = p1.get(); }
        if( how == 2 ) pk = p0->clone();
        if( how && r.chance( 1, 2 ) ) p0.reset();
        raft::kernel &p( *pk );
        std::vector< std::unique_ptr< SrcOf< T > > > s;
        std::vector< raft::kernel * > made;
        for( int i = 0; i < ports; i++ ) v.push_back( numbers< T >( ports == 1 ? n : r.below( n + 1 ), 1000 + r.below( 1000 ) ) );
        for( int i = 0; i < ports; i++ ) { s.emplace_back( new SrcOf< T >( v[ i ], r ) ); wire( m, *s.back(), "out", p, std::to_string( i ), r ); }
        drive( m, c, r );
    }
    std::string text = out.str();
    VCHECK( text.compare( 0, 7, "before:" ) == 0, "print", "print changed what was written before" );
    text = text.substr( 7 );
    const std::string delim = D ? std::string( 1, D ) : std::string();
    if( ports == 1 )
    {
        const std::string want = shown( v[ 0 ], delim );
        size_t i = 0;
        while( i < want.size() && i < text.size() && want[ i ] == text[ i ] ) i++;
        VCHECK( want == text, "print", "print wrote %zu characters, %zu are due; they differ at %zu (\"%s\", due is \"%s\")", text.size(), want.size(), i, text.substr( i, 30 ).c_str(), want.substr( i, 30 ).c_str() );
    }
    else if constexpr( D != '\0' )
    {
        /* each port in its order; elements of different ports may look alike: match with memory of the places reached */
        std::vector< std::string > got;
        size_t a = 0;
        while( a < text.size() ) { const size_t b = text.find( D, a ); VCHECK( b != std::string::npos, "print", "the last element has no delimiter" ); got.push_back( text.substr( a, b - a ) ); a = b + 1; }
        std::multiset< std::string > due;
        for( auto &x : v ) for( auto &y : x ) { std::ostringstream o; o << y; due.insert( o.str() ); }
        std::multiset< std::string > have( got.begin(), got.end() );
        VCHECK( due == have, "print", "print of %d ports wrote %zu elements, %zu are due, or others", ports, have.size(), due.size() );
        for( auto &x : v )
        {
            /* the elements of one port, each at its earliest place, must be a subsequence */
            size_t at = 0;
            for( auto &y : x ) { std::ostringstream o; o << y; while( at < got.size() && got[ at ] != o.str() ) at++; VCHECK( at < got.size(), "print", "print of %d ports: the elements of a port are out of order", ports ); at++; }
        }
    }
    count( "elements printed", (long long) text.size() );
    if( n > 3 ) distinct( hstr( d ) );
    sample( d );
}
/* lambda kernels */
template < class P > uint64_t nports( P &p ) { uint64_t n = 0; for( auto &x : p ) { (void) x; n++; } return n; }
inline void lambdas( Rng &r )
{
    const Config c( r );
    const int kind = (int) r.below( 4 );
    const uint64_t n = 1 + r.below( 300 );
    const std::string d = fmt( "lambda kernel %d, %llu elements, %s", kind, (unsigned long long) n, c.str().c_str() );
    describe( d );
    raft::map m;
    uint64_t calls = 0;
    if( kind == 0 )
    {
        /* a source, then a worker with one type for all ports, then a sink */
        uint64_t i = 0;
        std::vector< uint64_t > want, got;
        const int w = (int) r.range( 1, 4 );
        raft::lambdak< uint64_t > a( 0, (size_t) w, [ & ]( Port &in, Port &out )
        {
            VCHECK( nports( in ) == 0 && nports( out ) == (uint64_t) w, "lambda-ports", "a lambda kernel with 0 inputs and %d outputs has %llu and %llu", w, (unsigned long long) nports( in ), (unsigned long long) nports( out ) );
            calls++;
            if( i < n ) { for( int k = 0; k < w; k++ ) out[ std::to_string( k ) ].push< uint64_t >( i * 10 + k ); i++; return raft::proceed; }
            return raft::stop;
        } );
        raft::lambdak< uint64_t > b( (size_t) w, 1, [ & ]( Port &in, Port &out )
        {
            for( int k = 0; k < w; k++ )
            {
                auto &f( in[ std::to_string( k ) ] );
                uint64_t x = 0;
                /* any input may be the one that has data: wait for the rest */
                f.pop< uint64_t >( x );
                out[ "0" ].push< uint64_t >( x + 1 );
            }
            return raft::proceed;
        } );
        raft::lambdak< uint64_t > z( 1, 0, [ & ]( Port &in, Port &out )
        {
            VCHECK( nports( in ) == 1 && nports( out ) == 0, "lambda-ports", "a lambda kernel with 1 input and 0 outputs has others" );
            uint64_t x = 0;
            in[ "0" ].pop< uint64_t >( x );
            got.push_back( x );
            return raft::proceed;
        } );
        for( int k = 0; k < w; k++ ) wire( m, a, std::to_string( k ), b, std::to_string( k ), r );
        wire( m, b, "0", z, "0", r );
        drive( m, c, r );
        for( uint64_t j = 0; j < n; j++ ) for( int k = 0; k < w; k++ ) want.push_back( j * 10 + k + 1 );
        same( "lambda kernels", want, got );
        VCHECK( calls == n + 1, "lambda-calls", "a lambda source was called %llu times, %llu are due", (unsigned long long) calls, (unsigned long long) n + 1 );
    }
    else if( kind == 1 )
    {
        /* a type for each port, in order */
        std::vector< std::string > got, want;
        SrcOf< int > *sa; SrcOf< double > *sb;
        std::vector< int > ia; std::vector< double > db;
        for( uint64_t j = 0; j < n; j++ ) { ia.push_back( (int)( j * 3 ) - 50 ); db.push_back( j * 0.5 ); }
        SrcOf< int > s1( ia, r ); SrcOf< double > s2( db, r );
        sa = &s1; sb = &s2;
        raft::lambdak< int, double, std::string, uint8_t > k( 2, 2, [ & ]( Port &in, Port &out )
        {
            int a = 0; double b = 0;
            in[ "0" ].pop< int >( a ); in[ "1" ].pop< double >( b );
            out[ "0" ].push< std::string >( fmt( "%d/%g", a, b ) );
            out[ "1" ].push< uint8_t >( (uint8_t) a );
            return raft::proceed;
        } );
        Keep< std::string > ks( r ); Keep< uint8_t > kb( r );
        wire( m, *sa, "out", k, "0", r ); wire( m, *sb, "out", k, "1", r );
        wire( m, k, "0", ks, "in", r ); wire( m, k, "1", kb, "in", r );
        drive( m, c, r );
        std::vector< uint8_t > gb, wb;
        for( uint64_t j = 0; j < n; j++ ) { want.push_back( fmt( "%d/%g", ia[ j ], db[ j ] ) ); wb.push_back( (uint8_t) ia[ j ] ); }
        for( auto &x : ks.got ) got.push_back( x.first );
        for( auto &x : kb.got ) gb.push_back( x.first );
        same( "lambda kernel of several types", want, got );
        same( "lambda kernel of several types", wb, gb );
    }
    else if( kind == 2 )
    {
        /* the types decide which links are possible */
        raft::lambdak< int, double > k( 1, 1, []( Port &, Port & ) { return raft::stop; } );
        Src< uint64_t > s( 0, 1, r, false );
        Keep< double > z( r );
        std::vector< int > one{ 4 };
        SrcOf< int > s2( one, r );
        bool threw = false;
        try { m.link( &s, "out", &k, "0" ); } catch( PortTypeMismatchException & ) { threw = true; }
        VCHECK( threw, "lambda-ports", "an input of type int was linked to an output of type uint64_t" );
        threw = false;
        Keep< int > zi( r );
        try { m.link( &k, "0", &zi, "in" ); } catch( PortTypeMismatchException & ) { threw = true; }
        VCHECK( threw, "lambda-ports", "an output of type double was linked to an input of type int" );
        raft::map m2;
        raft::lambdak< int, double > k2( 1, 1, []( Port &in, Port &out ) { int x = 0; in[ "0" ].pop< int >( x ); out[ "0" ].push< double >( x * 0.25 ); return raft::proceed; } );
        m2 += s2 >> k2 >> z;
        drive( m2, c, r );
        VCHECK( z.got.size() == 1 && z.got[ 0 ].first == 1.0, "lambda-ports", "the lambda kernel from int to double gave %zu elements", z.got.size() );
    }
    else
    {
        /* a filter with a state, ended by itself */
        const uint64_t upto = r.below( n );
        uint64_t i = 0, seen = 0;
        std::vector< uint64_t > want, got;
        m += raft::kernel::make< raft::lambdak< uint64_t > >( 0, 1, [ & ]( Port &, Port &out ) { out[ "0" ].push< uint64_t >( i ); return i++ < upto ? raft::proceed : raft::stop; } )
             >> raft::kernel::make< raft::lambdak< uint64_t > >( 1, 1, [ & ]( Port &in, Port &out ) { uint64_t x = 0; in[ "0" ].pop< uint64_t >( x ); if( x % 3 == 0 ) out[ "0" ].push< uint64_t >( x ); seen++; return raft::proceed; } )
             >> raft::kernel::make< raft::lambdak< uint64_t > >( 1, 0, [ & ]( Port &in, Port & ) { uint64_t x = 0; in[ "0" ].pop< uint64_t >( x ); got.push_back( x ); return raft::proceed; } );
        drive( m, c, r );
        for( uint64_t j = 0; j <= upto; j++ ) if( j % 3 == 0 ) want.push_back( j );
        same( "lambda filter", want, got );
        VCHECK( seen == upto + 1, "lambda-calls", "the lambda filter took %llu of %llu elements", (unsigned long long) seen, (unsigned long long) upto + 1 );
    }
    distinct( hstr( d ) );
    sample( d );
}

/* ---------- K03, K04 ---------- */
inline std::string a_file( const std::string &content )
{
    static std::atomic< unsigned > k{ 0 };
    const std::string name = fmt( "f%d.%u", (int) getpid(), k++ % 64 );
    std::ofstream f( name, std::ios::binary | std::ios::trunc );
    f.write( content.data(), (long) content.size() );
    return name;
}
struct Chunk { uint64_t start, length, index; std::string bytes; signal sig; };
/* keeps chunks, read in the ways that a user may */
template < class C > class KeepChunks : public raft::kernel
{
public:
    std::vector< Chunk > got; Pace pace;
    KeepChunks( Rng &r ) : pace( r ) { input.addPort< C >( "in" ); }
    void take( C &c, signal s )
    {
        Chunk k{ c.start_position, c.length, c.index, std::string( c.buffer, c.length <= C::getChunkSize() ? c.length : C::getChunkSize() ), s };
        VCHECK( c.length < C::getChunkSize(), "chunk-length", "a chunk of %zu bytes has length %zu", C::getChunkSize(), (size_t) c.length );
        VCHECK( c.buffer[ c.length ] == '\0', "chunk-not-terminated", "chunk %llu is not terminated", (unsigned long long) c.index );
        size_t n = 0;
        auto e( c.end() );
        for( auto it( c.begin() ); it != e; ++it, n++ )
        {
            VCHECK( n < c.length, "chunk-iterator", "the iterator of chunk %llu goes beyond its %zu bytes", (unsigned long long) c.index, (size_t) c.length );
            VCHECK( *it == c.buffer[ n ] && it.location() == c.start_position + n && c[ n ] == c.buffer[ n ], "chunk-iterator", "the iterator of chunk %llu is wrong at byte %zu", (unsigned long long) c.index, n );
        }
        VCHECK( n == c.length, "chunk-iterator", "the iterator of chunk %llu gives %zu of %zu bytes", (unsigned long long) c.index, n, (size_t) c.length );
        /* jumps and comparisons */
        for( int t = 0; t < 3 && c.length > 0; t++ )
        {
            const size_t i = pace.q.below( c.length ), j = pace.q.below( c.length - i ), l = pace.q.below( c.length - i );
            auto x( c.begin() ); x += i;
            auto y( x ); y += j;
            auto z( c.end() ); z = x;
            VCHECK( *x == c.buffer[ i ] && x[ l ] == c.buffer[ i + l ] && *y == c.buffer[ i + j ] && *z == *x && y.location() == c.start_position + i + j && z.location() == c.start_position + i,
                    "chunk-iterator", "jumps to %zu, %zu and %zu in chunk %llu of %zu bytes", i, i + j, i + l, (unsigned long long) c.index, (size_t) c.length );
            VCHECK( ( x < y ) == ( j > 0 ) && x <= y && ( y <= x ) == ( j == 0 ) && ( x == y ) == ( j == 0 ) && ( x != y ) == ( j > 0 ) && ! ( y < x ) && x < e && y != e, "chunk-iterator", "comparisons of the positions %zu and %zu", i, i + j );
        }
        got.push_back( k );
    }
    virtual raft::kstatus run()
    {
        auto &f( input[ "in" ] );
        signal s = (signal) 4242;
        switch( pace.q.below( 3 ) )
        {
        case 0: { auto &c( f.template peek< C >( &s ) ); pace(); take( c, s ); f.unpeek(); f.recycle(); } break;
        case 1: { auto c( f.template pop_s< C >() ); take( const_cast< C & >( *c ), c.sig() ); } break;
        case 2:
        {
            C c;
            f.template pop< C >( c, &s );
            /* copies are as good */
            C d( c ), e;
            e = d;
            take( e, s );
        }
        break;
        }
        pace();
        return raft::proceed;
    }
};
struct Plan { std::string text; size_t overlap; int ports; };
inline std::string words( Rng &r, size_t n, int letters )
{
    std::string s( n, 'a' );
    for( auto &c : s ) c = letters ? (char)( 'a' + r.below( (uint64_t) letters ) ) : (char) r.below( 256 );
    return s;
}
/* a length near the places where something changes */
inline size_t a_length( Rng &r, size_t chunk, size_t overlap, size_t maxlen )
{
    const size_t step = chunk - 1 - overlap;
    size_t n;
    switch( r.below( 6 ) )
    {
    case 0: n = r.below( chunk + 3 ); break;
    case 1: n = r.below( 3 ); break;
    case 2: n = r.below( maxlen ); break;
    default: { const int64_t k = (int64_t)( step * r.below( 1 + std::min< size_t >( maxlen / step, 60 ) ) + overlap ) + r.range( -2, 2 ); n = k < 0 ? 0 : (size_t) k; }
    }
    return std::min( n, maxlen + 200 );
}
template < size_t N > void reader( Rng &r )
{
    using C = raft::filechunk< N >;
    const Config c( r );
    const size_t overlap = r.chance( 1, 3 ) ? 0 : r.below( N - 2 ), step = N - 1 - overlap;
    const int ports = r.chance( 2, 3 ) ? 1 : (int) r.range( 2, 4 );
    const size_t len = a_length( r, N, overlap, N > 1000 ? 60000 : step < 4 ? 600 : 6000 );
    const std::string text = words( r, len, (int) r.below( 2 ) * 3 );
    const std::string d = fmt( "file of %zu bytes in chunks of %zu overlapping by %zu, %d ports, %s", len, N, overlap, ports, c.str().c_str() );
    describe( d );
    const auto name = a_file( text );
    std::vector< Chunk > all;
    {
        raft::map m;
        raft::filereader< C, false > fr( name, (long) overlap, (size_t) ports );
        std::vector< std::unique_ptr< KeepChunks< C > > > k;
        for( int i = 0; i < ports; i++ ) { k.emplace_back( new KeepChunks< C >( r ) ); wire( m, fr, std::to_string( i ), *k.back(), "in", r ); }
        drive( m, c, r );
        for( auto &x : k )
        {
            for( size_t i = 1; i < x->got.size(); i++ ) VCHECK( x->got[ i ].index > x->got[ i - 1 ].index, "chunk-order", "chunk %llu came after chunk %llu", (unsigned long long) x->got[ i ].index, (unsigned long long) x->got[ i - 1 ].index );
            all.insert( all.end(), x->got.begin(), x->got.end() );
        }
    }
    unlink( name.c_str() );
    std::sort( all.begin(), all.end(), []( const Chunk &a, const Chunk &b ) { return a.index < b.index; } );
    const size_t n = len <= overlap || len == 0 ? 1 : ( len - overlap + step - 1 ) / step;
    VCHECK( ! all.empty(), "file-not-covered", "no chunk was sent" );
    size_t covered = 0;
    for( size_t i = 0; i < all.size(); i++ )
    {
        auto &k( all[ i ] );
        VCHECK( k.index == i, "chunk-index", "chunk %zu has index %llu", i, (unsigned long long) k.index );
        VCHECK( k.start <= len && k.start + k.length <= len, "chunk-position", "chunk %zu states %llu+%llu of %zu bytes", i, (unsigned long long) k.start, (unsigned long long) k.length, len );
        VCHECK( text.compare( k.start, k.length, k.bytes ) == 0, "chunk-bytes", "chunk %zu holds other bytes than the file has at %llu", i, (unsigned long long) k.start );
        VCHECK( k.start == ( i ? covered - overlap : 0 ), "chunk-overlap", "chunk %zu starts at %llu, the one before it ends at %zu, the overlap is %zu", i, (unsigned long long) k.start, covered, overlap );
        VCHECK( i + 1 == all.size() || k.length == N - 1, "chunk-length", "chunk %zu of %zu has %llu bytes", i, all.size(), (unsigned long long) k.length );
        covered = k.start + k.length;
        /* with several ports, the last chunk of each port counts as an end */
        const bool may = i + (size_t) ports >= all.size(), must = i + 1 == all.size();
        VCHECK( k.sig == raft::none || k.sig == raft::eof, "wrong-signal", "chunk %zu has signal %d", i, (int) k.sig );
        VCHECK( k.sig != raft::eof || may, "end-too-early", "chunk %zu of %zu is marked as the end", i, all.size() );
        VCHECK( k.sig == raft::eof || ! must, "end-not-marked", "the last of %zu chunks is not marked as the end", all.size() );
    }
    VCHECK( covered == len, "file-not-covered", "the chunks end at %zu of %zu bytes", covered, len );
    VCHECK( all.size() == n, "chunk-surplus", "%zu chunks, %zu cover the file", all.size(), n );
    count( "chunks checked", (long long) all.size() ); count( "bytes covered", (long long) len );
    if( n > 1 ) distinct( hstr( d ) );
    sample( d );
}
/* chunks made by hand, for the search kernel alone */
template < class C > class ChunkSrc : public raft::kernel
{
public:
    const std::vector< std::pair< uint64_t, std::string > > &x; size_t at = 0; Pace pace;
    ChunkSrc( const std::vector< std::pair< uint64_t, std::string > > &x, Rng &r ) : x( x ), pace( r ) { output.addPort< C >( "0" ); }
    virtual raft::kstatus run()
    {
        if( at < x.size() )
        {
            auto &c( output[ "0" ].template allocate< C >() );
            /* what lies behind the end must not matter */
            std::memset( c.buffer, 'a', C::getChunkSize() );
            std::memcpy( c.buffer, x[ at ].second.data(), x[ at ].second.size() );
            c.length = x[ at ].second.size(); c.start_position = x[ at ].first; c.index = at;
            output[ "0" ].send();
            at++; pace();
        }
        return at < x.size() ? raft::proceed : raft::stop;
    }
};
inline std::vector< std::pair< size_t, size_t > > occurrences( const std::string &s, uint64_t base, const std::string &term )
{
    std::vector< std::pair< size_t, size_t > > o;
    for( size_t i = 0; i + term.size() <= s.size(); i++ ) if( s.compare( i, term.size(), term ) == 0 ) o.emplace_back( base + i, base + i + term.size() );
    return o;
}
inline void same_matches( const char *what, const std::vector< std::pair< size_t, size_t > > &want, const std::vector< std::pair< size_t, size_t > > &got )
{
    for( size_t i = 0; i < want.size() && i < got.size(); i++ )
        VCHECK( want[ i ] == got[ i ], "wrong-match", "%s: match %zu of %zu is [%zu,%zu), [%zu,%zu) is due", what, i, want.size(), got[ i ].first, got[ i ].second, want[ i ].first, want[ i ].second );
    VCHECK( want.size() == got.size(), "wrong-match-count", "%s: %zu matches, %zu are due", what, got.size(), want.size() );
    count( "matches", (long long) want.size() );
}
} /* namespace lk */
namespace vh {
template <> struct Val< raft::match_t >
{
    static raft::match_t make( uint64_t v ) { return { v, v }; }
    static void put( raft::match_t &t, uint64_t v ) { t = { v, v }; }
    static bool is( const raft::match_t &, uint64_t ) { return true; }
    static std::string str( const raft::match_t &t ) { return fmt( "[%zu,%zu)", t.first, t.second ); }
};
}
namespace lk {
template < size_t N > void searching( Rng &r )
{
    using C = raft::filechunk< N >;
    const Config c( r );
    const int letters = (int) r.range( 1, 3 );
    const std::string term = words( r, 1 + r.below( r.chance( 1, 6 ) ? N + 2 : std::min< size_t >( 6, N - 3 ) ), letters );
    const bool whole = term.size() - 1 < N - 2 && r.chance( 2, 3 );
    std::vector< std::pair< size_t, size_t > > want, got;
    std::string d;
    raft::map m;
    Keep< raft::match_t > k( r, "in" );
    if( whole )
    {
        /* reader and search, overlapping by the term less one: all occurrences, once */
        const size_t overlap = term.size() - 1;
        const size_t len = a_length( r, N, overlap, N > 1000 && letters > 1 && all_links == 0 ? 30000 : N - 1 - overlap < 4 ? 500 : letters == 1 ? 600 : 4000 );
        const std::string text = words( r, len, letters );
        const int ways = r.chance( 3, 4 ) ? 1 : (int) r.range( 2, 4 );
        d = fmt( "search of %zu bytes for %s in chunks of %zu, %d ways, %s", len, term.c_str(), N, ways, c.str().c_str() );
        describe( d );
        const auto name = a_file( text );
        want = occurrences( text, 0, term );
        {
            raft::filereader< C, false > fr( name, (long) overlap, (size_t) ways );
            std::vector< std::unique_ptr< raft::search< C, raft::stdlib > > > s;
            std::vector< std::unique_ptr< Keep< raft::match_t > > > ks;
            for( int i = 0; i < ways; i++ )
            {
                s.emplace_back( r.chance( 1, 2 ) ? new raft::search< C, raft::stdlib >( term ) : new raft::search< C, raft::stdlib >( std::string( term ) ) );
                ks.emplace_back( new Keep< raft::match_t >( r ) );
                wire( m, fr, std::to_string( i ), *s.back(), "0", r );
                wire( m, *s.back(), "0", *ks.back(), "in", r );
            }
            drive( m, c, r );
            for( auto &x : ks )
            {
                for( size_t i = 0; i < x->got.size(); i++ )
                {
                    VCHECK( i == 0 || x->got[ i - 1 ].first < x->got[ i ].first, "match-order", "match [%zu,%zu) after [%zu,%zu)", x->got[ i ].first.first, x->got[ i ].first.second, x->got[ i - 1 ].first.first, x->got[ i - 1 ].first.second );
                    got.push_back( x->got[ i ].first );
                }
            }
        }
        if( ways > 1 ) std::sort( got.begin(), got.end() );
        unlink( name.c_str() );
        same_matches( "search of a file", want, got );
    }
    else
    {
        std::vector< std::pair< uint64_t, std::string > > x;
        const int n = 1 + (int) r.below( 20 );
        uint64_t at = r.chance( 1, 3 ) ? ( 1ull << 33 ) + r.below( 1000 ) : 0;
        for( int i = 0; i < n; i++ )
        {
            x.emplace_back( at, words( r, r.chance( 1, 4 ) ? r.below( std::min< size_t >( N, 5 ) ) : r.chance( 1, 3 ) ? N - 1 : r.below( std::min< size_t >( N, 400 ) ), letters ) );
            at += r.below( 50 );
            for( auto &o : occurrences( x.back().second, x.back().first, term ) ) want.push_back( o );
        }
        d = fmt( "search of %d chunks of up to %zu for %s, %s", n, N, term.c_str(), c.str().c_str() );
        describe( d );
        ChunkSrc< C > src( x, r );
        raft::search< C, raft::stdlib > s( term );
        wire( m, src, "0", s, "0", r ); wire( m, s, "0", k, "in", r );
        drive( m, c, r );
        for( auto &y : k.got ) got.push_back( y.first );
        same_matches( "search of chunks", want, got );
    }
    if( want.size() > 1 ) distinct( hstr( d ) );
    sample( d );
}

/* ---------- K05 ---------- */
template < class T, int P, bool MULT > class Op : public raft::kernel
{
public:
    Pace pace; uint64_t n = 0;
    Op( Rng &r ) : pace( r )
    {
        for( int i = 0; i < P; i++ ) input.addPort< T >( fmt( "i%d", i ) );
        output.addPort< T >( "out" );
        sched_behav = r.chance( 1, 2 ) ? raft::all_port : raft::any_port;
    }
    virtual raft::kstatus run()
    {
        T v;
        if constexpr( P == 1 ) v = MULT ? raft::mult< T >( input[ "i0" ] ) : raft::sum< T >( input[ "i0" ] );
        if constexpr( P == 2 ) v = MULT ? raft::mult< T >( input[ "i0" ], input[ "i1" ] ) : raft::sum< T >( input[ "i0" ], input[ "i1" ] );
        if constexpr( P == 3 ) v = MULT ? raft::mult< T >( input[ "i0" ], input[ "i1" ], input[ "i2" ] ) : raft::sum< T >( input[ "i0" ], input[ "i1" ], input[ "i2" ] );
        if constexpr( P == 5 ) v = MULT ? raft::mult< T >( input[ "i0" ], input[ "i1" ], input[ "i2" ], input[ "i3" ], input[ "i4" ] )
                                        : raft::sum< T >( input[ "i0" ], input[ "i1" ], input[ "i2" ], input[ "i3" ], input[ "i4" ] );
        output[ "out" ].template push< T >( v );
        pace(); n++;
        return raft::proceed;
    }
};
template < class T, int P, bool MULT > void arith( Rng &r, const char *tname )
{
    const Config c( r );
    const uint64_t n = 1 + r.below( 300 );
    const std::string d = fmt( "%s of %d ports of %s, %llu elements, %s", MULT ? "product" : "sum", P, tname, (unsigned long long) n, c.str().c_str() );
    describe( d );
    std::vector< std::vector< T > > v( P );
    std::vector< T > want, got;
    for( uint64_t i = 0; i < n; i++ )
    {
        T w = MULT ? (T) 1 : (T) 0;
        for( int p = 0; p < P; p++ )
        {
            /* within the exact range of the type */
            const int64_t lim = sizeof( T ) == 1 ? 2 : std::is_floating_point< T >::value ? 20 : sizeof( T ) == 2 ? 5 : 50;
            const T x = (T) r.range( std::is_signed< T >::value ? -lim : 0, lim );
            v[ p ].push_back( x );
            w = (T)( MULT ? w * x : w + x );
        }
        want.push_back( w );
    }
    raft::map m;
    Op< T, P, MULT > op( r );
    Keep< T > k( r );
    std::vector< std::unique_ptr< SrcOf< T > > > s;
    for( int p = 0; p < P; p++ ) { s.emplace_back( new SrcOf< T >( v[ p ], r ) ); wire( m, *s.back(), "out", op, fmt( "i%d", p ), r ); }
    wire( m, op, "out", k, "in", r );
    drive( m, c, r );
    for( auto &x : k.got ) got.push_back( x.first );
    same( MULT ? "mult" : "sum", want, got );
    VCHECK( op.n == n, "elements-lost", "%llu of %llu sums were made", (unsigned long long) op.n, (unsigned long long) n );
    distinct( hstr( d ) );
    sample( d );
}
template < class K, class T, class F > void variates( Rng &r, const char *what, K &&k, uint64_t n, F within )
{
    const Config c( r );
    describe( fmt( "%llu variates, %s, %s", (unsigned long long) n, what, c.str().c_str() ) );
    raft::map m;
    Keep< T > s( r );
    wire( m, k, "0", s, "in", r );
    drive( m, c, r );
    VCHECK( s.got.size() == n, "wrong-count", "%s: %zu variates, %llu were asked for", what, s.got.size(), (unsigned long long) n );
    for( auto &x : s.got ) VCHECK( within( x.first ), "out-of-range", "%s: %s is outside of its distribution", what, Val< T >::str( x.first ).c_str() );
    count( "variates", (long long) n );
    if( n > 2 ) distinct( hcomb( hstr( what ), n ) );
}
inline void randoms( Rng &r )
{
    using namespace raft;
    const uint64_t n = r.chance( 1, 4 ) ? r.below( 3 ) : 1 + r.below( 500 );
    switch( r.below( 4 ) )
    {
    case 0:
    {
        const int lo = (int) r.range( -50, 50 ), hi = lo + (int) r.below( 5 );
        random_variate< std::default_random_engine, std::uniform_int_distribution, int > k( n, lo, hi );
        std::set< int > seen;
        variates< decltype( k ) &, int >( r, "uniform int", k, n, [ & ]( int x ) { seen.insert( x ); return x >= lo && x <= hi; } );
        VCHECK( n < 400 || seen.size() == (size_t)( hi - lo + 1 ), "not-random", "%llu variates from %d values gave %zu of them", (unsigned long long) n, hi - lo + 1, seen.size() );
    }
    break;
    case 1:
    {
        random_variate< std::mt19937_64, std::uniform_int_distribution, uint64_t > k0( n, 5, 1000000 );
        if( r.chance( 1, 2 ) )
        {
            variates< raft::kernel &, uint64_t >( r, "a clone of uniform int", *k0.clone(), n, []( uint64_t x ) { return x >= 5 && x <= 1000000; } );
            break;
        }
        random_variate< std::mt19937_64, std::uniform_int_distribution, uint64_t > k( k0 );
        variates< decltype( k ) &, uint64_t >( r, "a copy of uniform int", k, n, []( uint64_t x ) { return x >= 5 && x <= 1000000; } );
    }
    break;
    case 2:
    {
        random_variate< std::mt19937, std::exponential_distribution, double > k( n, 2.0 );
        variates< decltype( k ) &, double >( r, "exponential", k, n, []( double x ) { return x >= 0 && x < 1e6; } );
    }
    break;
    case 3:
    {
        random_variate< std::mt19937, std::uniform_real_distribution, float > k( n, 0.5f, 0.75f );
        variates< decltype( k ) &, float >( r, "uniform real", k, n, []( float x ) { return x >= 0.5f && x <= 0.75f; } );
    }
    break;
    }
}
/* the cosine transform of a stream of 8x8 matrices: each output is the transform of the input at the same place */
template < class T > inline void cosines( Rng &r, const char *what )
{
    using namespace raft;
    using M = matrix< T, 8 >;
    const uint64_t n = r.chance( 1, 4 ) ? r.below( 3 ) : 1 + r.below( r.chance( 1, 5 ) ? 300 : 60 );
    std::vector< M > in( n );
    std::vector< double > scale;
    for( auto &m : in )
    {
        const int kind = (int) r.below( 4 );
        const double s = std::pow( 10.0, (double) r.range( -2, 4 ) );
        const int spot = (int) r.below( 64 );
        for( int i = 0; i < 64; i++ )
        {
            double v = 0;
            switch( kind )
            {
            case 0: v = ( (double) r.below( 2000001 ) / 1e6 - 1 ) * s; break;
            case 1: v = s; break;
            case 2: v = i == spot ? s : 0; break;
            default: v = (double) r.below( 256 ) - 128; break;
            }
            m.arr[ i ] = (T) v;
        }
    }
    Config c( r );
    const std::string d = fmt( "%llu matrices of %s through the transform, %s", (unsigned long long) n, what, c.str().c_str() );
    describe( d );
    SrcOf< M > src( in, r );
    Keep< M > keep( r );
    dct< T, x88 > k;
    map m;
    m += src >> k >> keep;
    drive( m, c, r );
    VCHECK( keep.got.size() == n, "dct-count", "%zu matrices came out of %llu", keep.got.size(), (unsigned long long) n );
    for( uint64_t j = 0; j < n; j++ )
    {
        long double mag = 0;
        for( int i = 0; i < 64; i++ ) mag += fabsl( (long double) in[ j ].arr[ i ] );
        const long double tol = mag * 64 * std::numeric_limits< T >::epsilon() + 1e-30L;
        for( int u = 0; u < 8; u++ ) for( int v = 0; v < 8; v++ )
        {
            long double e = 0;
            for( int x = 0; x < 8; x++ ) for( int y = 0; y < 8; y++ )
                e += (long double) in[ j ].arr[ x * 8 + y ] * cosl( M_PIl * ( x + 0.5L ) * u / 8 ) * cosl( M_PIl * ( y + 0.5L ) * v / 8 );
            e *= ( u ? 0.5L : 1 / ( 2 * sqrtl( 2.0L ) ) ) * ( v ? 0.5L : 1 / ( 2 * sqrtl( 2.0L ) ) );
            const long double g = keep.got[ j ].first.arr[ u * 8 + v ];
            VCHECK( fabsl( g - e ) <= tol, "dct-value", "matrix %llu: coefficient %d,%d is %Lg instead of %Lg", (unsigned long long) j, u, v, g, e );
            count( "coefficients" );
        }
        VCHECK( keep.got[ j ].first.dim == 8, "dct-dim", "matrix %llu came with dimension %zu", (unsigned long long) j, (size_t) keep.got[ j ].first.dim );
    }
    distinct( hcomb( hstr( d ), keep.trace ) );
    sample( d );
}
/* selection of an input that has data */
class Sel : public raft::kernel
{
public:
    const int P; Pace pace; uint64_t none = 0;
    std::vector< std::vector< uint64_t > > got; std::vector< std::pair< uint64_t, signal > > sigs;
    std::vector< std::unique_ptr< Src< uint64_t > > > srcs; uint64_t still = 0; int wait;
    /* nothing is being written any more: what the streams say is exact */
    bool quiet() const { for( auto &s : srcs ) if( s->done < s->n ) return false; return true; }
    Sel( int P, Rng &r ) : P( P ), pace( r ), got( (size_t) P ), wait( r.chance( 1, 2 ) ? 20 : 0 )
    {
        for( int i = 0; i < P; i++ ) input.addPort< uint64_t >( fmt( "i%d", i ) );
    }
    raft::select_t pick()
    {
        switch( P )
        {
        case 1: return raft::select::in( input, "i0" );
        case 2: return raft::select::in( input, "i0", "i1" );
        case 3: return raft::select::in( input, std::string( "i0" ), std::string( "i2" ), std::string( "i1" ) );
        default: return raft::select::in( input, "i3", "i0", "i2", "i1" );
        }
    }
    virtual raft::kstatus run()
    {
        for( ; wait > 0 && ! quiet(); wait-- ) usleep( 2000 );
        const bool still_now = quiet();
        std::vector< size_t > before;
        size_t any = 0;
        for( int i = 0; i < P; i++ ) { before.push_back( input[ fmt( "i%d", i ) ].size() ); any += before.back(); }
        auto x( pick() );
        for( int t = 0; still_now && x.first && t < 10; t++ ) { x = pick(); still++; }
        /* at rest, each stream alone and each two of them: exact, also that there is nothing */
        for( int i = 0; still_now && i < P; i++ )
        {
            const std::string a( fmt( "i%d", i ) ), b( fmt( "i%d", ( i + 1 ) % P ) );
            auto y( raft::select::in( input, a ) );
            const size_t na = before[ (size_t) i ], nb = before[ (size_t) ( i + 1 ) % (size_t) P ];
            VCHECK( y.first == na && &y.second.get() == &input[ a ], "select-count", "select of %s alone, at rest with %zu elements, gave %zu", a.c_str(), na, y.first );
            auto z( raft::select::in( input, a, b ) );
            const bool isa = &z.second.get() == &input[ a ], isb = &z.second.get() == &input[ b ];
            VCHECK( isa || isb, "select-other", "select of %s and %s gave another stream", a.c_str(), b.c_str() );
            VCHECK( ( z.first > 0 ) == ( na + nb > 0 ) && z.first == ( isa ? na : nb ), "select-count", "select of %s and %s, at rest with %zu and %zu elements, gave %zu of the %s", a.c_str(), b.c_str(), na, nb, z.first, isa ? "first" : "second" );
            if( y.first == 0 ) none++;
        }
        if( still_now ) { still++; VCHECK( x.first > 0 || any == 0, "select-missed", "select found no data, there are %zu elements and nobody writes", any ); }
        /* a stream that is just being filled up may look empty for a moment */
        for( int t = 0; x.first == 0 && any && t < 3000; t++ ) { usleep( 1000 ); x = pick(); }
        VCHECK( x.first > 0 || any == 0, "select-missed", "select found no data, there are %zu elements", any );
        if( x.first == 0 ) { none++; return raft::proceed; }
        FIFO &f( x.second.get() );
        int p = -1;
        for( int i = 0; i < P; i++ ) if( &f == &input[ fmt( "i%d", i ) ] ) p = i;
        VCHECK( p >= 0, "select-other", "select gave a stream that is none of the inputs" );
        /* only this thread reads: what is there stays there */
        size_t now = f.size();
        for( int t = 0; now < x.first && t < 3000; t++ ) { usleep( 1000 ); now = f.size(); }
        VCHECK( now >= x.first, "select-count", "select gave input %d with %zu elements, it has %zu", p, x.first, now );
        VCHECK( x.first <= f.capacity(), "select-count", "select gave input %d with %zu elements, its capacity is %zu", p, x.first, f.capacity() );
        uint64_t take = pace.q.chance( 1, 2 ) ? 1 : 1 + pace.q.below( x.first );
        while( take-- )
        {
            uint64_t v = 0; signal s = (signal) 4242;
            f.pop< uint64_t >( v, &s );
            got[ (size_t) p ].push_back( v ); sigs.emplace_back( v, s );
        }
        pace();
        return raft::proceed;
    }
};
inline void selecting( Rng &r )
{
    const Config c( r );
    const int P = (int) r.range( 1, 4 );
    const uint64_t n = r.below( r.chance( 1, 2 ) ? 50 : 400 );
    const std::string d = fmt( "select from %d inputs, up to %llu elements, %s", P, (unsigned long long) n, c.str().c_str() );
    describe( d );
    raft::map m;
    Sel k( P, r );
    auto &s( k.srcs );
    for( int i = 0; i < P; i++ )
    {
        s.emplace_back( new Src< uint64_t >( 1000000ull * ( i + 1 ), r.below( n + 1 ), r, true ) );
        wire( m, *s.back(), "out", k, fmt( "i%d", i ), r );
    }
    drive( m, c, r );
    for( int i = 0; i < P; i++ )
    {
        std::vector< uint64_t > want;
        for( uint64_t j = 0; j < s[ i ]->n; j++ ) want.push_back( s[ i ]->base + j );
        same( "select", want, k.got[ i ] );
    }
    for( auto &x : k.sigs ) VCHECK( x.second == sig_of( x.first ), "wrong-signal", "select: %llu came with signal %d", (unsigned long long) x.first, (int) x.second );
    count( "selections among streams at rest", (long long) k.still );
    count( "selections that found nothing", (long long) k.none );
    if( n > 3 ) distinct( hstr( d ) );
    sample( d );
}

/* ---------- Q10: for_each over an array of the user ---------- */
/* reads a part of an array where it lies */
template < class T > class KeepPart : public Keep< T >
{
public:
    const T *a; const size_t start;
    KeepPart( Rng &r, const T *a, size_t start ) : Keep< T >( r ), a( a ), start( start ) {}
    virtual void look( T &t )
    {
        VCHECK( &t == a + start + this->got.size(), "existing-copied", "for_each: element %zu of the part at %zu is not the one in the array", this->got.size(), start );
    }
    virtual void look( FIFO &f )
    {
        if( this->pace.q.chance( 1, 2 ) ) return;
        auto v( f.template peek_range< T >( 1 ) );
        VCHECK( v.getindex() == start, "wrong-start", "for_each: the part of the array at %zu is said to start at %zu", start, v.getindex() );
    }
};
template < class T > void each( Rng &r, const char *tname )
{
    const Config c( r );
    const uint64_t n = r.chance( 1, 5 ) ? 1 + r.below( 12 ) : 1 + r.below( 2000 );
    const int ports = r.chance( 1, 2 ) ? 1 : (int) r.range( 1, (int64_t) std::min< uint64_t >( n, 6 ) );
    const std::string d = fmt( "for_each over %llu of %s, %d ports, %s", (unsigned long long) n, tname, ports, c.str().c_str() );
    describe( d );
    std::vector< T > a( numbers< T >( n, 31 ) );
    const std::vector< T > copy( a );
    std::vector< T > all;
    {
        raft::map m;
        raft::for_each< T > fe( a.data(), n, (size_t) ports );
        std::vector< std::unique_ptr< Keep< T > > > k;
        const bool pass = r.chance( 1, 3 );
        std::vector< std::unique_ptr< Pass< T > > > w;
        for( int i = 0; i < ports; i++ )
        {
            k.emplace_back( pass ? new Keep< T >( r ) : new KeepPart< T >( r, a.data(), (size_t) i * ( n / (uint64_t) ports ) ) );
            if( pass )
            {
                w.emplace_back( new Pass< T >( r ) );
                if( r.chance( 1, 2 ) ) m += fe[ std::to_string( i ) ] >> *w.back(); else m.link( &fe, std::to_string( i ), w.back().get(), "in" );
                wire( m, *w.back(), "out", *k.back(), "in", r );
            }
            else if( r.chance( 1, 2 ) ) m += fe[ std::to_string( i ) ] >> *k.back(); else m.link( &fe, std::to_string( i ), k.back().get(), "in" );
        }
        drive( m, c, r );
        /* each port a piece, in order: together the array */
        for( auto &x : k )
        {
            VCHECK( x->got.size() >= n / (uint64_t) ports && x->got.size() <= n / (uint64_t) ports + (uint64_t) ports, "uneven", "a port of %d was given %zu of %llu elements", ports, x->got.size(), (unsigned long long) n );
            for( auto &y : x->got ) { all.push_back( y.first ); VCHECK( y.second == raft::none, "wrong-signal", "for_each: signal %d", (int) y.second ); }
        }
    }
    VCHECK( all.size() == copy.size(), "wrong-count", "for_each gave %zu of %zu elements", all.size(), copy.size() );
    for( size_t i = 0; i < all.size(); i++ )
    {
        VCHECK( Val< T >::is( all[ i ], 31 + i ), "wrong-element", "for_each: element %zu is %s", i, Val< T >::str( all[ i ] ).c_str() );
        VCHECK( Val< T >::is( a[ i ], 31 + i ), "array-changed", "for_each changed element %zu of the array", i );
    }
    count( "array elements", (long long) n );
    if( n > 3 ) distinct( hstr( d ) );
    sample( d );
}
} /* namespace lk */

// PARTS: 9 (compiled in parallel)
#define PARTFN( n ) void lpart##n( Rng &r, int what )
#if PART == 1
PARTFN( 1 ) { using namespace lk; if( what ) split_join< TSmall >( r, "small" ); else split_join< uint64_t >( r, "uint64" ); }
#elif PART == 2
PARTFN( 2 ) { using namespace lk; if( what ) split_join< Pod24 >( r, "pod24" ); else split_join< std::string >( r, "string" ); }
#elif PART == 3
PARTFN( 3 ) { using namespace lk; if( what ) split_join< TBig >( r, "big" ); else split_join< float >( r, "float" ); }
#elif PART == 4
PARTFN( 4 )
{
    using namespace lk;
    switch( r.below( 9 ) )
    {
    case 0: reading< uint64_t >( r ); break;
    case 1: reading< std::string >( r ); break;
    case 2: reading< uint8_t >( r ); break;
    case 3: reading< double >( r ); break;
    case 4: reading_once( r ); break;
    case 5: writing< uint64_t >( r ); break;
    case 6: writing< std::string >( r ); break;
    case 7: writing< int16_t >( r ); break;
    case 8: writing< float >( r ); break;
    }
}
#elif PART == 5
PARTFN( 5 )
{
    using namespace lk;
    switch( r.below( 7 ) )
    {
    case 0: printing< uint64_t, '\n' >( r, "uint64" ); break;
    case 1: printing< std::string, '\n' >( r, "string" ); break;
    case 2: printing< int, '\0' >( r, "int" ); break;
    case 3: printing< double, ' ' >( r, "double" ); break;
    case 4: printing< std::string, '\0' >( r, "string" ); break;
    default: lambdas( r ); break;
    }
}
#elif PART == 6
PARTFN( 6 )
{
    using namespace lk;
    switch( r.below( 6 ) )
    {
    case 0: reader< 8 >( r ); break;
    case 1: reader< 16 >( r ); break;
    case 2: reader< 65 >( r ); break;
    case 3: reader< 100 >( r ); break;
    case 4: reader< 1024 >( r ); break;
    case 5: if( r.chance( 1, 3 ) ) reader< 65536 >( r ); else reader< 40 >( r ); break;
    }
}
#elif PART == 7
PARTFN( 7 )
{
    using namespace lk;
    switch( r.below( 4 ) )
    {
    case 0: searching< 8 >( r ); break;
    case 1: searching< 40 >( r ); break;
    case 2: searching< 100 >( r ); break;
    case 3: searching< 2048 >( r ); break;
    }
}
#elif PART == 8
PARTFN( 8 )
{
    using namespace lk;
    if( what )
    {
        switch( r.below( 5 ) )
        {
        case 0: each< uint64_t >( r, "uint64" ); break;
        case 1: each< Pod24 >( r, "pod24" ); break;
        case 2: each< uint8_t >( r, "uint8" ); break;
        case 3: each< float >( r, "float" ); break;
        case 4: each< int32_t >( r, "int32" ); break;
        }
        return;
    }
    switch( r.below( 18 ) )
    {
    case 16: cosines< double >( r, "double" ); break;
    case 17: cosines< float >( r, "float" ); break;
    case 0: arith< int, 2, false >( r, "int" ); break;
    case 1: arith< double, 2, true >( r, "double" ); break;
    case 2: arith< uint64_t, 3, false >( r, "uint64" ); break;
    case 3: arith< int64_t, 3, true >( r, "int64" ); break;
    case 4: arith< float, 5, false >( r, "float" ); break;
    case 5: arith< int, 5, true >( r, "int" ); break;
    case 6: arith< int8_t, 2, false >( r, "int8" ); break;
    case 7: arith< int16_t, 1, true >( r, "int16" ); break;
    case 8: arith< double, 1, false >( r, "double" ); break;
    case 9: case 10: case 11: randoms( r ); break;
    default: selecting( r ); break;
    }
}
#else
template < class P, class A > static void ex( raft::map &m, const lk::Config &c )
{
    if( c.no_par ) m.exe< P, simple_schedule, A, no_parallel >();
    else m.exe< P, simple_schedule, A, basic_parallel >();
}
/* kernels are made by one thread at a time, the library says; held by a thread except while its graph runs */
static std::mutex making;
void lk::drive( raft::map &m, const lk::Config &c, Rng &r )
{
    making.unlock();
#ifdef VH_CHAOS
    const int rates[] = { 0, 400, 100, 40 };
    vh_chaos_seed = r.next();
    vh_chaos_rate = rates[ r.below( 4 ) ];
#endif
    std::thread t( [ & ]
    {
        if( c.basic_part && c.stdalloc ) ex< partition_basic, stdalloc >( m, c );
        else if( c.basic_part ) ex< partition_basic, dynalloc >( m, c );
        else if( c.stdalloc ) ex< partition_dummy, stdalloc >( m, c );
        else ex< partition_dummy, dynalloc >( m, c );
    } );
    t.join();
#ifdef VH_CHAOS
    vh_chaos_rate = 0;
#endif
    making.lock();
}
void lpart1( Rng &, int ); void lpart2( Rng &, int ); void lpart3( Rng &, int ); void lpart4( Rng &, int ); void lpart5( Rng &, int ); void lpart6( Rng &, int ); void lpart7( Rng &, int ); void lpart8( Rng &, int );
static void one( Rng &r, std::string mode )
{
    std::lock_guard< std::mutex > g( making );
    if( mode.empty() ) { static const char *M[] = { "split", "adapt", "file", "search", "math", "each" }; mode = M[ r.below( 6 ) ]; }
    const int k = (int) r.below( 2 );
    if( mode == "split" ) { void ( *f[] )( Rng &, int ) = { lpart1, lpart2, lpart3 }; f[ r.below( 3 ) ]( r, k ); }
    else if( mode == "adapt" ) { if( r.chance( 3, 5 ) ) lpart4( r, 0 ); else lpart5( r, 0 ); }
    else if( mode == "file" ) lpart6( r, 0 );
    else if( mode == "search" ) lpart7( r, 0 );
    else lpart8( r, mode == "each" );
}
int main( int argc, char **argv )
{
    return run( argc, argv, []( long long, Rng &r )
    {
        auto mode = opt( "mode" );
        if( mode == "side" )
        {
            /* several graphs of different kinds, each run by a thread of its own */
            const int n = 2 + (int) r.below( 3 );
            std::vector< std::thread > th;
            for( int i = 0; i < n; i++ ) th.emplace_back( []( uint64_t seed )
            {
                Rng q( seed );
                one( q, "" );
            }, r.next() );
            for( auto &t : th ) t.join();
            count( "graphs run side by side", n );
        }
        else one( r, mode );
        VCHECK( live().alive() == 0, "object-leaked", "%lld element objects are alive after the end of the graph", live().alive() );
#ifdef VH_CHAOS
        ctx().cnt[ "delays" ] = (long long) vh_chaos_delays.load();
#endif
    } );
}
#endif
