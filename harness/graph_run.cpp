/* graph_run - random acyclic graphs of kernels, run by the real run-time in
 * every configuration. What each link must carry is computed beforehand from
 * the graph alone; every kernel checks each element that it reads against it
 * (value, order within its path, signal), and the scheduler's conduct: one run
 * at a time, only with its firing rule met, none after the end; capacities as
 * requested; core as assigned. After the run everything must have been read. */
#include <list>
#include <memory>
#include <affinity>
#if USE_PARTITION
#include <scotch.h>
#endif
#include "fifo_common.hpp"
using namespace vh;
using raft::signal;
#ifdef VH_CHAOS
extern "C" { extern std::atomic< int > vh_chaos_rate; extern std::atomic< unsigned long long > vh_chaos_seed, vh_chaos_points, vh_chaos_delays; }
#endif

namespace gr {

inline thread_local long long t_core = -1;      /* core given to this thread; -1: none */
inline thread_local int t_core_sets = 0;

enum Fmt { SINGLE, MERGE, ZIP };
enum Out { NOOUT, ONE, COPY, DIST };
enum Tr { MAP, FILTER, EXPAND, SAME };

/* what a link carries: per path the values in order (a lockstep graph has one path, 0) */
using Content = std::map< uint32_t, std::vector< uint64_t > >;

struct Edge
{
    int src, sport, dst, dport;
    size_t size = 0;                /* requested capacity; 0: none */
    Content c;
    uint64_t total = 0;
    std::atomic< uint64_t > pushed{ 0 }, taken{ 0 };
};
struct Node
{
    int id = 0;
    Fmt in = SINGLE; Out out = ONE; Tr tr = MAP;
    int nin = 0, nout = 0;
    uint64_t n = 0;                 /* items of a source */
    std::vector< Edge * > ie, oe;
};
struct Config
{
    bool basic_part = false, stdalloc = false, no_par = false;
};
void exe( raft::map &m, const Config &c );

inline raft::signal sig_of( uint64_t v )
{
    const auto h = mix( v ^ 0x77 );
    if( h % 3 ) return raft::none;
    switch( ( h >> 8 ) % 8 )
    {
        case 0: return raft::eof;
        case 1: return raft::quit;
        case 2: return raft::term;
        case 3: return (raft::signal)( raft::eof + 1 + ( h >> 16 ) % 3 );
        case 4: return (raft::signal)( 5000 + ( h >> 16 ) % 100000 );
        default: return (raft::signal)( 1 + ( h >> 16 ) % 4090 );
    }
}
inline uint64_t child( uint64_t v, uint64_t how ) { return hcomb( v, how ); }

struct Shape
{
    bool lockstep = false;
    std::vector< std::unique_ptr< Node > > nodes;
    std::vector< std::unique_ptr< Edge > > edges;
    uint64_t hash = 0;
    std::string str;

    /* the values a node makes of v, which came in at port p, and where to each goes (-1: to every output) */
    void apply( const Node &d, uint64_t v, int p, std::vector< std::pair< int, uint64_t > > &o ) const
    {
        o.clear();
        if( lockstep )
        {
            const uint64_t w = d.tr == SAME ? v : child( v, d.id * 64 + 1 );
            if( d.out == ONE ) o.emplace_back( 0, w );
            else for( int k = 0; k < d.nout; k++ ) o.emplace_back( k, child( w, k + 7 ) );
            return;
        }
        const uint32_t path = (uint32_t)( v >> 32 ), seq = (uint32_t) v;
        uint64_t s[ 2 ]; int ns = 0;
        switch( d.tr )
        {
        case SAME: case MAP: s[ ns++ ] = seq; break;
        case FILTER: if( mix( v ^ d.id ) % 3 != 0 ) s[ ns++ ] = seq; break;
        case EXPAND: s[ ns++ ] = 2ull * seq; if( mix( v + d.id ) % 4 ) s[ ns++ ] = 2ull * seq + 1; break;
        }
        auto out = [ & ]( int k, uint64_t q )
        {
            const uint64_t np = d.tr == SAME ? path : ( child( path, ( d.id * 8 + p ) * 8 + k ) & 0xffffffff );
            o.emplace_back( k, np << 32 | q );
        };
        for( int i = 0; i < ns; i++ )
            if( d.out == ONE ) out( 0, s[ i ] );
            else if( d.out == COPY ) for( int k = 0; k < d.nout; k++ ) out( k, s[ i ] );
            else if( d.out == DIST ) out( (int)( mix( s[ i ] * 3 + d.id ) % d.nout ), s[ i ] );
    }
    static uint64_t src_value( bool lock, int id, uint64_t i ) { return lock ? hcomb( id * 1000003ull, i ) : ( hcomb( id, 99 ) & 0xffffffff ) << 32 | i; }

    Edge *edge( int a, int ap ) { edges.emplace_back( new Edge ); auto *e = edges.back().get(); e->src = a; e->sport = ap; nodes[ a ]->oe[ ap ] = e; return e; }
    bool add( Edge *e, uint32_t path, uint64_t v ) { e->c[ path ].push_back( v ); e->total++; return e->total < 40000; }

    bool make( Rng &r, int maxn, uint64_t maxitems, bool chains )
    {
        lockstep = r.chance( 1, 3 );
        struct Open { int node, port; };
        std::vector< Open > open;
        auto node = [ & ]{ nodes.emplace_back( new Node ); auto *d = nodes.back().get(); d->id = (int) nodes.size(); return d; };
        const int nsrc = (int) r.range( 1, 3 );
        const uint64_t n0 = r.chance( 1, 8 ) ? r.below( 3 ) : r.below( maxitems ) + 1;
        for( int i = 0; i < nsrc; i++ )
        {
            auto *d = node();
            d->n = lockstep ? n0 : r.chance( 1, 8 ) ? r.below( 3 ) : r.below( maxitems ) + 1;
            d->out = r.chance( 3, 4 ) ? ONE : COPY;
            d->nout = d->out == ONE ? 1 : (int) r.range( 2, 3 );
            d->tr = MAP;
            for( int k = 0; k < d->nout; k++ ) { d->oe.push_back( nullptr ); open.push_back( { (int) nodes.size() - 1, k } ); }
        }
        const int want = (int) r.range( 0, maxn );
        auto take = [ & ]( Node *d, int k )
        {
            for( int i = 0; i < k; i++ )
            {
                const size_t x = r.below( open.size() );
                auto *e = edge( open[ x ].node, open[ x ].port );
                e->dst = (int) nodes.size() - 1; e->dport = i;
                d->ie.push_back( e );
                open.erase( open.begin() + (long) x );
            }
            d->nin = k;
        };
        for( int i = 0; i < want; i++ )
        {
            auto *d = node();
            const int k = chains || open.size() < 2 ? 1 : (int) r.range( 1, std::min< int >( 4, (int) open.size() ) );
            take( d, k );
            d->in = k == 1 ? SINGLE : lockstep ? ZIP : MERGE;
            const int o = (int) r.below( open.size() > 6 ? 3 : 5 );
            d->out = o < 3 ? ONE : o == 3 || lockstep ? COPY : DIST;
            d->nout = d->out == ONE ? 1 : (int) r.range( 2, 4 );
            const int t = (int) r.below( 8 );
            d->tr = lockstep ? ( t < 3 && d->nout == 1 && k == 1 ? SAME : MAP ) : t < 2 && k == 1 && d->out == ONE ? SAME : t < 5 ? MAP : t < 7 ? FILTER : EXPAND;
            for( int j = 0; j < d->nout; j++ ) { d->oe.push_back( nullptr ); open.push_back( { (int) nodes.size() - 1, j } ); }
        }
        while( ! open.empty() )
        {
            auto *d = node();
            const int k = (int) r.range( 1, std::min< int >( 5, (int) open.size() ) );
            take( d, k );
            d->in = k == 1 ? SINGLE : lockstep && r.chance( 1, 2 ) ? ZIP : MERGE;
            d->out = NOOUT;
        }
        /* the model */
        std::vector< std::pair< int, uint64_t > > o;
        for( auto &dp : nodes )
        {
            Node &d( *dp );
            auto put = [ & ]( uint64_t v, int p ) -> bool
            {
                apply( d, v, p, o );
                for( auto &x : o ) if( ! add( d.oe[ x.first ], lockstep ? 0 : (uint32_t)( x.second >> 32 ), x.second ) ) return false;
                return true;
            };
            if( d.nin == 0 ) { for( uint64_t i = 0; i < d.n; i++ ) if( ! put( src_value( lockstep, d.id, i ), 0 ) ) return false; }
            else if( d.out == NOOUT ) ;
            else if( d.in == ZIP )
            {
                const uint64_t n = d.ie[ 0 ]->total;
                for( uint64_t i = 0; i < n; i++ )
                {
                    uint64_t v = 0;
                    for( auto *e : d.ie ) v = hcomb( v, e->c[ 0 ][ i ] );
                    if( ! put( v, 0 ) ) return false;
                }
            }
            else for( int p = 0; p < d.nin; p++ ) for( auto &pc : d.ie[ p ]->c ) for( auto v : pc.second ) if( ! put( v, p ) ) return false;
            /* one path must not reach a link in two ways: they could not be told apart */
            if( ! lockstep && d.out != NOOUT && d.nin )
            {
                std::set< uint32_t > seen;
                for( int p = 0; p < d.nin; p++ ) for( auto &pc : d.ie[ p ]->c )
                {
                    std::vector< uint32_t > np;
                    for( int k = 0; k < d.nout; k++ ) np.push_back( d.tr == SAME ? pc.first : (uint32_t) child( pc.first, ( d.id * 8 + p ) * 8 + k ) );
                    for( auto x : np ) if( ! seen.insert( x ).second ) return false;
                }
            }
        }
        static const char *IN[] = { "", "merge", "zip" }, *OUT[] = { "end", "one", "copy", "dist" }, *TR[] = { "map", "filter", "expand", "same" };
        str = lockstep ? "lockstep:" : "free:";
        for( auto &d : nodes )
        {
            str += fmt( " %d%s%s%s%s%d(", d->id, d->nin ? "" : "src", IN[ d->in ], d->nin && d->nout ? TR[ d->tr ] : "", OUT[ d->out ], d->nout );
            for( auto *e : d->ie ) str += fmt( "%d.%d ", e->src + 1, e->sport );
            if( ! d->nin ) str += fmt( "%llu", (unsigned long long) d->n );
            str += ")";
        }
        hash = hstr( str );
        return true;
    }
};

template < class T > inline uint64_t decode( const T &t );
template <> inline uint64_t decode( const uint64_t &t ) { return t; }
template <> inline uint64_t decode( const Pod24 &t ) { return t.a; }
template <> inline uint64_t decode( const std::string &t ) { return strtoull( t.c_str(), 0, 10 ); }
template <> inline uint64_t decode( const TSmall &t ) { return t.id; }
template <> inline uint64_t decode( const TBig &t ) { return t.id; }

struct Shared { Config cfg; std::atomic< bool > over{ false }, begun{ false }; unsigned ncores = 0; };

template < class T > class GK : public raft::kernel
{
public:
    static constexpr bool ext = ext_alloc< T >::value;
    static constexpr bool ranges = ! ext;
    const Shape &sh; const Node &d; Shared &g;
    Rng q;
    std::vector< std::string > in_name, out_name;
    bool all_rule = false, stop_early = false, quits = false;
    uint64_t quit_after = 0;       /* a sink that quits leaves elements behind; its inputs can hold all that is sent */
    int pace_mode = 0, rstyle = -1, wstyle = -1;
    int slow_left = 0;
    std::atomic< int > inside{ 0 };
    std::atomic< bool > ended{ false };
    uint64_t runs = 0, made = 0, consumed = 0, expect = 0;
    std::vector< std::unordered_map< uint32_t, size_t > > at;      /* per input and path, how many were read */
    std::vector< size_t > cap_in, cap_out;
    long long want_core = -1;
    uint64_t trace = 1;
    uint64_t grown = 0;

    GK( const Shape &sh, const Node &d, Shared &g, Rng &r ) : sh( sh ), d( d ), g( g ), q( r.next() )
    {
        for( int i = 0; i < d.nin; i++ ) in_name.push_back( fmt( r.chance( 1, 2 ) ? "in%d" : "%d", i ) );
        for( int i = 0; i < d.nout; i++ ) out_name.push_back( fmt( r.chance( 1, 2 ) ? "out%d" : "%d", i ) );
        for( auto &n : in_name ) input.addPort< T >( n );
        for( auto &n : out_name ) output.addPort< T >( n );
        for( auto *e : d.ie ) expect += e->total;
        at.resize( (size_t) d.nin );
        cap_in.assign( (size_t) d.nin, 0 ); cap_out.assign( (size_t) d.nout, 0 );
    }
    long long core() { return (long long) getCoreAssignment(); }
    /* the rule that a kernel has that is derived from kernel_all */
    struct Every : public raft::kernel_all { virtual raft::kstatus run() { return raft::stop; } raft::schedule_behavior get() const { return sched_behav; } };
    void rule( bool all, bool set, bool derived ) { all_rule = all; if( set || all ) sched_behav = all ? ( derived ? Every().get() : raft::all_port ) : raft::any_port; }

    void pace()
    {
        switch( pace_mode )
        {
        case 1: if( q.chance( 1, 3 ) ) sched_yield(); break;
        case 2: if( q.chance( 1, 30 ) ) usleep( q.below( 300 ) ); break;
        case 3: if( q.chance( 1, 200 ) ) usleep( 1000 + q.below( 3000 ) ); break;
        default: break;
        }
        if( slow_left > 0 ) { slow_left--; usleep( 3500 + q.below( 1500 ) ); }
    }
    /* ---- reading: one element from input p, checked ---- */
    uint64_t check( const T &t, int p, const char *how )
    {
        const uint64_t v = decode( t );
        beat();
        VCHECK( Val< T >::is( t, v ), "altered", "kernel %d, input %d: %s gave %s, which is not intact", d.id, p, how, Val< T >::str( t ).c_str() );
        const uint32_t path = sh.lockstep ? 0 : (uint32_t)( v >> 32 );
        Edge &e( *d.ie[ p ] );
        auto it( e.c.find( path ) );
        VCHECK( it != e.c.end(), "misrouted", "kernel %d, input %d: %s gave %llx, of a path that does not lead here", d.id, p, how, (unsigned long long) v );
        size_t &k( at[ p ][ path ] );
        VCHECK( k < it->second.size(), "surplus", "kernel %d, input %d: %s gave %llx after all %zu elements of its path", d.id, p, how, (unsigned long long) v, k );
        VCHECK( it->second[ k ] == v, "wrong-element", "kernel %d, input %d: %s gave %llx, but %llx is due (element %zu of %zu of its path)", d.id, p, how,
                (unsigned long long) v, (unsigned long long) it->second[ k ], k, it->second.size() );
        k++; consumed++;
        return v;
    }
    void csig( uint64_t s, uint64_t v, int p, const char *how )
    {
        VCHECK( s == (uint64_t) sig_of( v ), "wrong-signal", "kernel %d, input %d: %s gave signal %llu with %llx, sent with %llu", d.id, p, how, (unsigned long long) s,
                (unsigned long long) v, (unsigned long long) sig_of( v ) );
    }
    void took( int p, uint64_t n = 1 ) { d.ie[ p ]->taken += n; }
    void wrote( int p, uint64_t n = 1 )
    {
        Edge &e( *d.oe[ p ] );
        const uint64_t x = ( e.pushed += n );
        if( e.size )
        {
            const uint64_t t = e.taken;
            VCHECK( x <= t + e.size, "over-capacity", "kernel %d, output %d: the link took %llu and gave up at most %llu elements, its size was set to %zu", d.id, p,
                    (unsigned long long) x, (unsigned long long) t, e.size );
        }
    }
    FIFO &ip( int p ) { return input[ in_name[ p ] ]; }
    FIFO &op( int p ) { return output[ out_name[ p ] ]; }

    /* ---- writing ---- */
    void write( int k, uint64_t v )
    {
        FIFO &f( op( k ) );
        const signal s = sig_of( v );
        switch( wstyle >= 0 ? wstyle : (int) q.below( 7 ) )
        {
        case 0: case 4: { const T t( Val< T >::make( v ) ); f.push< T >( t, s ); } break;
        case 1: f.push< T >( Val< T >::make( v ), s ); break;
        case 2: { T &t( f.allocate< T >() ); Val< T >::put( t, v ); pace(); f.send( s ); } break;
        case 3: { auto a( f.allocate_s< T >() ); Val< T >::put( *a, v ); a.sig() = s; } break;
        case 6: { std::unique_ptr< T > t( new T( Val< T >::make( v ) ) ); f.push< T >( *t, s ); } break;     /* may lie where an element did that is gone */
        default:
            if( q.chance( 1, 3 ) ) { T &t( f.allocate< T >() ); Val< T >::put( t, 12345 ); f.deallocate(); }
            { std::vector< T > x; x.push_back( Val< T >::make( v ) ); f.insert( x.begin(), x.end(), s ); }
        break;
        }
        wrote( k );
    }
    /* a batch for one output */
    void write_batch( int k, const std::vector< uint64_t > &v )
    {
        FIFO &f( op( k ) );
        size_t i = 0;
        while( i < v.size() )
        {
            const int w = (int) q.below( 3 );
            size_t m = 0;
            const size_t lim = std::min< size_t >( v.size() - i, 12 );
            if( w == 0 )
            {
                /* only the last of a sequence that is inserted has a signal */
                while( m < lim ) { m++; if( sig_of( v[ i + m - 1 ] ) != raft::none ) break; }
                if( q.chance( 1, 2 ) ) { std::vector< T > x; for( size_t j = 0; j < m; j++ ) x.push_back( Val< T >::make( v[ i + j ] ) ); f.insert( x.begin(), x.end(), sig_of( v[ i + m - 1 ] ) ); }
                else { std::list< T > x; for( size_t j = 0; j < m; j++ ) x.push_back( Val< T >::make( v[ i + j ] ) ); f.insert( x.begin(), x.end(), sig_of( v[ i + m - 1 ] ) ); }
                wrote( k, m );
            }
            else if( ranges && w == 1 )
            {
                if constexpr( ranges )
                {
                    const size_t c = f.capacity();
                    while( m < lim && m < c && sig_of( v[ i + m ] ) == raft::none ) m++;
                    if( m )
                    {
                        auto x( f.allocate_range< T >( m ) );
                        for( size_t j = 0; j < m; j++ ) put_raw< T >( x[ j ].get(), v[ i + j ] );
                        f.send_range();
                        wrote( k, m );
                    }
                }
            }
            if( m == 0 ) { write( k, v[ i ] ); m = 1; }
            i += m;
        }
    }
    /* all that the node makes of v; fwd is the element that was read, if it may be passed on by reference */
    void emit( uint64_t v, int p, T *fwd )
    {
        std::vector< std::pair< int, uint64_t > > o;
        beat();
        sh.apply( d, v, p, o );
        for( size_t i = 0; i < o.size(); i++ )
        {
            if( fwd && i + 1 == o.size() )
            {
                if( decode( *fwd ) != o[ i ].second ) Val< T >::put( *fwd, o[ i ].second );
                FIFO &f( op( o[ i ].first ) );
                f.push< T >( *fwd, sig_of( o[ i ].second ) );
                wrote( o[ i ].first );
            }
            else write( o[ i ].first, o[ i ].second );
        }
    }
    /* one element from input p, and what follows from it */
    void step( int p )
    {
        FIFO &f( ip( p ) );
        const size_t have = f.size();
        int st = rstyle >= 0 ? rstyle : (int) q.below( 7 );
        switch( st )
        {
        case 0: { T t( Val< T >::make( 5 ) ); took( p ); f.pop< T >( t ); const auto v = check( t, p, "pop" ); emit( v, p, nullptr ); } break;
        case 1: case 6: { T t( Val< T >::make( 5 ) ); signal s = (signal) 4242; took( p ); f.pop< T >( t, &s ); const auto v = check( t, p, "pop" ); csig( s, v, p, "pop" ); emit( v, p, nullptr ); } break;
        case 2:
        {
            signal s = (signal) 4242;
            T &t( f.peek< T >( &s ) );
            const auto v = check( t, p, "peek" ); csig( s, v, p, "peek" );
            pace();
            /* large elements are passed on as they are, or changed first */
            emit( v, p, ext && q.chance( 3, 4 ) ? &t : nullptr );
            took( p );
            f.unpeek(); f.recycle();
        }
        break;
        case 3:
        {
            took( p );
            auto a( f.pop_s< T >() );
            const auto v = check( *a, p, "pop_s" ); csig( a.sig(), v, p, "pop_s" );
            pace();
            emit( v, p, ext && d.tr == SAME && q.chance( 1, 2 ) ? const_cast< T * >( &*a ) : nullptr );
        }
        break;
        case 4:
        {
            size_t k = std::min< size_t >( have, 1 + q.below( 9 ) );
            if( k == 0 ) k = 1;
            std::vector< std::pair< T, signal > > x;
            for( size_t j = 0; j < k; j++ ) x.emplace_back( Val< T >::make( 6 ), raft::none );
            took( p, k );
            f.pop_range< T >( x, k );
            std::vector< uint64_t > vs;
            for( auto &y : x ) { const auto v = check( y.first, p, "pop_range" ); csig( y.second, v, p, "pop_range" ); vs.push_back( v ); }
            batch( vs, p );
        }
        break;
        case 5:
            if constexpr( ! ext )
            {
                size_t k = std::min< size_t >( have, 1 + q.below( 9 ) );
                if( k == 0 ) k = 1;
                std::vector< uint64_t > vs;
                {
                    auto x( f.peek_range< T >( k ) );
                    for( size_t j = 0; j < k; j++ ) { auto y( x[ j ] ); const auto v = check( y.ele, p, "peek_range" ); csig( (signal) y.sig, v, p, "peek_range" ); vs.push_back( v ); }
                    took( p, k );
                }
                f.recycle( k );
                batch( vs, p );
            }
            else { T t( Val< T >::make( 5 ) ); took( p ); f.pop< T >( t ); const auto v = check( t, p, "pop" ); emit( v, p, nullptr ); }
        break;
        }
    }
    void batch( const std::vector< uint64_t > &vs, int p )
    {
        if( d.out == ONE && q.chance( 1, 2 ) )
        {
            std::vector< uint64_t > all;
            std::vector< std::pair< int, uint64_t > > o;
            for( auto v : vs ) { sh.apply( d, v, p, o ); for( auto &x : o ) all.push_back( x.second ); }
            write_batch( 0, all );
        }
        else for( auto v : vs ) emit( v, p, nullptr );
    }
    void zip()
    {
        uint64_t v = 0;
        for( int p = 0; p < d.nin; p++ )
        {
            FIFO &f( ip( p ) );
            uint64_t x;
            if( q.chance( 1, 2 ) ) { T t( Val< T >::make( 5 ) ); took( p ); f.pop< T >( t ); x = check( t, p, "pop" ); }
            else { signal s = (signal) 4242; auto &t( f.peek< T >( &s ) ); x = check( t, p, "peek" ); csig( s, x, p, "peek" ); took( p ); f.unpeek(); f.recycle(); }
            v = hcomb( v, x );
        }
        if( d.out != NOOUT ) emit( v, 0, nullptr );
    }
    void capacities()
    {
        auto one = [ & ]( FIFO &f, size_t req, size_t &last, const char *dir, int p )
        {
            const size_t c = f.capacity();
            if( req ) { VCHECK( c == req, "size-not-honoured", "kernel %d, %s %d: capacity %zu, %zu was asked for", d.id, dir, p, c, req ); }
            else if( g.cfg.stdalloc ) { VCHECK( c == INITIAL_ALLOC_SIZE, "capacity-changed", "kernel %d, %s %d: capacity %zu, the default is %d", d.id, dir, p, c, (int) INITIAL_ALLOC_SIZE ); }
            else
            {
                size_t x = last ? last : INITIAL_ALLOC_SIZE;
                while( x < c ) x *= 2;
                VCHECK( x == c, "capacity-not-doubled", "kernel %d, %s %d: capacity went from %zu to %zu", d.id, dir, p, last ? last : (size_t) INITIAL_ALLOC_SIZE, c );
                if( last && c > last ) grown++;
            }
            last = c;
        };
        for( int p = 0; p < d.nin; p++ ) one( ip( p ), d.ie[ p ]->size, cap_in[ p ], "input", p );
        for( int p = 0; p < d.nout; p++ ) one( op( p ), d.oe[ p ]->size, cap_out[ p ], "output", p );
    }
    virtual raft::kstatus run()
    {
        VCHECK( inside.fetch_add( 1 ) == 0, "concurrent-run", "kernel %d is run by two threads at once", d.id );
        VCHECK( g.begun, "run-too-early", "kernel %d is run before the graph is", d.id );
        VCHECK( ! ended, "run-after-end", "kernel %d is run after it returned stop", d.id );
        VCHECK( ! g.over, "run-after-exe", "kernel %d is run after exe() returned", d.id );
        if( runs++ == 0 )
        {
            VCHECK( t_core == (long long) getCoreAssignment(), "core", "kernel %d runs on a thread bound to core %lld, it was assigned core %lld", d.id, t_core, (long long) getCoreAssignment() );
            VCHECK( t_core_sets == ( getCoreAssignment() == -1 ? 0 : 1 ), "core", "the thread of kernel %d was bound %d times", d.id, t_core_sets );
            if( g.cfg.basic_part ) { VCHECK( t_core >= 0 && t_core < (long long) g.ncores, "core", "kernel %d was put on core %lld of %u", d.id, t_core, g.ncores ); }
            else { VCHECK( t_core == want_core, "core", "kernel %d is on core %lld, the user chose %lld", d.id, t_core, want_core ); }
        }
        raft::kstatus ret = raft::proceed;
        try { ret = go(); }
        catch( const std::exception &e ) { violation( "exception-in-run", fmt( "kernel %d, %llu of %llu elements read: %s", d.id, (unsigned long long) consumed, (unsigned long long) expect, e.what() ) ); }
        if( ret == raft::stop ) ended = true;
        inside--;
        return ret;
    }
    raft::kstatus go()
    {
        size_t with = 0;
        for( int p = 0; p < d.nin; p++ ) { const size_t n = ip( p ).size(); with += n > 0; trace = hcomb( trace, n ); }
        /* a stream that is just being filled up may look empty for a moment */
        for( int t = 0; d.nin && with < ( all_rule ? (size_t) d.nin : 1 ) && t < 3000; t++ )
        {
            usleep( 1000 );
            with = 0;
            for( int p = 0; p < d.nin; p++ ) with += ip( p ).size() > 0;
        }
        if( d.nin )
        {
            if( all_rule ) { VCHECK( with == (size_t) d.nin, "fired-too-early", "kernel %d fires on all inputs, and is run with data on %zu of %d", d.id, with, d.nin ); }
            else { VCHECK( with > 0, "fired-without-data", "kernel %d is run with no data on any of its %d inputs", d.id, d.nin ); }
        }
        if( runs < 4 || q.chance( 1, 8 ) ) capacities();
        pace();
        if( d.nin == 0 )
        {
            const uint64_t b = q.chance( 1, 3 ) ? 1 : 1 + q.below( 40 );
            for( uint64_t i = 0; i < b && made < d.n; i++ ) { emit( Shape::src_value( sh.lockstep, d.id, made ), 0, nullptr ); made++; pace(); }
            if( made < d.n ) return raft::proceed;
            return stop_early || ended_once++ ? raft::stop : raft::proceed;
        }
        if( quits )
        {
            for( auto *e : d.ie ) if( e->pushed != e->total ) { usleep( 200 ); return raft::proceed; }
            while( consumed < quit_after )
                if( d.in == ZIP ) zip();
                else
                {
                    int p = (int) q.below( d.nin );
                    while( ip( p ).size() == 0 ) p = ( p + 1 ) % d.nin;
                    step( p );
                }
            return raft::stop;
        }
        if( ! all_rule && d.in != ZIP && q.chance( 1, 12 ) ) { return raft::proceed; }       /* takes nothing this time */
        const uint64_t b = q.chance( 1, 3 ) ? 1 : 1 + q.below( 30 );
        for( uint64_t i = 0; i < b && consumed < expect; i++ )
        {
            if( d.in == ZIP )
            {
                if( i )
                {
                    bool all = true;
                    for( int p = 0; p < d.nin; p++ ) all = all && ip( p ).size() > 0;
                    if( ! all ) break;
                }
                zip();
            }
            else
            {
                int p = (int) q.below( d.nin ), tries = 0;
                while( ip( p ).size() == 0 && tries++ < d.nin ) p = ( p + 1 ) % d.nin;
                if( ip( p ).size() == 0 ) break;
                step( p );
            }
            pace();
        }
        return stop_early && consumed == expect ? raft::stop : raft::proceed;
    }
    int ended_once = 0;
};

template < class T > struct Graph
{
    Shape sh;
    Shared g;
    std::vector< std::unique_ptr< GK< T > > > ks;
    std::unique_ptr< raft::map > m;
    bool ok = false;
    std::string desc;
    Graph( Rng &r, const char *tname )
    {
        const bool growth = opt( "mode" ) == "growth" ? r.chance( 1, 2 ) : r.chance( 1, 40 );
        const uint64_t maxitems = ctx().thorough ? 1500 : 500;
        for( int t = 0; t < 20 && ! ok; t++ )
        {
            sh = Shape();
            ok = sh.make( r, growth ? 3 : 1 + (int) r.below( 9 ), maxitems, r.chance( 1, 5 ) );
        }
        if( ! ok ) return;
        g.cfg.basic_part = r.chance( 1, 2 ); g.cfg.stdalloc = r.chance( 1, 2 ); g.cfg.no_par = r.chance( 1, 2 );
        if( growth ) g.cfg.stdalloc = r.chance( 1, 4 );
#if USE_PARTITION
        g.cfg.basic_part = true;
#endif
        g.ncores = std::thread::hardware_concurrency();
        m.reset( new raft::map );
        for( auto &d : sh.nodes )
        {
            ks.emplace_back( new GK< T >( sh, *d, g, r ) );
            auto &k( *ks.back() );
            if( d->nin ) k.rule( d->in == ZIP ? r.chance( 2, 3 ) : d->nin == 1 && r.chance( 1, 3 ), r.chance( 1, 2 ), r.chance( 1, 3 ) );
            k.stop_early = r.chance( 1, 4 ) && ( d->nin == 0 || k.expect > 0 );
            k.pace_mode = (int) r.below( 5 );
            if( r.chance( 1, 3 ) ) k.rstyle = (int) r.below( 7 );
            if( r.chance( 1, 3 ) ) k.wstyle = (int) r.below( 7 );
            if( r.chance( 1, growth ? 2 : 15 ) ) k.slow_left = (int) r.below( growth ? 40 : 8 );
            if( ! g.cfg.basic_part && r.chance( 1, 4 ) ) { k.want_core = (long long) r.below( 64 ); k.setCore( k.want_core ); }
        }
        const bool sizes = r.chance( 1, 2 );
        std::vector< Edge * > es;
        for( auto &e : sh.edges ) es.push_back( e.get() );
        for( size_t i = es.size(); i > 1; i-- ) std::swap( es[ i - 1 ], es[ r.below( i ) ] );
        int sized = 0;
        for( auto *e : es )
        {
            auto &a( *ks[ e->src ] ); auto &b( *ks[ e->dst ] );
            const auto &an( a.out_name[ e->sport ] ); const auto &bn( b.in_name[ e->dport ] );
            const bool sa = a.d.nout == 1 && r.chance( 1, 2 ), sb = b.d.nin == 1 && r.chance( 1, 2 );
            if( sizes && r.chance( 2, 3 ) )
            {
                e->size = r.chance( 1, 2 ) ? 1 + r.below( 6 ) : 1 + r.below( 200 );
                sized++;
                if( r.chance( 1, 5 ) ) m->link< raft::order::out >( &a, sa ? "" : an, &b, sb ? "" : bn, e->size );
                else m->link( &a, sa ? "" : an, &b, sb ? "" : bn, e->size );
            }
            else switch( r.below( 3 ) )
            {
            case 0: m->link( &a, sa ? "" : an, &b, sb ? "" : bn ); break;
            case 1:
                if( sa && sb ) *m += a >> b;
                else if( sa ) *m += a >> b[ bn ];
                else if( sb ) *m += a[ an ] >> b;
                else *m += a[ an ] >> b[ bn ];
            break;
            case 2: *m += a[ an ] >> raft::order::out >> b[ bn ]; break;
            }
        }
        int quitters = 0;
        if( r.chance( 1, 3 ) ) for( auto &kp : ks )
        {
            auto &k( *kp );
            if( k.d.out != NOOUT || k.expect == 0 || ! r.chance( 2, 3 ) ) continue;
            bool fit = true;
            for( auto *e : k.d.ie ) fit = fit && e->total <= ( e->size ? e->size : (size_t) INITIAL_ALLOC_SIZE );
            if( fit ) { k.quits = true; k.quit_after = r.below( k.expect + 1 ); quitters++; }
        }
        desc = fmt( "%s %s%s, %s, %s, %d links sized, %d quit; %s", tname, "", g.cfg.basic_part ? "basic partition" : "no partition", g.cfg.stdalloc ? "fixed buffers" : "growing buffers",
                    g.cfg.no_par ? "no_parallel" : "basic_parallel", sized, quitters, sh.str.c_str() );
    }
    void run()
    {
#if USE_PARTITION
        vh_scotch::log = vh_scotch::Log();
        vh_scotch::log.seed = hstr( desc );
#endif
        g.begun = true; exe( *m, g.cfg ); g.over = true;
#if USE_PARTITION
        partition( vh_scotch::log );
#endif
    }
#if USE_PARTITION
    /* each kernel is on the core that the partitioner gave to its vertex: whichever
     * vertex that is, the links then join the cores that the arcs join */
    void partition( const vh_scotch::Log &l )
    {
        std::vector< long long > have;
        for( auto &k : ks ) have.push_back( k->core() );
        std::sort( have.begin(), have.end() );
        if( ks.size() <= g.ncores )
        {
            for( size_t i = 0; i < have.size(); i++ ) VCHECK( have[ i ] == (long long) i, "core", "%zu kernels on %u cores: one is on core %lld", ks.size(), g.ncores, have[ i ] );
            return;
        }
        VCHECK( l.calls == 1, "partition", "the partitioner was called %d times", l.calls );
        VCHECK( l.bad.empty(), "partition", "the graph that is partitioned is malformed: %s", l.bad.c_str() );
        VCHECK( l.open == 0, "partition", "%d objects of the partitioner were not released", l.open );
        VCHECK( l.n == (SCOTCH_Num) ks.size() && l.m == 2 * (SCOTCH_Num) sh.edges.size(), "partition", "%d vertices and %d arcs are partitioned, there are %zu kernels and %zu links",
                l.n, l.m, ks.size(), sh.edges.size() );
        VCHECK( l.cores == (SCOTCH_Num) g.ncores, "partition", "partitioned for %d cores of %u", l.cores, g.ncores );
        std::vector< long long > want( l.part.begin(), l.part.end() );
        std::sort( want.begin(), want.end() );
        VCHECK( want == have, "core", "the cores of the kernels are not those that the partitioner chose" );
        std::vector< std::pair< long long, long long > > a, b;
        for( auto &x : l.arcs ) a.emplace_back( l.part[ x.first ], l.part[ x.second ] );
        for( auto &e : sh.edges )
        {
            const long long s = ks[ e->src ]->core(), d = ks[ e->dst ]->core();
            b.emplace_back( s, d ); b.emplace_back( d, s );
        }
        std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() );
        VCHECK( a == b, "core", "the cores of the kernels are not those of their vertices: the links do not join the cores that the arcs join" );
        count( "graphs partitioned by scotch" );
    }
#endif
    void after()
    {
        uint64_t items = 0, runs = 0, grown = 0;
        for( auto &kp : ks )
        {
            auto &k( *kp );
            VCHECK( k.inside == 0, "run-after-exe", "kernel %d is still running after exe() returned", k.d.id );
            VCHECK( k.d.nin == 0 || k.consumed == k.expect || ( k.quits && k.ended && k.consumed >= k.quit_after ), "elements-lost", "kernel %d was ended after %llu of %llu elements", k.d.id, (unsigned long long) k.consumed, (unsigned long long) k.expect );
            VCHECK( k.d.nin || ( k.made == k.d.n && k.ended ), "source-ended", "source %d was ended after %llu of %llu elements", k.d.id, (unsigned long long) k.made, (unsigned long long) k.d.n );
            if( k.quits ) count( "elements left behind", (long long)( k.expect - k.consumed ) );
            items += k.consumed; runs += k.runs; grown += k.grown;
            interleaving( k.trace );
        }
        count( "elements read", (long long) items ); count( "kernel runs", (long long) runs ); count( "kernels", (long long) ks.size() );
        count( "capacity growths seen", (long long) grown );
        if( items > 20 ) distinct( hstr( desc ) );
        sample( desc );
    }
};

/* all threads get there before any goes on */
struct Together
{
    const int n; std::atomic< int > at{ 0 };
    explicit Together( int n ) : n( n ) {}
    void operator()() { at++; while( at < n ) sched_yield(); }
};
template < class T > void go( Rng &r, const char *tname )
{
    const bool side = opt( "mode" ) == "side";
    const int n = side ? 2 + (int) r.below( 3 ) : r.chance( 1, 5 ) ? 2 : 1;
    std::vector< std::unique_ptr< Graph< T > > > gs( n );
    std::vector< uint64_t > seeds;
    for( int i = 0; i < n; i++ ) seeds.push_back( r.next() );
#ifdef VH_CHAOS
    const int rates[] = { 0, 400, 100, 40 };
    vh_chaos_seed = r.next();
    vh_chaos_rate = rates[ r.below( 4 ) ];
#endif
    /* run and taken down by a thread of its own; of several, all do so at the same time */
    Together build( n ), start( n ), end( n ), down( n );
    std::atomic< bool > ok{ true };
    const bool loose = side && r.chance( 1, 2 );    /* one runs while another is still being built */
    auto one = [ & ]( int i )
    {
        build();
        {
            /* kernels are made by one thread at a time, the library says */
            static std::mutex making;
            std::lock_guard< std::mutex > g( making );
            Rng q( seeds[ i ] ); gs[ i ].reset( new Graph< T >( q, tname ) );
        }
        if( ! gs[ i ]->ok ) ok = false;
        if( loose ) describe( gs[ i ]->desc );
        else
        {
            start();
            if( i == 0 ) { std::string all; for( auto &x : gs ) all += x->desc + " | "; describe( all ); }
        }
        if( loose ? gs[ i ]->ok : ok.load() )
        {
            gs[ i ]->run();
            gs[ i ]->after();
        }
        end();
        down();
        gs[ i ].reset();
    };
    std::vector< std::thread > th;
    for( int i = 0; i < n; i++ ) th.emplace_back( one, i );
    for( auto &t : th ) t.join();
    if( n > 1 && ok ) count( "graphs run side by side", n );
#ifdef VH_CHAOS
    vh_chaos_rate = 0;
#endif
    VCHECK( live().alive() == 0, "object-leaked", "%lld element objects are alive after the run and the end of the graph", live().alive() );
}
} /* namespace gr */

// PARTS: 6 (compiled in parallel)
#if PART == 1
void gpart1( Rng &r ) { gr::go< uint64_t >( r, "uint64" ); }
#elif PART == 2
void gpart2( Rng &r ) { gr::go< Pod24 >( r, "pod24" ); }
#elif PART == 3
void gpart3( Rng &r ) { gr::go< std::string >( r, "string" ); }
#elif PART == 4
void gpart4( Rng &r ) { gr::go< TSmall >( r, "small" ); }
#elif PART == 5
void gpart5( Rng &r ) { gr::go< TBig >( r, "big" ); }
#else
template < class P, class A > static void ex( raft::map &m, const gr::Config &c )
{
    if( c.no_par ) m.exe< P, simple_schedule, A, no_parallel >();
    else m.exe< P, simple_schedule, A, basic_parallel >();
}
void gr::exe( raft::map &m, const Config &c )
{
#if USE_PARTITION
    if( c.stdalloc ) ex< partition_scotch, stdalloc >( m, c ); else ex< partition_scotch, dynalloc >( m, c );
    return;
#endif
    if( c.basic_part && c.stdalloc ) ex< partition_basic, stdalloc >( m, c );
    else if( c.basic_part ) ex< partition_basic, dynalloc >( m, c );
    else if( c.stdalloc ) ex< partition_dummy, stdalloc >( m, c );
    else ex< partition_dummy, dynalloc >( m, c );
}

/* a writer that is held up: the stream has to grow, and only by doubling. The
 * run-time moves a stream only while its elements lie in one piece, so the
 * writer pauses now and then and the reader empties the stream meanwhile. */
struct Grow { std::atomic< int > hold{ 0 }; std::atomic< bool > held{ false }, done{ false }; std::atomic< uint64_t > w{ 0 }; };
class GSrc : public raft::kernel
{
public:
    Grow &g;
    GSrc( Grow &g ) : g( g ) { output.addPort< uint64_t >( "out" ); }
    virtual raft::kstatus run()
    {
        auto &f( output[ "out" ] );
        if( g.done ) return raft::stop;
        if( g.hold )
        {
            if( ! g.held )
            {
                if( g.w % f.capacity() == 0 ) { f.push< uint64_t >( g.w, raft::none ); g.w++; }
                g.held = true;
            }
            usleep( 500 );
            return raft::proceed;
        }
        g.held = false;
        f.push< uint64_t >( g.w, raft::none ); g.w++;
        return raft::proceed;
    }
};
class GSink : public raft::kernel
{
public:
    Grow &g; uint64_t n = 0; size_t target; Rng q;
    GSink( Grow &g, size_t t, uint64_t s ) : g( g ), target( t ), q( s ) { input.addPort< uint64_t >( "in" ); }
    size_t cap = INITIAL_ALLOC_SIZE;
    bool grown()
    {
        const size_t c = input[ "in" ].capacity();
        VCHECK( c == cap || c == 2 * cap, "capacity-not-doubled", "capacity went from %zu to %zu", cap, c );
        if( c > cap ) count( "growth awaited and seen" );
        cap = c;
        return c >= target;
    }
    void pop()
    {
        uint64_t x = 0; raft::signal s;
        input[ "in" ].pop< uint64_t >( x, &s );
        VCHECK( x == n, "wrong-element", "got %llu for %llu", (unsigned long long) x, (unsigned long long) n );
        n++;
    }
    bool first = true;
    virtual raft::kstatus run()
    {
        if( first )
        {
            first = false;
            auto &f( input[ "in" ] );
            for( int round = 0; round < 30 && ! grown(); round++ )
            {
                for( int i = 0; i < 12; i++ ) { usleep( 12000 + (unsigned) q.below( 8000 ) ); pop(); }
                g.hold = 1;
                while( ! g.held ) { if( f.size() ) pop(); usleep( 200 ); }
                while( f.size() > 1 && ! grown() ) { usleep( 4000 ); pop(); }
                g.hold = 0;
                while( g.held && f.size() < 2 ) usleep( 200 );
            }
            VCHECK( grown(), "never-grown", "the writer was blocked most of the time, and the capacity is still %zu", f.capacity() );
            g.done = true; g.hold = 0;
        }
        else pop();
        return raft::proceed;
    }
};
/* others in the same graph, at rest until the growth is seen */
struct BSrc : public raft::kernel
{
    Grow &g; int n;
    BSrc( Grow &g, int n ) : g( g ), n( n ) { output.addPort< uint64_t >( "out" ); }
    virtual raft::kstatus run()
    {
        if( ! g.done ) { usleep( 3000 ); return raft::proceed; }
        while( n > 0 ) output[ "out" ].push< uint64_t >( (uint64_t) n-- );
        return raft::stop;
    }
};
struct BSink : public raft::kernel
{
    int n = 0;
    BSink() { input.addPort< uint64_t >( "in" ); }
    virtual raft::kstatus run() { uint64_t x; input[ "in" ].pop< uint64_t >( x ); n++; return raft::proceed; }
};
static void growth( Rng &r )
{
    Grow g;
    GSrc a( g ); GSink b( g, r.chance( 2, 3 ) ? 128 : 256, r.next() );
    gr::Config c;
    c.basic_part = r.chance( 1, 2 ); c.no_par = r.chance( 1, 2 );
    raft::map m;
    m += a >> b;
    const int others = r.chance( 1, 2 ) ? 0 : (int) r.range( 1, 8 );
    std::vector< std::pair< std::unique_ptr< BSrc >, std::unique_ptr< BSink > > > o;
    for( int i = 0; i < others; i++ ) { o.emplace_back( new BSrc( g, i * 7 ), new BSink ); m.link( o.back().first.get(), "out", o.back().second.get(), "in", r.below( 4 ) ); }
    describe( fmt( "growth to %zu, %d other links", b.target, others ) );
    gr::exe( m, c );
    for( int i = 0; i < others; i++ ) VCHECK( o[ i ].second->n == i * 7, "elements-lost", "%d of %d elements arrived", o[ i ].second->n, i * 7 );
    VCHECK( b.n == g.w, "elements-lost", "%llu of %llu elements arrived", (unsigned long long) b.n, (unsigned long long) g.w.load() );
    distinct( r.next() );
}
void gpart1( Rng & ); void gpart2( Rng & ); void gpart3( Rng & ); void gpart4( Rng & ); void gpart5( Rng & );
int main( int argc, char **argv )
{
    raft::vh_affinity_hook = []( std::size_t c ) { gr::t_core = (long long) c; gr::t_core_sets++; };
    return run( argc, argv, []( long long, Rng &r )
    {
        if( opt( "mode" ) == "growth" ? r.chance( 1, 6 ) : r.chance( 1, 150 ) ) { growth( r ); return; }
        void ( *f[] )( Rng & ) = { gpart1, gpart2, gpart3, gpart4, gpart5 };
        int k = (int) r.below( 5 );
        const auto t = opt( "types" );
        if( t == "big" ) k = 4;
        if( t == "plain" ) k = (int) r.below( 2 );
        f[ k ]( r );
#ifdef VH_CHAOS
        ctx().cnt[ "delays" ] = (long long) vh_chaos_delays.load();
#endif
    } );
}
#endif
