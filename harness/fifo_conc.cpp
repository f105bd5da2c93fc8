/* fifo_conc - one producer, one consumer, and beside them threads that resize
 * and that watch; all use the public stream API at random. The monitors: the
 * consumer sees 0,1,2,.. each intact and with the signal it was sent with; the
 * producer is never ahead by more than the capacity; the stream ends with the
 * documented exception, and only when everything was delivered. */
#include <list>
#include "fifo_common.hpp"
using namespace vh;
using raft::signal;
#ifdef VH_CHAOS
extern "C" { extern std::atomic< int > vh_chaos_rate; extern std::atomic< unsigned long long > vh_chaos_seed, vh_chaos_points, vh_chaos_delays; }
#endif

inline raft::signal sig_of( uint64_t v )
{
    const auto h = mix( v ^ 0x77 );
    if( h % 3 ) return raft::none;
    switch( ( h >> 8 ) % 8 )
    {
        case 0: return raft::eof;
        case 1: return raft::quit;
        case 2: return raft::term;
        case 3: return (raft::signal)( raft::eof + 1 + ( h >> 16 ) % 3 );
        case 4: return (raft::signal)( 5000 + ( h >> 16 ) % 100000 );
        default: return (raft::signal)( 1 + ( h >> 16 ) % 4090 );
    }
}

template < class T > struct Run
{
    Rng &r;
    const char *tname;
    size_t cap;
    uint64_t n;
    bool grow = true;
    bool close_early = false;
    bool watch = false;
    std::unique_ptr< Stream > sp;
    std::atomic< uint64_t > begun{ 0 };        /* elements handed to the stream, or about to be */
    std::atomic< uint64_t > accepted{ 0 };     /* elements the stream took */
    std::atomic< uint64_t > taken_begin{ 0 };  /* elements whose removal may have begun */
    std::atomic< uint64_t > taken{ 0 };        /* elements removed */
    std::atomic< bool > prod_done{ false }, all_done{ false };
    std::atomic< size_t > max_cap;
    std::atomic< uint64_t > n_resizes{ 0 };
    volatile bool stop_resize = false;
    static constexpr bool ext = ext_alloc< T >::value;
    static constexpr bool ranges = ! ext;
    uint64_t trace = 1;
    Run( Rng &r, const char *t ) : r( r ), tname( t ) {}

    void pace( Rng &q, int mode )
    {
        switch( mode )
        {
        case 1: if( q.chance( 1, 3 ) ) sched_yield(); break;
        case 2: if( q.chance( 1, 20 ) ) usleep( q.below( 200 ) ); break;
        case 3: for( volatile unsigned i = 0; i < q.below( 300 ); i = i + 1 ); break;
        case 4: if( q.chance( 1, 150 ) ) usleep( 500 + q.below( 2000 ) ); break;
        default: break;
        }
    }
    void took( uint64_t upto )
    {
        beat();
        accepted = upto;
        /* everything beyond what the consumer may have begun to remove is queued */
        const uint64_t t = taken_begin.load();
        const uint64_t c = max_cap.load();
        VCHECK( upto <= t + c, "over-capacity", "the stream has taken %llu elements and at most %llu were removed, but it has a capacity of %llu",
                (unsigned long long) upto, (unsigned long long) t, (unsigned long long) c );
    }
    void producer( uint64_t seed, int pm )
    {
        Rng q( seed );
        Stream &f( *sp );
        uint64_t i = 0;
        const int only = q.chance( 1, 3 ) ? (int) q.below( 6 ) : -1;
        while( i < n )
        {
            pace( q, pm );
            switch( only >= 0 ? only : (int) q.below( 8 ) )
            {
            case 0: case 6: case 7: { begun = i + 1; const T t( Val< T >::make( i ) ); f->push< T >( t, sig_of( i ) ); took( ++i ); } break;
            case 1: { begun = i + 1; f->push< T >( Val< T >::make( i ), sig_of( i ) ); took( ++i ); } break;
            case 2: { begun = i + 1; T &t( f->allocate< T >() ); Val< T >::put( t, i ); pace( q, pm ); f->send( sig_of( i ) ); took( ++i ); } break;
            case 3:
            {
                begun = i + 1;
                { auto a( f->allocate_s< T >() ); Val< T >::put( *a, i ); a.sig() = sig_of( i ); }
                took( ++i );
            }
            break;
            case 4:
            {
                /* only the last one of the elements inserted has a signal */
                uint64_t k = 0;
                std::list< T > l; std::vector< T > v;
                const bool lst = q.chance( 1, 2 );
                const uint64_t want = q.below( 12 ) + 1;
                while( i + k < n && k < want )
                {
                    if( lst ) l.push_back( Val< T >::make( i + k ) ); else v.push_back( Val< T >::make( i + k ) );
                    k++;
                    if( sig_of( i + k - 1 ) != raft::none ) break;
                }
                begun = i + k;
                const signal s = sig_of( i + k - 1 );
                if( lst ) f->insert( l.begin(), l.end(), s ); else f->insert( v.begin(), v.end(), s );
                i += k; took( i );
            }
            break;
            case 5:
                if constexpr( ranges )
                {
                    uint64_t k = 0;
                    /* one side waits for room, the other for elements: both fit at any time */
                    while( i + k < n && k < ( cap + 1 ) / 2 && k < 9 && sig_of( i + k ) == raft::none ) k++;
                    if( k == 0 ) { begun = i + 1; f->push< T >( Val< T >::make( i ), sig_of( i ) ); took( ++i ); break; }
                    if( q.chance( 1, 2 ) ) k = 1 + q.below( k );
                    begun = i + k;
                    auto v( f->allocate_range< T >( k ) );
                    VCHECK( v.size() == k, "allocate_range-size", "allocate_range( %llu ) gave %zu", (unsigned long long) k, v.size() );
                    for( uint64_t j = 0; j < k; j++ ) put_raw< T >( v[ j ].get(), i + j );
                    pace( q, pm );
                    f->send_range();
                    i += k; took( i );
                }
                else
                {
                    T &t( f->allocate< T >() ); Val< T >::put( t, 77 ); f->deallocate();
                    begun = i + 1; f->push< T >( Val< T >::make( i ), sig_of( i ) ); took( ++i );
                }
            break;
            }
        }
        prod_done = true;
        f->invalidate();
    }
    void el( const T &t, uint64_t v, const char *how )
    {
        VCHECK( Val< T >::is( t, v ), "wrong-element", "%s gave %s, element %llu of %llu was due", how, Val< T >::str( t ).c_str(), (unsigned long long) v, (unsigned long long) n );
    }
    void sg( uint64_t s, uint64_t v, const char *how )
    {
        VCHECK( s == (uint64_t) sig_of( v ), "wrong-signal", "%s gave signal %llu with element %llu, it was sent with %llu", how,
                (unsigned long long) s, (unsigned long long) v, (unsigned long long) sig_of( v ) );
    }
    void consumer( uint64_t seed, int pm )
    {
        Rng q( seed );
        Stream &f( *sp );
        uint64_t i = 0;
        const int only = q.chance( 1, 3 ) ? (int) q.below( 7 ) : -1;
        const uint64_t lag = q.chance( 1, 4 ) ? q.below( 3 ) : 0;
        try
        {
            for( ;; )
            {
                pace( q, pm );
                if( lag ) for( int w = 0; w < 50 && ! f->is_invalid() && f->size() < lag; w++ ) sched_yield();
                const size_t sz = f->size();
                trace = hcomb( trace, sz );
                switch( only >= 0 ? only : (int) q.below( 9 ) )
                {
                case 0: case 7: case 8: { T t( Val< T >::make( 5 ) ); taken_begin = i + 1; f->pop< T >( t ); el( t, i, "pop" ); i++; } break;
                case 1: { T t( Val< T >::make( 5 ) ); signal s = (signal) 4242; taken_begin = i + 1; f->pop< T >( t, &s ); el( t, i, "pop" ); sg( s, i, "pop" ); i++; } break;
                case 2:
                {
                    signal s = (signal) 4242;
                    auto &t( f->peek< T >( &s ) );
                    el( t, i, "peek" ); sg( s, i, "peek" );
                    pace( q, pm );
                    el( t, i, "peek, later," );
                    f->unpeek();
                    if( q.chance( 2, 3 ) ) { taken_begin = i + 1; f->recycle(); i++; }
                    f.gc();
                }
                break;
                case 3:
                {
                    taken_begin = i + 1;
                    {
                        auto a( f->pop_s< T >() );
                        el( *a, i, "pop_s" ); sg( a.sig(), i, "pop_s" );
                        pace( q, pm );
                        el( *a, i, "pop_s, later," );
                    }
                    i++;
                    f.gc();
                }
                break;
                case 4:
                    if( sz == 0 && ! prod_done ) break;
                    else
                    {
                        const size_t have = f->size();
                        if( have == 0 ) { T t( Val< T >::make( 5 ) ); taken_begin = i + 1; f->pop< T >( t ); el( t, i, "pop" ); i++; break; }
                        const size_t k = 1 + q.below( std::min< size_t >( have, 9 ) );
                        std::vector< std::pair< T, signal > > v;
                        for( size_t j = 0; j < k; j++ ) v.emplace_back( Val< T >::make( 6 ), raft::none );
                        taken_begin = i + k;
                        f->pop_range< T >( v, k );
                        for( size_t j = 0; j < k; j++ ) { el( v[ j ].first, i + j, "pop_range" ); sg( v[ j ].second, i + j, "pop_range" ); }
                        i += k;
                    }
                break;
                case 5:
                    if constexpr( ! ext )
                    {
                        const size_t k = 1 + q.below( std::min< size_t >( ( cap + 1 ) / 2, 9 ) );
                        size_t rec = 0;
                        try
                        {
                            auto v( f->peek_range< T >( k ) );
                            for( size_t j = 0; j < k; j++ )
                            {
                                auto p( v[ j ] );
                                el( p.ele, i + j, "peek_range" );
                                sg( (signal) p.sig, i + j, "peek_range" );
                            }
                            pace( q, pm );
                            el( v[ k - 1 ].ele, i + k - 1, "peek_range, later," );
                            rec = q.below( k + 1 );
                        }
                        catch( const NoMoreDataException & )
                        {
                            f->unpeek();
                            VCHECK( prod_done, "closed-early", "NoMoreDataException before the producer was done" );
                            VCHECK( n - i < k, "closed-early", "NoMoreDataException for a range of %zu with %llu left", k, (unsigned long long)( n - i ) );
                            T t( Val< T >::make( 5 ) ); taken_begin = i + 1; f->pop< T >( t ); el( t, i, "pop" ); i++;
                            break;
                        }
                        taken_begin = i + rec;
                        f->recycle( rec ); i += rec;
                    }
                    else { T t( Val< T >::make( 5 ) ); taken_begin = i + 1; f->pop< T >( t ); el( t, i, "pop" ); i++; }
                break;
                case 6:
                {
                    const size_t have = f->size();
                    if( have == 0 ) { T t( Val< T >::make( 5 ) ); taken_begin = i + 1; f->pop< T >( t ); el( t, i, "pop" ); i++; break; }
                    signal s = (signal) 4242;
                    auto &t( f->peek< T >( &s ) );
                    el( t, i, "peek" ); sg( s, i, "peek" );
                    f->unpeek();
                    const size_t k = 1 + q.below( have );
                    taken_begin = i + k;
                    f->recycle( k );
                    i += k;
                    f.gc();
                }
                break;
                }
                if( taken != i ) beat();
                taken = i;
                VCHECK( i <= begun, "out-of-nothing", "%llu elements were read, %llu were written", (unsigned long long) i, (unsigned long long) begun );
            }
        }
        catch( const ClosedPortAccessException & )
        {
            f->unpeek();
            VCHECK( prod_done, "closed-early", "ClosedPortAccessException after %llu elements, before the producer was done", (unsigned long long) i );
            VCHECK( i == n, "elements-lost", "the stream is closed and empty after %llu of %llu elements", (unsigned long long) i, (unsigned long long) n );
        }
        taken = i;
        for( int k = 0; k < 3; k++ )
        {
            bool ok = false;
            try { T t( Val< T >::make( 3 ) ); f->pop< T >( t ); } catch( const ClosedPortAccessException & ) { ok = true; }
            VCHECK( ok, "close-no-exception", "pop on a closed, empty stream returned" );
        }
        f.gc();
        all_done = true;
    }
    void resizer( uint64_t seed )
    {
        Rng q( seed );
        Stream &f( *sp );
        size_t c = cap;
        const int style = (int) q.below( 3 );
        size_t lastcap = 0;
        bool inv = false;
        while( ! all_done && c < 3000 )
        {
            if( style == 0 ) usleep( q.below( 300 ) );
            else if( style == 1 ) for( unsigned k = 0; k < q.below( 200 ) && ! all_done; k++ ) sched_yield();
            const size_t nc = q.chance( 1, 2 ) ? c * 2 : c + 1 + q.below( 7 );
            /* the thread that resizes is the one that monitors */
            if( watch ) for( unsigned k = 0; k < 10 && ! all_done; k++ ) look( q, lastcap, inv );
            max_cap = std::max( max_cap.load(), nc );
            f->resize( nc, 16, stop_resize );
            const size_t got = f->capacity();
            VCHECK( got == nc || ( ( f->is_invalid() || stop_resize ) && got == c ), "resize-capacity", "capacity is %zu after a resize from %zu to %zu", got, c, nc );
            if( got == nc ) { n_resizes++; c = nc; }
            else break;
        }
    }
    void watcher( uint64_t seed )
    {
        Rng q( seed );
        Stream &f( *sp );
        size_t lastcap = 0;
        bool inv = false;
        while( ! all_done ) look( q, lastcap, inv );
    }
    /* what a thread that is neither end of the stream may see of it; its size is only an estimate there */
    void look( Rng &q, size_t &lastcap, bool &inv )
    {
        Stream &f( *sp );
        const size_t c = f->capacity();
        VCHECK( c >= lastcap && c <= max_cap, "capacity", "capacity() went from %zu to %zu", lastcap, c );
        lastcap = c;
        (void) f->size();
        const bool now = f->is_invalid();
        VCHECK( ! now || prod_done, "closed-early", "is_invalid() before the producer was done" );
        VCHECK( ! inv || now, "reopened", "a closed stream is open again" );
        inv = now;
        const float fr = f->get_frac_write_blocked();
        VCHECK( ! ( fr < 0 ), "blocked-fraction", "get_frac_write_blocked() is %f", fr );
        pace( q, 1 );
    }
    void go()
    {
        const size_t caps[] = { 1, 2, 3, 4, 5, 8, 13, 16, 32, 64 };
        cap = caps[ r.below( 10 ) ];
        max_cap = cap;
        const auto mode = opt( "mode", "mix" );
        const int kind = mode == "resize" ? 1 : mode == "fixed" ? 0 : (int) r.below( 2 );
        n = (uint64_t) r.range( 0, atoi( opt( "items", "3000" ).c_str() ) );
        if( sizeof( T ) == 1 && ! std::is_same< T, bool >::value && n > 100000 ) n = 100000;
        if( r.chance( 1, 12 ) ) n = r.below( 5 );
        watch = r.chance( 1, 3 );
        const int pm = (int) r.below( 5 ), cm = (int) r.below( 5 );
        int rate = 0;
#ifdef VH_CHAOS
        const int rates[] = { 0, 20, 60, 200, 1000 };
        rate = rates[ r.below( 5 ) ];
        vh_chaos_seed = r.next() | 1;
        vh_chaos_rate = rate;
        if( rate && rate < 100 ) n = n / 6;
        else if( rate ) n = n / 2;
#endif
        const auto desc = fmt( "%s cap %zu, %llu elements, producer pace %d, consumer pace %d%s%s, delays 1/%d", tname, cap, (unsigned long long) n, pm, cm,
                      kind ? ", resized" : "", watch ? ", watched" : "", rate );
        describe( desc );
        sp.reset( Stream::make< T >( cap ) );
        const uint64_t a = r.next(), b = r.next(), c = r.next(), d = r.next();
        std::vector< std::thread > th;
        th.emplace_back( [ & ]{ producer( a, pm ); } );
        th.emplace_back( [ & ]{ consumer( b, cm ); } );
        if( kind ) th.emplace_back( [ & ]{ resizer( c ); } );
        if( watch && ! kind ) th.emplace_back( [ & ]{ watcher( d ); } );
        for( auto &t : th ) t.join();
#ifdef VH_CHAOS
        vh_chaos_rate = 0;
#endif
        Stream &f( *sp );
        VCHECK( f->size() == 0, "size", "size() is %zu at the end", f->size() );
        sp.reset();
        VCHECK( live().alive() == 0, "object-leaked", "%lld objects are alive after the stream was emptied and deleted", live().alive() );
        count( "elements", (long long) n ); count( "resizes", (long long) n_resizes );
        if( n > cap ) distinct( hstr( desc ) );
        interleaving( trace );
        sample( desc );
    }
};

// PARTS: 8 (compiled in parallel, one element type each)
#define CAT_( a, b ) a##b
#define CAT( a, b ) CAT_( a, b )
#if PART == 0
using PT = uint64_t; static const char *PN = "uint64";
#elif PART == 1
using PT = int32_t; static const char *PN = "int32";
#elif PART == 2
using PT = uint8_t; static const char *PN = "uint8";
#elif PART == 3
using PT = Pod24; static const char *PN = "pod24";
#elif PART == 4
using PT = std::string; static const char *PN = "string";
#elif PART == 5
using PT = TSmall; static const char *PN = "small";
#elif PART == 6
using PT = TBig; static const char *PN = "big";
#elif PART == 7
using PT = Pod200; static const char *PN = "pod200";
#endif
void CAT( part, PART )( Rng &r ) { Run< PT >( r, PN ).go(); }

#if PART == 0
void part1( Rng & ); void part2( Rng & ); void part3( Rng & ); void part4( Rng & ); void part5( Rng & ); void part6( Rng & ); void part7( Rng & );
int main( int argc, char **argv )
{
    return run( argc, argv, []( long long, Rng &r )
    {
        int k = (int) r.below( 8 );
        const auto types = opt( "types", "all" );
        if( types == "tracked" ) k = r.chance( 3, 4 ) ? 5 + (int) r.below( 2 ) : 4;
        if( types == "inline" ) k = (int) r.below( 6 );
        void ( *f[] )( Rng & ) = { part0, part1, part2, part3, part4, part5, part6, part7 };
        f[ k ]( r );
#ifdef VH_CHAOS
        ctx().cnt[ "delays" ] = (long long) vh_chaos_delays.load();
#endif
    } );
}
#endif
