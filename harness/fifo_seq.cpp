/* fifo_seq - one thread, random histories of the whole stream API against a
 * reference queue. Every call is one that may not block by the reference. */
#include <list>
#include "fifo_common.hpp"
using namespace vh;
using raft::signal;

struct El { uint64_t v; uint64_t sig; };
struct Hist
{
    std::string s;
    uint64_t h = 7;
    void op( const char *f, ... )
    {
        char b[ 160 ]; va_list ap; va_start( ap, f ); vsnprintf( b, sizeof b, f, ap ); va_end( ap );
        h = hcomb( h, hstr( b ) );
        if( s.size() > 900 ) s = ".. " + s.substr( s.size() - 600 );
        s += b; s += ' ';
        describe( s );
    }
};
static signal rsig( Rng &r )
{
    static const signal v[] = { raft::none, raft::quit, raft::term, raft::eof, (signal) 77, (signal) ( raft::eof + 5 ) };
    return r.chance( 1, 2 ) ? raft::none : v[ r.below( 6 ) ];
}

enum Op { PUSH, INSERT, ALLOC, ALLOC_S, DEALLOC, ALLOC_R, SEND_NOTHING, POP, POP_S, POP_R, PEEK, PEEK_R, RECYCLE, QUERY, RESIZE, CLOSE, STATS, NOPS };
/* relative weights by the property that is asked for */
static std::vector< int > weights( const std::string &p )
{
    //                PUSH INS ALLOC AS DEAL AR SN POP PS PR PEEK PKR REC QRY RES CLOSE STATS
    if( p == "peek" )    return { 8, 2, 4, 2, 1, 2, 0, 4, 3, 1, 10, 12, 8, 2, 1, 0, 0 };
    if( p == "alloc" )   return { 3, 1, 10, 8, 8, 8, 3, 8, 2, 3, 2, 2, 3, 2, 1, 0, 0 };
    if( p == "resize" )  return { 8, 2, 4, 2, 2, 2, 0, 8, 2, 2, 3, 3, 3, 2, 8, 0, 1 };
    if( p == "stats" )   return { 8, 2, 4, 2, 1, 2, 1, 8, 2, 2, 2, 2, 2, 4, 2, 0, 10 };
    return { 8, 3, 5, 3, 2, 3, 1, 8, 4, 3, 4, 4, 4, 6, 2, 0, 0 };
}

template < class T > constexpr bool is_ext() { return ext_alloc< T >::value; }
/* types that are made by their constructor, with arguments passed on */
template < class T > constexpr bool is_made() { return ext_alloc< T >::value || inline_class_alloc< T >::value; }
template < class T > constexpr bool is_bool() { return std::is_same< T, bool >::value; }

/* one end waits; its statistics must say so before long */
template < class F > bool until_blocked( F &&get )
{
    for( int k = 0; k < 60000; k++ )
    {
        if( get().bec.blocked == 1 ) return true;
        if( k < 100 ) sched_yield(); else usleep( 100 );
    }
    return false;
}
/* fills (or empties) the stream, lets one call wait for a while, and looks at the statistics */
template < class T > void blocked_once( Stream &f, Rng &r, std::deque< El > &q, uint64_t &next, size_t cap, Hist &h )
{
    Blocked s;
    if( r.chance( 1, 2 ) )
    {
        const int how = (int) r.below( 3 );
        h.op( "blocked-write%d", how );
        while( q.size() < cap ) { f->push< T >( Val< T >::make( next ) ); q.push_back( { next++, (uint64_t) raft::none } ); }
        f->get_zero_write_stats( s );
        std::thread t( [ & ]
        {
            if( how == 0 ) f->push< T >( Val< T >::make( next ) );
            else if( how == 1 ) { T &e( f->allocate< T >() ); Val< T >::put( e, next ); f->send(); }
            else { auto a( f->allocate_s< T >() ); Val< T >::put( *a, next ); }
        } );
        const bool seen = until_blocked( [ & ]{ f->get_zero_write_stats( s ); return s; } );
        VCHECK( f->size() == cap, "over-capacity", "size() is %zu while a write waits on a full stream of %zu", f->size(), cap );
        f->recycle(); f.gc(); q.pop_front();
        t.join();
        q.push_back( { next++, (uint64_t) raft::none } );
        f->get_zero_write_stats( s );
        VCHECK( seen, "write-blocked", "a write waited on a full stream and is not said to have blocked" );
        VCHECK( s.bec.count == 1, "write-count", "%u writes are counted, 1 was made", s.bec.count );
        VCHECK( f->get_frac_write_blocked() == 0, "blocked-fraction", "the fraction of blocked writes is not 0 with no write" );
        /* one write that waited: all of them did */
        bool whole = false;
        for( int k = 0; k < 40 && ! whole; k++ )
        {
            while( q.size() < cap ) { f->push< T >( Val< T >::make( next ) ); q.push_back( { next++, (uint64_t) raft::none } ); }
            f->get_zero_write_stats( s );
            std::thread w( [ & ]{ f->push< T >( Val< T >::make( next ) ); } );
            usleep( 100u << std::min( k, 8 ) );
            f->recycle(); f.gc(); q.pop_front();
            w.join();
            q.push_back( { next++, (uint64_t) raft::none } );
            const float fr = f->get_frac_write_blocked();
            VCHECK( fr == 0 || fr == 1, "blocked-fraction", "the fraction of blocked writes is %f after one write", fr );
            whole = fr == 1;
            f->get_zero_write_stats( s );
            VCHECK( s.all == 0, "stats-zeroed", "the fraction of blocked writes did not zero the statistics" );
        }
        VCHECK( whole, "blocked-fraction", "the only write waited, and the fraction of blocked writes is 0" );
    }
    else
    {
        h.op( "blocked-read" );
        while( ! q.empty() ) { f->recycle(); q.pop_front(); }
        f.gc();
        Blocked rd;
        f->get_zero_read_stats( rd );
        const uint64_t v = next++;
        std::thread t( [ & ]
        {
            T e( Val< T >::make( 9 ) );
            f->pop< T >( e );
            VCHECK( Val< T >::is( e, v ), "wrong-element", "a pop that waited gave %s, element number %llu was due", Val< T >::str( e ).c_str(), (unsigned long long) v );
        } );
        if( r.chance( 1, 2 ) ) usleep( r.below( 2000 ) );
        f->push< T >( Val< T >::make( v ) );
        t.join();
        f->get_zero_read_stats( rd );
        VCHECK( rd.bec.count == 1, "read-count", "%u reads are counted, 1 was made", rd.bec.count );
        f->get_zero_write_stats( s );
        VCHECK( s.bec.count == 1 && s.bec.blocked == 0, "write-count", "%u writes are counted, 1 was made", s.bec.count );
    }
    count( "waits_observed" );
}

template < class T > void run_hist( Rng &r, const char *tname )
{
    const auto mode = opt( "mode", "mix" );
    const size_t caps[] = { 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100 };
    size_t cap = caps[ r.below( 11 ) ];
    const bool monitored = r.chance( 1, 10 );
    /* some are big, with calls that move a lot; some get a long way round a small one */
    const bool big = r.chance( 1, 60 ), bulk = ! big && r.chance( 1, 60 );
    auto upto = [ & ]( uint64_t m ){ uint64_t k = m; for( int j = (int) r.below( 8 ); j > 0 && k > 9; j-- ) k = k * 2 / 5; return 1 + r.below( k ); };   /* from 1, of any magnitude */
    if( big ) cap = std::is_trivially_copyable< T >::value && ! is_ext< T >() ? 100 + upto( 200000 ) : 100 + upto( 4000 );
    /* how many, of at most m: a few, or in a big stream anything */
    auto several = [ & ]( uint64_t m, uint64_t few ){ return big && r.chance( 2, 3 ) ? upto( m ) : (uint64_t) r.range( 1, (int64_t) std::min< uint64_t >( m, few ) ); };
    std::unique_ptr< Stream > sp( Stream::make< T >( cap, nullptr, 16, monitored ) );
    Stream &f( *sp );
    std::deque< El > q;
    const uint64_t first = r.below( 1000 );
    uint64_t next = first;
    bool closed = false;
    uint64_t wrote = 0, read = 0;
    size_t asked = 0;
    bool waited = false;     /* a write had to wait since the statistics were read */
    Hist h;
    h.op( "%s/cap%zu%s", tname, cap, monitored ? "/monitored" : "" );
    auto w = weights( mode );
    int tot = 0; for( int x : w ) tot += x;
    const int n_ops = (int) r.range( 20, big ? 50 : 160 );
    const int bulk_at = bulk ? (int) r.below( n_ops ) : -1;
    const int close_at = r.chance( 1, mode == "close" ? 1 : 4 ) ? (int) r.below( n_ops ) : n_ops;
    const bool biased_full = r.chance( 1, 3 ), biased_empty = ! biased_full && r.chance( 1, 2 );
    int resizes = 0, reads = 0, wraps = 0;

    auto space = [ & ]{ return cap - q.size(); };
    auto check_el = [ & ]( const T &t, const El &e, const char *how )
    {
        VCHECK( Val< T >::is( t, e.v ), "wrong-element", "%s gave %s, element number %llu was due", how, Val< T >::str( t ).c_str(), (unsigned long long) e.v );
    };
    auto check_sig = [ & ]( uint64_t got, const El &e, const char *how )
    {
        VCHECK( got == e.sig, "wrong-signal", "%s gave signal %llu with element %llu, it was sent with %llu", how,
                (unsigned long long) got, (unsigned long long) e.v, (unsigned long long) e.sig );
    };
    auto query = [ & ]
    {
        VCHECK( f->size() == q.size(), "size", "size() is %zu with %zu elements queued", f->size(), q.size() );
        VCHECK( f->capacity() == cap, "capacity", "capacity() is %zu, %zu expected", f->capacity(), cap );
        VCHECK( f->space_avail() == space(), "space", "space_avail() is %zu with %zu of %zu queued", f->space_avail(), q.size(), cap );
        VCHECK( f->is_invalid() == closed, "closed-flag", "is_invalid() is %d", (int) f->is_invalid() );
        if( ! q.empty() ) check_sig( (uint64_t) f.front_signal(), q.front(), "looking at the front signal" );
    };
    auto must_throw_closed = [ & ]( const char *what, auto &&call )
    {
        bool ok = false;
        try { call(); } catch( const ClosedPortAccessException & ) { ok = true; }
        catch( const std::exception &e ) { violation( "close-exception", fmt( "%s on a closed, empty stream threw '%s'", what, e.what() ) ); }
        VCHECK( ok, "close-no-exception", "%s on a closed, empty stream returned", what );
    };
    for( int i = 0; i < n_ops; i++ )
    {
        if( i == close_at ) { h.op( "close" ); f->invalidate(); closed = true; }
        if( i == bulk_at && ! closed && space() )
        {
            const uint64_t n = 66000 + r.below( 80000 );
            h.op( "push+pop*%llu", (unsigned long long) n );
            for( uint64_t k = 0; k < n; k++ )
            {
                f->push< T >( Val< T >::make( next ) ); q.push_back( { next++, (uint64_t) raft::none } );
                T t( Val< T >::make( 12345 ) );
                f->pop< T >( t ); check_el( t, q.front(), "pop" ); q.pop_front();
            }
            wrote += n; read += n;
            f.gc();
            query();
        }
        int x = (int) r.below( tot ), op = 0;
        while( x >= w[ op ] ) x -= w[ op++ ];
        if( ! closed && biased_full && op >= POP && op <= RECYCLE && r.chance( 2, 3 ) ) op = PUSH;
        if( ! closed && biased_empty && op <= ALLOC_R && r.chance( 1, 2 ) ) op = POP;
        if( closed && op <= SEND_NOTHING ) op = POP + (int) r.below( 6 );
        switch( op )
        {
        case PUSH:
        {
            if( space() == 0 ) break;
            const El e{ next++, (uint64_t) rsig( r ) };
            const signal s = (signal) e.sig;
            const int how = (int) r.below( 3 );
            h.op( "push%d(%llu,%llu)", how, (unsigned long long) e.v, (unsigned long long) e.sig );
            if( how == 0 ) { T t( Val< T >::make( e.v ) ); f->push< T >( t, s ); check_el( t, e, "the source of push, after it," ); }
            else if( how == 1 ) { const T t( Val< T >::make( e.v ) ); f->push< T >( t, s ); }
            else f->push< T >( Val< T >::make( e.v ), s );
            q.push_back( e ); wrote++;
        }
        break;
        case INSERT:
        {
            const size_t n = big && space() && r.chance( 2, 3 ) ? upto( space() ) : r.below( std::min< size_t >( space(), 6 ) + 1 );
            const uint64_t s = (uint64_t) rsig( r );
            const bool lst = r.chance( 1, 2 );
            h.op( "insert-%s(%llu+%zu,%llu)", lst ? "list" : "vector", (unsigned long long) next, n, (unsigned long long) s );
            std::list< T > l; std::vector< T > v;
            for( size_t k = 0; k < n; k++ )
            {
                if( lst ) l.push_back( Val< T >::make( next ) ); else v.push_back( Val< T >::make( next ) );
                q.push_back( { next++, k + 1 == n ? s : (uint64_t) raft::none } ); wrote++;
            }
            if( lst ) f->insert( l.begin(), l.end(), (signal) s ); else f->insert( v.begin(), v.end(), (signal) s );
        }
        break;
        case ALLOC:
        {
            if( space() == 0 ) break;
            const El e{ next++, (uint64_t) rsig( r ) };
            h.op( "allocate+send(%llu,%llu)", (unsigned long long) e.v, (unsigned long long) e.sig );
            if constexpr( is_made< T >() ) if( r.chance( 1, 3 ) )
            {
                const bool own = r.chance( 1, 2 );
                h.op( own ? "(from another)" : "(from a value)" );
                T src( Val< T >::make( e.v ) );
                T &t( own ? f->allocate< T >( src ) : f->allocate< T >( Val< T >::make( e.v ) ) );
                check_el( t, e, "allocate with arguments" );
                check_el( src, e, "the argument of allocate, after it," );
                VCHECK( f->size() == q.size(), "allocate-visible", "size() is %zu before send, %zu were queued", f->size(), q.size() );
                f->send( (signal) e.sig );
                q.push_back( e ); wrote++;
                break;
            }
            T &t( f->allocate< T >() );
            if( r.chance( 1, 2 ) ) VCHECK( f->size() == q.size(), "allocate-visible", "size() is %zu before send, %zu were queued", f->size(), q.size() );
            Val< T >::put( t, e.v );
            f->send( (signal) e.sig );
            q.push_back( e ); wrote++;
        }
        break;
        case ALLOC_S:
        {
            if( space() == 0 ) break;
            const El e{ next++, (uint64_t) rsig( r ) };
            h.op( "allocate_s(%llu,%llu)", (unsigned long long) e.v, (unsigned long long) e.sig );
            if constexpr( is_made< T >() ) if( r.chance( 1, 3 ) )
            {
                const bool own = r.chance( 1, 2 );
                h.op( own ? "(from another)" : "(from a value)" );
                T src( Val< T >::make( e.v ) );
                {
                    auto a( own ? f->allocate_s< T >( src ) : f->allocate_s< T >( Val< T >::make( e.v ) ) );
                    check_el( *a, e, "allocate_s with arguments" );
                    check_el( src, e, "the argument of allocate_s, after it," );
                    a.sig() = (signal) e.sig;
                }
                q.push_back( e ); wrote++;
                break;
            }
            {
                auto a( f->allocate_s< T >() );
                Val< T >::put( *a, e.v );
                a.sig() = (signal) e.sig;
                VCHECK( f->size() == q.size(), "allocate-visible", "size() is %zu before the end of the scope, %zu were queued", f->size(), q.size() );
            }
            q.push_back( e ); wrote++;
        }
        break;
        case DEALLOC:
        {
            if( space() == 0 ) break;
            h.op( "allocate+deallocate" );
            T &t( f->allocate< T >() );
            if( r.chance( 1, 2 ) ) Val< T >::put( t, 999999 );
            f->deallocate();
            if( r.chance( 1, 3 ) ) { h.op( "send" ); f->send( raft::eof ); }   /* nothing is allocated: no effect */
        }
        break;
        case ALLOC_R:
        if constexpr( ! is_ext< T >() )
        {
            if( space() == 0 ) break;
            const size_t n = several( space(), 9 );
            h.op( "allocate_range(%llu+%zu)", (unsigned long long) next, n );
            auto v( f->allocate_range< T >( n ) );
            VCHECK( v.size() == n, "allocate_range-size", "allocate_range( %zu ) gave %zu", n, v.size() );
            VCHECK( f->size() == q.size(), "allocate-visible", "size() is %zu before send_range, %zu were queued", f->size(), q.size() );
            for( size_t k = 0; k < n; k++ ) { put_raw< T >( v[ k ].get(), next ); q.push_back( { next++, (uint64_t) raft::none } ); wrote++; }
            f->send_range();
        }
        break;
        case SEND_NOTHING:
            h.op( "send-nothing" );
            if( r.chance( 1, 2 ) ) f->send( raft::eof ); else f->send_range( raft::eof );
        break;
        case POP:
        {
            if( q.empty() )
            {
                if( closed ) { h.op( "pop!" ); must_throw_closed( "pop", [ & ]{ T t( Val< T >::make( 0 ) ); f->pop< T >( t ); } ); }
                break;
            }
            const El e = q.front();
            T t( Val< T >::make( 12345 ) );
            if( r.chance( 1, 2 ) )
            {
                signal s = (signal) 4242;
                h.op( "pop(sig)" );
                f->pop< T >( t, &s );
                check_el( t, e, "pop" );
                check_sig( (uint64_t) s, e, "pop" );
            }
            else { h.op( "pop" ); f->pop< T >( t ); check_el( t, e, "pop" ); }
            q.pop_front(); reads++; read++;
        }
        break;
        case POP_S:
        {
            if( q.empty() ) break;
            h.op( "pop_s" );
            const El e = q.front();
            {
                auto a( f->pop_s< T >() );
                check_el( *a, e, "pop_s" );
                check_sig( (uint64_t) a.sig(), e, "pop_s" );
                VCHECK( f->size() == q.size(), "pop_s-early", "size() is %zu within the scope, %zu are queued", f->size(), q.size() );
                check_el( *a, e, "pop_s" );
            }
            f.gc();
            q.pop_front(); reads++;
        }
        break;
        case POP_R:
        {
            if( q.empty() ) break;
            const size_t n = several( q.size(), 9 );
            h.op( "pop_range(%zu)", n );
            if constexpr( ! is_bool< T >() )
            {
                std::vector< std::pair< T, raft::signal > > v;
                for( size_t k = 0; k < n; k++ ) v.emplace_back( Val< T >::make( 7 ), raft::none );
                f->pop_range< T >( v, n );
                for( size_t k = 0; k < n; k++ )
                {
                    check_el( v[ k ].first, q.front(), "pop_range" );
                    check_sig( (uint64_t) v[ k ].second, q.front(), "pop_range" );
                    q.pop_front(); reads++; read++;
                }
            }
        }
        break;
        case PEEK:
        {
            if( q.empty() )
            {
                if( closed ) { h.op( "peek!" ); must_throw_closed( "peek", [ & ]{ f->peek< T >(); } ); }
                break;
            }
            const El e = q.front();
            signal s = (signal) 4242;
            h.op( "peek" );
            T *p;
            {
                auto &t( f->peek< T >( &s ) );
                p = &t;
                check_el( t, e, "peek" );
                check_sig( (uint64_t) s, e, "peek" );
                f->unpeek();
            }
            if( r.chance( 1, 2 ) )
            {
                auto &t( f->peek< T >() );
                VCHECK( p == &t, "peek-moved", "two peeks in a row gave two places" );
                check_el( t, e, "the second peek" );
                VCHECK( f->size() == q.size(), "peek-removes", "size() is %zu after peek, %zu are queued", f->size(), q.size() );
                f->unpeek();
            }
            if( r.chance( 1, 3 ) ) { h.op( "recycle" ); f->recycle(); q.pop_front(); }
            f.gc();
        }
        break;
        case PEEK_R:
        if constexpr( ! is_ext< T >() )
        {
            if( q.empty() )
            {
                if( closed ) { h.op( "peek_range!" ); must_throw_closed( "peek_range", [ & ]{ f->peek_range< T >( 1 ); } ); }
                break;
            }
            if( closed && r.chance( 1, 3 ) )
            {
                const size_t more = q.size() + (size_t) r.range( 1, 5 );
                h.op( "peek_range!(%zu)", more );
                bool ok = false;
                try { f->peek_range< T >( more ); } catch( const NoMoreDataException & ) { ok = true; }
                catch( const std::exception &e ) { violation( "close-exception", fmt( "peek_range of %zu with %zu left on a closed stream threw '%s'", more, q.size(), e.what() ) ); }
                VCHECK( ok, "close-no-exception", "peek_range of %zu with %zu left on a closed stream returned", more, q.size() );
                f->unpeek();
                break;
            }
            const size_t n = r.chance( 1, 3 ) ? q.size() : (size_t) r.range( 1, (int64_t) q.size() );
            h.op( "peek_range(%zu)", n );
            {
                auto v( f->peek_range< T >( n ) );
                VCHECK( v.size() == n, "peek_range-size", "peek_range( %zu ) has size %zu", n, v.size() );
                for( size_t k = 0; k < n; k++ )
                {
                    check_el( v[ k ].ele, q[ k ], "peek_range" );
                    check_sig( (uint64_t) (signal) v[ k ].sig, q[ k ], "peek_range" );
                }
                for( size_t bad : { n, n + 1, n + cap, (size_t) -1 } )
                {
                    bool ok = false;
                    try { v[ bad ]; } catch( const std::length_error & ) { ok = true; }
                    VCHECK( ok, "peek_range-bounds", "index %zu of a range of %zu did not throw", bad, n );
                }
                VCHECK( f->size() == q.size(), "peek-removes", "size() is %zu after peek_range, %zu are queued", f->size(), q.size() );
            }
            if( r.chance( 1, 2 ) )
            {
                const size_t k = r.below( n + 1 );
                h.op( "recycle(%zu)", k );
                f->recycle( k );
                q.erase( q.begin(), q.begin() + k );
            }
        }
        break;
        case RECYCLE:
        {
            if( q.empty() ) { if( closed ) { h.op( "recycle-closed" ); f->recycle( r.below( 3 ) ); } break; }
            const size_t k = r.chance( 1, 2 ) ? 1 : r.below( q.size() + 1 );
            h.op( "recycle(%zu)", k );
            f->recycle( k );
            f.gc();
            q.erase( q.begin(), q.begin() + k ); reads++;
        }
        break;
        case RESIZE:
        {
            if( closed ) break;
            size_t nc = cap + (size_t) r.range( 1, (int64_t) cap + 3 );
            if( r.chance( 1, 2 ) ) nc = cap * 2;
            if( nc > 700 && ! ( big && nc < 500000 ) ) break;
            h.op( "resize(%zu)", nc );
            if constexpr( inline_nonclass_alloc< T >::value && ! is_bool< T >() )
            if( resizes == 0 && asked == 0 && ! q.empty() && next - first < cap && r.chance( 1, 2 ) )
            {
                /* a range that the stream has no room for: says so, and is there once it is resized */
                const size_t n = cap + (size_t) r.range( 1, 9 );
                nc = q.size() + n + r.below( 3 );
                h.op( "allocate_range-of-more(%zu)+resize(%zu)", n, nc );
                volatile bool no = false;
                std::thread w( [ & ]
                {
                    auto v( f->allocate_range< T >( n ) );
                    VCHECK( v.size() == n, "allocate_range-size", "allocate_range( %zu ) gave %zu", n, v.size() );
                    for( size_t k = 0; k < n; k++ ) put_raw< T >( v[ k ].get(), next + k );
                    f->send_range();
                } );
                bool said = false;
                for( int k = 0; k < 60000 && ! said; k++ ) { said = f->get_suggested_count() == n; if( k < 100 ) sched_yield(); else usleep( 100 ); }
                VCHECK( said, "suggested-count", "a range of %zu waits on a stream of %zu, and get_suggested_count() is %zu", n, cap, f->get_suggested_count() );
                VCHECK( f->size() == q.size(), "allocate-visible", "size() is %zu while a range waits, %zu were queued", f->size(), q.size() );
                f->resize( nc, 16, no );
                w.join();
                for( size_t k = 0; k < n; k++ ) { q.push_back( { next++, (uint64_t) raft::none } ); wrote++; }
                asked = n; cap = nc; resizes++;
                count( "ranges_that_waited_for_a_resize" );
                query();
                VCHECK( f->get_suggested_count() == n, "suggested-count", "get_suggested_count() is %zu after the resize, a range of %zu was asked for", f->get_suggested_count(), n );
                if( mode == "stats" )
                {
                    Blocked wr;
                    f->get_zero_write_stats( wr );
                    VCHECK( wr.bec.count == wrote, "write-count", "%u writes are counted, %llu were made", wr.bec.count, (unsigned long long) wrote );
                    VCHECK( wr.bec.blocked == 1, "write-blocked", "a range waited for space and is not said to have blocked" );
                    wrote = 0;
                }
                else waited = true;
                break;
            }
            /* may wait for a state that suits it; nobody is using the stream, so tell it to give up after a while */
            volatile bool stop = false;
            if( r.chance( 1, 8 ) ) { stop = true; f->resize( nc, 16, stop ); VCHECK( f->capacity() == cap, "resize-after-exit", "resized although it was told to exit" ); break; }
            std::atomic< bool > done{ false };
            std::thread t( [ & ]{ f->resize( nc, 16, stop ); done = true; } );
            /* in the first lap of the first buffer, with elements and no call under way, nothing is in its way */
            const bool must = resizes == 0 && ! q.empty() && next - first < cap;
            for( int k = 0; k < ( must ? 100000 : 40 ) && ! done; k++ ) { if( k < 20 ) sched_yield(); else usleep( must && k > 40 ? 200 : 50 ); }
            VCHECK( done || ! must, "resize-stuck", "a resize from %zu to %zu of a quiet stream with %zu elements did not come to an end", cap, nc, q.size() );
            stop = true;
            t.join();
            const size_t c = f->capacity();
            VCHECK( c == cap || c == nc, "resize-capacity", "capacity is %zu after a resize from %zu to %zu", c, cap, nc );
            if( c == nc ) { resizes++; cap = nc; h.op( "=done" ); }
            query();
        }
        break;
        case STATS:
        {
            Blocked rd, wr;
            h.op( "stats" );
            f->get_zero_read_stats( rd );
            f->get_zero_write_stats( wr );
            VCHECK( wr.bec.count == wrote, "write-count", "%u writes are counted, %llu were made", wr.bec.count, (unsigned long long) wrote );
            VCHECK( rd.bec.count == read, "read-count", "%u reads are counted, %llu were made", rd.bec.count, (unsigned long long) read );
            VCHECK( wr.bec.blocked == ( waited ? 1 : 0 ), "write-blocked", waited ? "a range waited for space and is not said to have blocked" : "a write is said to have blocked, there was always space" );
            waited = false;
            VCHECK( f->get_suggested_count() == asked, "suggested-count", "get_suggested_count() is %zu, more than the capacity was asked for %s", f->get_suggested_count(), asked ? "once" : "never" );
            VCHECK( rd.bec.blocked == 0, "read-blocked", "a read is said to have blocked, there was always an element" );
            f->get_zero_read_stats( rd ); f->get_zero_write_stats( wr );
            VCHECK( rd.all == 0 && wr.all == 0, "stats-zeroed", "reading the statistics did not zero them" );
            wrote = read = 0;
            if constexpr( ! is_bool< T >() ) if( ! closed && mode == "stats" && r.chance( 1, 6 ) ) blocked_once< T >( f, r, q, next, cap, h );
            Blocked sum, part;
            const unsigned x = (unsigned) r.below( 1000 ), y = (unsigned) r.below( 1000 ), bl = r.chance( 1, 3 ) ? 1 + (unsigned) r.below( 3 ) : 0;
            sum.bec.count = x; sum.bec.blocked = bl; part.bec.count = y; part.bec.blocked = r.chance( 1, 3 );
            Blocked &rf( sum += part );
            VCHECK( &rf == &sum, "stats-merge", "+= gives another object" );
            VCHECK( sum.bec.count == x + ( part.bec.blocked ? 0 : y ) && sum.bec.blocked == bl, "stats-merge", "%u%s += %u%s gives %u", x, bl ? " (blocked)" : "", y, part.bec.blocked ? " (blocked)" : "", sum.bec.count );
            VCHECK( part.bec.count == y, "stats-merge", "+= changed its right side" );
            Blocked cp( part ), as; as = part;
            VCHECK( cp.all == part.all && as.all == part.all, "stats-copy", "a copy of the statistics differs" );
        }
        break;
        default: break;
        }
        if( op == QUERY || r.chance( 1, 6 ) ) query();
    }
    (void) wraps;
    query();
    h.op( "drain" );
    if( ! closed && r.chance( 1, 2 ) ) { f->invalidate(); closed = true; }
    /* some streams end with elements that nobody took */
    size_t leave = r.chance( 1, 3 ) ? (size_t) r.range( 0, (int64_t) q.size() ) : 0;
    if( leave ) { h.op( "leave(%zu)", leave ); count( "elements_left_behind", leave ); }
    while( q.size() > leave )
    {
        T t( Val< T >::make( 1 ) ); signal s = (signal) 4242;
        f->pop< T >( t, &s );
        check_el( t, q.front(), "the final pop" );
        check_sig( (uint64_t) s, q.front(), "the final pop" );
        q.pop_front(); reads++;
    }
    query();
    f.gc();
    sp.reset();
    VCHECK( live().alive() == 0, "object-leaked", "%lld objects are alive after the stream was deleted", live().alive() );
    count( "operations", n_ops ); count( "resizes", resizes ); count( "elements_read", reads );
    if( reads >= 3 ) distinct( h.h );
    sample( h.s );
}

/* streams over memory of the caller: full at first, with the caller's elements in order */
template < class T > void run_existing( Rng &r, const char *tname )
{
    const size_t n = (size_t) r.range( 1, 300 );
    const bool close = r.chance( 1, 2 );
    const size_t start = r.chance( 1, 3 ) ? 0 : (size_t) r.below( 100000 ); /* which part of a bigger array it is */
    std::vector< T > mem( n );
    for( size_t i = 0; i < n; i++ ) Val< T >::put( mem[ i ], i * 3 + 1 );
    std::unique_ptr< Stream > sp( Stream::make< T >( n, mem.data(), start ) );
    Stream &f( *sp );
    Hist h;
    h.op( "existing %s[%zu]", tname, n );
    if( close ) f->invalidate();
    size_t i = 0, total = n;
    std::vector< uint64_t > extra;
    VCHECK( f->size() == n && f->capacity() == n && f->space_avail() == 0, "existing-size", "a stream over %zu elements has size %zu capacity %zu", n, f->size(), f->capacity() );
    const bool refill = ! close && r.chance( 1, 3 );
    while( i < total )
    {
        const size_t left = total - i;
        auto val = [ & ]( size_t k ){ return k < n ? k * 3 + 1 : 70000 + k; };
        switch( r.below( refill ? 5 : 4 ) )
        {
        case 0: { T t; f->pop< T >( t ); h.op( "pop" ); VCHECK( Val< T >::is( t, val( i ) ), "wrong-element", "element %zu is %s", i, Val< T >::str( t ).c_str() ); i++; } break;
        case 1:
        {
            auto &t( f->peek< T >() ); h.op( "peek" );
            VCHECK( &t == &mem[ i % n ], "existing-copied", "element %zu is not the one in the caller's memory", i );
            VCHECK( Val< T >::is( t, val( i ) ), "wrong-element", "element %zu is %s", i, Val< T >::str( t ).c_str() );
            f->unpeek(); f->recycle(); i++;
        }
        break;
        case 2:
        {
            const size_t k = (size_t) r.range( 1, (int64_t) left ); h.op( "peek_range(%zu)", k );
            {
                auto v( f->peek_range< T >( k ) );
                VCHECK( v.getindex() == start, "wrong-start", "the part of an array at %zu is said to start at %zu", start, v.getindex() );
                for( size_t j = 0; j < k; j++ )
                {
                    auto p( v[ j ] );
                    VCHECK( Val< T >::is( p.ele, val( i + j ) ), "wrong-element", "element %zu of the range at %zu is %s", j, i, Val< T >::str( p.ele ).c_str() );
                    VCHECK( &p.ele == &mem[ ( i + j ) % n ], "existing-copied", "element %zu is not the one in the caller's memory", i + j );
                    VCHECK( (signal) p.sig == raft::none, "wrong-signal", "element %zu has a signal", i + j );
                }
            }
            f->recycle( k ); i += k;
        }
        break;
        case 3:
        {
            const size_t k = (size_t) r.range( 1, (int64_t) std::min< size_t >( left, 8 ) ); h.op( "pop_range(%zu)", k );
            std::vector< std::pair< T, raft::signal > > v( k );
            f->pop_range< T >( v, k );
            for( size_t j = 0; j < k; j++ ) VCHECK( Val< T >::is( v[ j ].first, val( i + j ) ), "wrong-element", "element %zu is %s", i + j, Val< T >::str( v[ j ].first ).c_str() );
            i += k;
        }
        break;
        case 4:
            if( f->space_avail() > 0 && total < 2 * n ) { h.op( "push" ); f->push< T >( Val< T >::make( 70000 + total ) ); total++; }
        break;
        }
        VCHECK( f->size() == total - i, "size", "size() is %zu, %zu are left", f->size(), total - i );
    }
    if( r.chance( 1, 4 ) )
    {
        volatile bool stop = false;
        f->resize( n * 2, 16, stop );
        VCHECK( f->capacity() == n, "existing-resized", "a stream over existing memory was resized" );
    }
    if( close )
    {
        bool ok = false;
        try { T t; f->pop< T >( t ); } catch( const ClosedPortAccessException & ) { ok = true; }
        VCHECK( ok, "close-no-exception", "pop on a closed, empty stream returned" );
    }
    sp.reset();
    for( size_t k = 0; k < n && total == n; k++ ) VCHECK( Val< T >::is( mem[ k ], k * 3 + 1 ), "existing-changed", "the caller's element %zu was changed", k );
    count( "operations", (long long) total ); count( "elements_read", (long long) total );
    distinct( h.h );
    sample( h.s );
}

// PARTS: 12 (compiled in parallel, one element type each; the last one: existing memory)
#define CAT_( a, b ) a##b
#define CAT( a, b ) CAT_( a, b )
#if PART == 0
using PT = uint8_t; static const char *PN = "uint8";
#elif PART == 1
using PT = int32_t; static const char *PN = "int32";
#elif PART == 2
using PT = uint64_t; static const char *PN = "uint64";
#elif PART == 3
using PT = double; static const char *PN = "double";
#elif PART == 4
using PT = bool; static const char *PN = "bool";
#elif PART == 5
using PT = std::string; static const char *PN = "string";
#elif PART == 6
using PT = std::vector< int >; static const char *PN = "vector";
#elif PART == 7
using PT = Pod24; static const char *PN = "pod24";
#elif PART == 8
using PT = TSmall; static const char *PN = "small";
#elif PART == 9
using PT = TBig; static const char *PN = "big";
#elif PART == 10
using PT = Pod200; static const char *PN = "pod200";
#endif
#if PART < 11
void CAT( part, PART )( Rng &r ) { run_hist< PT >( r, PN ); }
#else
void part11( Rng &r )
{
    switch( r.below( 6 ) )
    {
    case 0: run_existing< int32_t >( r, "int32" ); break;
    case 1: run_existing< int64_t >( r, "int64" ); break;
    case 2: run_existing< uint8_t >( r, "uint8" ); break;
    case 3: run_existing< double >( r, "double" ); break;
    case 4: run_existing< float >( r, "float" ); break;
    case 5: run_existing< uint16_t >( r, "uint16" ); break;
    }
}
#endif

#if PART == 0
void part1( Rng & ); void part2( Rng & ); void part3( Rng & ); void part4( Rng & ); void part5( Rng & ); void part6( Rng & );
void part7( Rng & ); void part8( Rng & ); void part9( Rng & ); void part10( Rng & ); void part11( Rng & );
int main( int argc, char **argv )
{
    return run( argc, argv, []( long long, Rng &r )
    {
        void ( *f[] )( Rng & ) = { part0, part1, part2, part3, part4, part5, part6, part7, part8, part9, part10, part11 };
        const auto types = opt( "types", "all" );
        int k = (int) r.below( 11 );
        if( types == "tracked" ) k = r.chance( 2, 3 ) ? 8 + (int) r.below( 2 ) : 5 + (int) r.below( 2 );
        if( types == "inline" ) k = (int) r.below( 9 );
        if( opt( "mode", "mix" ) == "existing" ) k = 11;
        f[ k ]( r );
    } );
}
#endif
