/* units - the parts that every other part is built from, each against an
 * independent definition: ring positions, groups of kernels and endpoint lists,
 * exceptions, ranges, units, running statistics,
 * signal handlers.
 * --mode pointer | sets | numbers | signals; none: all */
// PARTS: 2
#ifndef PART
#define PART 0
#endif
#if PART == 1
/* groups of other things than kernels, as testsuite/ksettest.cpp makes them */
#include <vector>
#include <string>
#define TEST_WO_RAFT 1
#include "kset.tcc"
#include "vh.hpp"
using namespace vh;
template < class... A > static void one_set( const char *what, const std::vector< const void * > &want, A &... a )
{
    auto s( raft::kset( a... ) );
    VCHECK( s.size() == want.size(), "group-size", "%s: size %zu of %zu", what, (size_t) s.size(), want.size() );
    size_t i = 0;
    for( auto &x : s ) { VCHECK( i < want.size() && (const void *) &x.get() == want[ i ], "group-order", "%s: member %zu is another", what, i ); i++; }
    VCHECK( i == want.size(), "group-size", "%s: %zu members of %zu", what, i, want.size() );
    i = 0;
    for( auto it( s.cbegin() ); it != s.cend(); ++it, i++ ) VCHECK( (const void *) &it->get() == want[ i ], "group-order", "%s: const member %zu is another", what, i );
    auto t( std::move( s ) );
    i = 0;
    for( auto &x : t ) { VCHECK( (const void *) &x.get() == want[ i ], "group-order", "%s: member %zu is another after a move", what, i ); i++; }
    VCHECK( i == want.size(), "group-size", "%s: %zu members of %zu after a move", what, i, want.size() );
    count( "group members", (long long) i );
}
struct Base { int x = 0; virtual ~Base() = default; };
template < class T, size_t... I > static void sets_of( const char *what, T *v, std::index_sequence< I... > )
{
    one_set( what, { (const void *) &v[ I ]... }, v[ I ]... );
}
void sets( Rng &r )
{
    int iv[ 40 ]; Base bv[ 40 ];
    /* the same member may be in a group twice */
    const int o = (int) r.below( 3 );
    describe( fmt( "groups from %d", o ) );
    switch( r.below( 8 ) )
    {
    case 0: sets_of( "group of 1", iv + o, std::make_index_sequence< 1 >() ); break;
    case 1: sets_of( "group of 2", bv + o, std::make_index_sequence< 2 >() ); break;
    case 2: sets_of( "group of 3", iv + o, std::make_index_sequence< 3 >() ); break;
    case 3: sets_of( "group of 5", bv + o, std::make_index_sequence< 5 >() ); break;
    case 4: sets_of( "group of 8", iv + o, std::make_index_sequence< 8 >() ); break;
    case 5: sets_of( "group of 17", bv + o, std::make_index_sequence< 17 >() ); break;
    case 6: sets_of( "group of 33", iv + o, std::make_index_sequence< 33 >() ); break;
    case 7: one_set( "group with a member twice", { &bv[ 1 ], &bv[ 0 ], &bv[ 1 ] }, bv[ 1 ], bv[ 0 ], bv[ 1 ] ); break;
    }
}
#else
#include <cmath>
#include <list>
#include <memory>
#include <exception>
#include <raft>
#include "kernel_pair_t.hpp"
#include "streamingstat.tcc"
#include "utility.hpp"
#include "raftmanip.hpp"
#include "kernelmanip.tcc"
#include "fifo_common.hpp"
using namespace vh;

/* ---- U01 ---- */
static void pointers( Rng &r )
{
    /* the read position follows the write position; both by exact counts */
    size_t cap = r.chance( 1, 3 ) ? 1 + r.below( 4 ) : r.chance( 1, 2 ) ? 1 + r.below( 70 ) : 1 + r.below( 100000 );
    size_t w0 = r.chance( 1, 4 ) ? ~(size_t) 0 - r.below( 3 ) : r.chance( 1, 2 ) ? 0 : r.below( 1000 );
    std::unique_ptr< Pointer > R( w0 ? new Pointer( cap, w0 ) : new Pointer( cap ) ), W( w0 ? new Pointer( cap, w0 ) : new Pointer( cap ) );
    uint64_t rd = 0, wr = 0;                    /* steps since the last move to another buffer */
    size_t rw = w0, ww = w0;                    /* wraps at that time */
    const int n = 50 + (int) r.below( 400 );
    std::string d = fmt( "positions of capacity %zu, wraps from %zu:", cap, w0 );
    int moves = 0;
    uint64_t wraps = 0;
    for( int i = 0; i < n; i++ )
    {
        const uint64_t have = wr - rd;
        const bool wside = have == 0 ? true : have == cap ? false : r.chance( 1, 2 );
        Pointer &p( wside ? *W : *R );
        uint64_t &c( wside ? wr : rd );
        const uint64_t room = wside ? cap - have : have;
        uint64_t k = 1;
        const uint64_t was = c / cap;
        if( r.chance( 1, 2 ) ) { Pointer::inc( p ); }
        else { k = r.chance( 1, 3 ) ? room : r.below( room + 1 ); Pointer::incBy( p, k ); }
        c += k;
        wraps += c / cap - was;
        if( d.size() < 1500 ) d += fmt( " %c%llu", wside ? 'w' : 'r', (unsigned long long) k );
        describe( d );
        const size_t rv = Pointer::val( *R ), wv = Pointer::val( *W ), ri = Pointer::wrapIndicator( *R ), wi = Pointer::wrapIndicator( *W );
        VCHECK( rv < cap && wv < cap, "position-out-of-range", "positions %zu and %zu of capacity %zu", rv, wv, cap );
        VCHECK( rv == rd % cap && wv == wr % cap, "position", "read position %zu, %llu steps of capacity %zu; write position %zu, %llu steps", rv, (unsigned long long) rd, cap, wv, (unsigned long long) wr );
        VCHECK( ri == (size_t)( rw + rd / cap ) && wi == (size_t)( ww + wr / cap ), "wraps", "wrap counts %zu and %zu after %llu and %llu steps from %zu, capacity %zu", ri, wi,
                (unsigned long long) rd, (unsigned long long) wr, rw, cap );
        /* a full ring is told from an empty one */
        const size_t size = wv > rv ? wv - rv : wv < rv ? cap - rv + wv : wi > ri || ( wi != ri ) ? cap : 0;
        VCHECK( size == wr - rd, "distance", "the positions tell %zu elements, there are %llu", size, (unsigned long long)( wr - rd ) );
        if( r.chance( 1, 40 ) && ( rv < wv || wr == rd ) )
        {
            const size_t nc = cap + r.below( 2 * cap + 1 );
            if( nc <= wv || nc <= rv ) continue;
            std::unique_ptr< Pointer > nr( new Pointer( *R, nc ) ), nw( new Pointer( *W, nc ) );
            VCHECK( Pointer::val( *nr ) == rv && Pointer::val( *nw ) == wv, "moved-position", "positions %zu and %zu became %zu and %zu in a buffer of %zu", rv, wv, Pointer::val( *nr ), Pointer::val( *nw ), nc );
            VCHECK( Pointer::wrapIndicator( *nr ) == Pointer::wrapIndicator( *nw ), "moved-wraps", "moved to a buffer of %zu, the positions count %zu and %zu wraps", nc, Pointer::wrapIndicator( *nr ), Pointer::wrapIndicator( *nw ) );
            VCHECK( Pointer::val( *R ) == rv && Pointer::val( *W ) == wv, "moved-position", "the old positions changed" );
            R = std::move( nr ); W = std::move( nw );
            cap = nc; rd = rv; wr = wv; rw = ww = Pointer::wrapIndicator( *R );
            d += fmt( " ->%zu", nc );
            moves++;
        }
    }
    count( "position steps", n ); count( "wraps", (long long) wraps ); count( "moves", moves );
    if( wraps ) distinct( hstr( d ) );
    sample( d );
}

/* ---- U02 ---- */
void sets( Rng &r );
struct UK : public raft::kernel { virtual raft::kstatus run() { return raft::stop; } };
static void pairs( Rng &r )
{
    static std::vector< std::unique_ptr< UK > > *ks = [] { auto *v = new std::vector< std::unique_ptr< UK > >; for( int i = 0; i < 60; i++ ) v->emplace_back( new UK ); return v; }();
    std::vector< raft::kernel * > src, dst;
    auto any = [ & ] { return ( *ks )[ r.below( ks->size() ) ].get(); };
    std::unique_ptr< kernel_pair_t > p;
    const int how = (int) r.below( 3 );
    raft::kernel *a = any(), *b = any();
    if( how == 0 ) p.reset( new kernel_pair_t );
    else { if( how == 1 ) p.reset( new kernel_pair_t( a, b ) ); else p.reset( new kernel_pair_t( *a, *b ) ); src.push_back( a ); dst.push_back( b ); }
    std::string d = fmt( "endpoint lists, from %d:", how );
    auto look = [ & ]( kernel_pair_t &q, const char *what )
    {
        auto one = [ & ]( kernel_pair_t::endpoint_ret_type e, size_t n, const std::vector< raft::kernel * > &w, const char *side )
        {
            VCHECK( n == w.size() && (size_t) std::distance( e.first, e.second ) == w.size(), "endpoint-count", "%s: %zu %s, %zu are due", what, n, side, w.size() );
            for( size_t i = 0; i < w.size(); i++, ++e.first ) VCHECK( &e.first->get() == w[ i ], "endpoint-order", "%s: %s %zu is another", what, side, i );
        };
        one( q.getSrc(), q.getSrcSize(), src, "sources" ); one( q.getDst(), q.getDstSize(), dst, "destinations" );
    };
    for( int n = (int) r.below( 120 ); n >= 0; n-- )
    {
        const int k = (int) r.below( 40 );
        if( k < 19 ) { auto *x = any(); p->addSrc( *x ); src.push_back( x ); d += "s"; }
        else if( k < 38 ) { auto *x = any(); p->addDst( *x ); dst.push_back( x ); d += "d"; }
        else if( k == 38 ) { p->clearSrc(); src.clear(); d += "S"; }
        else { p->clearDst(); dst.clear(); d += "D"; }
        describe( d );
        look( *p, "endpoint lists" );
    }
    kernel_pair_t c( *p ), e;
    e = *p;
    p.reset();
    look( c, "a copy of the lists" ); look( e, "an assigned copy of the lists" );
    count( "endpoint list changes", (long long) d.size() );
    distinct( hstr( d ) );
    sample( d );
}
template < class E, class... Bases > struct Exc
{
    template < class B > static void by( const std::string &msg, const char *what )
    {
        bool caught = false;
        try { throw E( msg ); }
        catch( const B &e ) { caught = true; VCHECK( msg == e.what(), "exception-message", "%s caught as a base: message \"%.80s\", thrown with \"%.80s\"", what, e.what(), msg.c_str() ); }
        catch( ... ) {}
        VCHECK( caught, "exception-type", "%s is not caught as one of its base types", what );
    }
    static void check( Rng &r, const char *what )
    {
        std::string msg = r.chance( 1, 5 ) ? "" : std::string( r.below( r.chance( 1, 2 ) ? 15 : 3000 ), 'x' );
        for( auto &c : msg ) c = (char)( 1 + r.below( 255 ) );
        const std::string keep( msg );
        describe( fmt( "%s with a message of %zu characters", what, msg.size() ) );
        std::exception_ptr ep;
        {
            std::unique_ptr< std::string > m( new std::string( msg ) );
            E e( *m );
            m.reset();
            std::vector< char > junk( 3000, 'j' );
            VCHECK( keep == e.what(), "exception-message", "%s: message \"%.80s\", made with \"%.80s\"", what, e.what(), keep.c_str() );
            std::unique_ptr< E > f( new E( e ) );
            E g( *f );
            f.reset();
            VCHECK( keep == g.what(), "exception-message", "%s: a copy has message \"%.80s\", made with \"%.80s\"", what, g.what(), keep.c_str() );
            try { throw e; } catch( ... ) { ep = std::current_exception(); }
        }
        /* in another thread, and after its place of origin is gone */
        std::thread t( [ & ]
        {
            bool own = false;
            try { std::rethrow_exception( ep ); }
            catch( const E &e ) { own = true; VCHECK( keep == e.what(), "exception-message", "%s: rethrown with message \"%.80s\", made with \"%.80s\"", what, e.what(), keep.c_str() ); }
            catch( ... ) {}
            VCHECK( own, "exception-type", "%s is not caught as what it is", what );
        } );
        t.join();
        by< E >( keep, what ); by< std::exception >( keep, what ); by< RaftException >( keep, what );
        ( by< Bases >( keep, what ), ... );
        count( "exceptions" );
        distinct( hstr( what ) + keep.size() );
    }
};
/* no two of them are confused */
template < class A, class B > static void apart( const char *what )
{
    bool wrong = false;
    try { throw A( "m" ); } catch( const B & ) { wrong = true; } catch( ... ) {}
    VCHECK( ! wrong, "exception-type", "%s are not told apart", what );
}
static void exceptions( Rng &r )
{
    switch( r.below( 13 ) )
    {
    case 0: Exc< RaftException >::check( r, "RaftException" ); break;
    case 1: Exc< PortException >::check( r, "PortException" ); break;
    case 2: Exc< PortNotFoundException, PortException >::check( r, "PortNotFoundException" ); break;
    case 3: Exc< PortDoubleInitializeException, PortException >::check( r, "PortDoubleInitializeException" ); break;
    case 4: Exc< PortTypeMismatchException, PortException >::check( r, "PortTypeMismatchException" ); break;
    case 5: Exc< AmbiguousPortAssignmentException, PortException >::check( r, "AmbiguousPortAssignmentException" ); break;
    case 6: Exc< ClosedPortAccessException, PortException >::check( r, "ClosedPortAccessException" ); break;
    case 7: Exc< NoMoreDataException, PortException >::check( r, "NoMoreDataException" ); break;
    case 8: Exc< PortAlreadyExists, PortException >::check( r, "PortAlreadyExists" ); break;
    case 9: Exc< PortUnconnectedException, PortException >::check( r, "PortUnconnectedException" ); break;
    case 10: Exc< CloneNotImplementedException, KernelException >::check( r, "CloneNotImplementedException" ); break;
    case 11: Exc< InvalidTopologyOperationException, MapException >::check( r, "InvalidTopologyOperationException" ); break;
    case 12:
        apart< PortNotFoundException, PortTypeMismatchException >( "port not found and type mismatch" ); apart< ClosedPortAccessException, NoMoreDataException >( "closed port and no more data" );
        apart< PortAlreadyExists, PortNotFoundException >( "port exists and not found" ); apart< PortUnconnectedException, AmbiguousPortAssignmentException >( "unconnected and ambiguous" );
        apart< PortDoubleInitializeException, PortAlreadyExists >( "double initialisation and port exists" ); apart< CloneNotImplementedException, PortException >( "clone not implemented and port exceptions" );
        apart< InvalidTopologyOperationException, KernelException >( "topology and kernel exceptions" ); apart< PortTypeMismatchException, PortDoubleInitializeException >( "type mismatch and double initialisation" );
    break;
    }
}
/* modifiers reach each kernel that they are bound to, and no other */
static void manips( Rng &r )
{
    UK k[ 4 ];
    using one = raft::parallel::device< raft::parallel::cpu, 1 >;
    using seven = raft::parallel::device< raft::parallel::cpu, 7 >;
    using group = raft::parallel::affinity_group< 3 >;
    describe( "kernel modifiers" );
    for( auto &x : k ) VCHECK( (long long) x.getCoreAssignment() == -1, "core", "a new kernel has core %lld", (long long) x.getCoreAssignment() );
    const int a = (int) r.below( 4 ), b = (int) r.below( 4 );
    auto ret( raft::manip< group, one >::bind( k[ a ], k[ b ] ) );
    VCHECK( ret.size() == 2 && &ret[ 0 ].get() == &k[ a ] && &ret[ 1 ].get() == &k[ b ], "bind", "bind returned other kernels" );
    for( int i = 0; i < 4; i++ )
        VCHECK( (long long) k[ i ].getCoreAssignment() == ( i == a || i == b ? 1 : -1 ), "core", "kernel %d has core %lld after others were bound (%d, %d)", i, (long long) k[ i ].getCoreAssignment(), a, b );
    raft::manip< one, seven >::bind( k[ 2 ] );
    VCHECK( (long long) k[ 2 ].getCoreAssignment() == 7, "core", "of two modifiers the last does not hold: core %lld", (long long) k[ 2 ].getCoreAssignment() );
    k[ 2 ].setCore( 5 );
    VCHECK( (long long) k[ 2 ].getCoreAssignment() == 5, "core", "core %lld was set to 5", (long long) k[ 2 ].getCoreAssignment() );
    distinct( 1000 + a * 4 + b );
    count( "modifier bindings", 3 );
    /* any number at once: three to six of eight, some more than once */
    UK m[ 8 ];
    int want[ 8 ]; for( auto &w : want ) w = -1;
    int at[ 6 ]; for( auto &x : at ) x = (int) r.below( 8 );
    const int n = (int) r.range( 3, 6 ), how = (int) r.below( 3 );
    auto bind = [ & ]( auto &&...ks )
    {
        if( how == 0 ) return raft::manip< one >::bind( ks... );
        if( how == 1 ) return raft::manip< one, group, seven >::bind( ks... );
        return raft::manip< seven, group, one, group >::bind( ks... );
    };
    for( int i = 0; i < n; i++ ) want[ at[ i ] ] = how == 1 ? 7 : 1;
    auto look = [ & ]( auto &&res )
    {
        VCHECK( (int) res.size() == n, "bind", "bind returned %zu kernels of %d", (size_t) res.size(), n );
        for( int i = 0; i < n; i++ ) VCHECK( &res[ i ].get() == &m[ at[ i ] ], "bind", "bind returned another kernel at %d of %d", i, n );
    };
    auto K = [ & ]( int i ) -> UK & { return m[ at[ i ] ]; };
    if( n == 3 ) look( bind( K( 0 ), K( 1 ), K( 2 ) ) );
    else if( n == 4 ) look( bind( K( 0 ), K( 1 ), K( 2 ), K( 3 ) ) );
    else if( n == 5 ) look( bind( K( 0 ), K( 1 ), K( 2 ), K( 3 ), K( 4 ) ) );
    else look( bind( K( 0 ), K( 1 ), K( 2 ), K( 3 ), K( 4 ), K( 5 ) ) );
    for( int i = 0; i < 8; i++ ) VCHECK( (long long) m[ i ].getCoreAssignment() == want[ i ], "core", "kernel %d has core %lld, %d is due (%d bound at once, way %d)", i, (long long) m[ i ].getCoreAssignment(), want[ i ], n, how );
    count( "modifier bindings", n );
}

/* ---- U06: tables of signal handlers, and the check of a kernel's inputs for system signals ---- */
struct SigCall { int who; ::FIFO *fifo; raft::kernel *k; raft::signal s; void *data; };
static thread_local std::vector< SigCall > *sig_calls = nullptr;
static bool sig_stops( int who ) { return who % 3 == 1; }
template < int N > static raft::kstatus on_signal( ::FIFO &f, raft::kernel *k, const raft::signal s, void *data )
{
    sig_calls->push_back( { N, &f, k, s, data } );
    return sig_stops( N ) ? raft::stop : raft::proceed;
}
static const sighandler on_signals[] = { on_signal< 0 >, on_signal< 1 >, on_signal< 2 >, on_signal< 3 >, on_signal< 4 >, on_signal< 5 >, on_signal< 6 > };
struct SigSchedule : public Schedule
{
    static raft::kstatus check( raft::kernel *k, void *data, SystemSignalHandler &h ) { return Schedule::checkSystemSignal( k, data, h ); }
    static raft::kstatus quit( ::FIFO &f, raft::kernel *k, raft::signal s, void *data ) { return Schedule::quitHandler( f, k, s, data ); }
    static void close( raft::kernel *k ) { Schedule::invalidateOutputPorts( k ); }
};
struct SigPort : public Port
{
    static PortInfo &info( Port &p, const std::string &name ) { return ( p.*( &SigPort::getPortInfoFor ) )( name ); }
};
struct SigFifo : public ::FIFO
{
    static void send( ::FIFO &f, raft::signal s ) { ( f.*( &SigFifo::inline_signal_send ) )( s ); }
};
/* a scheduler as the run-time makes it, with the handlers that it has by itself */
struct OwnTable : public simple_schedule
{
    OwnTable( raft::map &m ) : simple_schedule( m ) {}
    SystemSignalHandler &table() { return handlers; }
    raft::kstatus check( raft::kernel *k ) { return Schedule::checkSystemSignal( k, nullptr, handlers ); }
};
template < class T > struct SigKernel : public raft::kernel
{
    SigKernel( int in, int out )
    {
        for( int i = 0; i < in; i++ ) input.addPort< T >( "i" + std::to_string( i ) );
        for( int i = 0; i < out; i++ ) output.addPort< T >( "o" + std::to_string( i ) );
    }
    virtual raft::kstatus run() { return raft::stop; }
};
template < class T > static void signals( Rng &r, const char *tname )
{
    std::vector< SigCall > calls;
    sig_calls = &calls;
    static const raft::signal S[] = { raft::quit, raft::term, (raft::signal) 3, (raft::signal) 100, (raft::signal) 0xffe, raft::eof, (raft::signal) 5000 };
    const int NS = 7, NSYS = 5;
    SystemSignalHandler table;
    std::map< uint32_t, int > model;
    std::unique_ptr< ::FIFO > lone( RingBuffer< int >::make_new_fifo( 4, 16, nullptr ) );
    SigKernel< int > other( 1, 0 );
    std::string d( fmt( "%s, handlers:", tname ) );
    int dummy[ 4 ];
    const int ops = (int) r.range( 5, 60 );
    for( int i = 0; i < ops; i++ )
    {
        const auto s = S[ r.below( NS ) ];
        if( r.chance( 1, 2 ) )
        {
            const int who = (int) r.below( 7 );
            d += fmt( " %u=%d", (unsigned) s, who ); describe( d );
            table.addHandler( s, on_signals[ who ] );
            model[ s ] = who;
        }
        else
        {
            d += fmt( " call %u", (unsigned) s ); describe( d );
            calls.clear();
            void *data = r.chance( 1, 4 ) ? nullptr : &dummy[ r.below( 4 ) ];
            raft::kernel *k = r.chance( 1, 4 ) ? nullptr : &other;
            bool none = false;
            raft::kstatus st = raft::proceed;
            try { st = table.callHandler( s, *lone, k, data ); }
            catch( const NoSignalHandlerFoundException &e )
            {
                none = true;
                const std::exception &as( e );
                VCHECK( std::string( as.what() ).find( std::to_string( (unsigned) s ) ) != std::string::npos, "handler-exception", "the exception for signal %u says '%s'", (unsigned) s, as.what() );
            }
            const auto it = model.find( s );
            VCHECK( none == ( it == model.end() ), "handler-found", "signal %u has %s handler, and its call %s", (unsigned) s, it == model.end() ? "no" : "a", none ? "threw" : "returned" );
            if( none ) { VCHECK( calls.empty(), "handler-called", "a signal without handler called %d", calls[ 0 ].who ); continue; }
            VCHECK( calls.size() == 1 && calls[ 0 ].who == it->second, "handler-called", "signal %u called %zu handlers, the first is %d; %d is registered", (unsigned) s, calls.size(), calls.empty() ? -1 : calls[ 0 ].who, it->second );
            const auto &c( calls[ 0 ] );
            VCHECK( c.fifo == lone.get() && c.k == k && c.s == s && c.data == data, "handler-arguments", "the handler of signal %u got other arguments", (unsigned) s );
            VCHECK( st == ( sig_stops( c.who ) ? raft::stop : raft::proceed ), "handler-result", "the handler's result was not returned" );
            count( "signals handled" );
        }
    }
    /* the inputs of a kernel */
    for( int i = 0; i < NSYS; i++ ) if( ! model.count( S[ i ] ) ) { const int who = (int) r.below( 7 ); table.addHandler( S[ i ], on_signals[ who ] ); model[ S[ i ] ] = who; }
    const int n = (int) r.range( 1, 4 ), outs = (int) r.below( 4 );
    SigKernel< T > k( n, outs );
    std::vector< std::unique_ptr< Stream > > f;
    struct Ent { bool only; int v; raft::signal s; };
    std::vector< std::deque< Ent > > want( n );
    for( int i = 0; i < n; i++ )
    {
        f.emplace_back( Stream::make< T >( 16 ) );
        SigPort::info( k.input, "i" + std::to_string( i ) ).setFIFO( f.back()->f.get() );
        const int len = (int) r.below( 9 );
        for( int j = 0; j < len; j++ )
        {
            const Ent e{ std::is_arithmetic< T >::value && r.chance( 1, 3 ), (int) r.below( 1000 ), r.chance( 1, 3 ) ? raft::none : S[ r.below( NS ) ] };
            if( e.only && e.s != raft::none ) { d += fmt( " <%u>", (unsigned) e.s ); SigFifo::send( *f.back()->f, e.s ); want[ i ].push_back( e ); }
            else { d += fmt( " %d/%u", e.v, (unsigned) e.s ); ( *f.back() )->template push< T >( Val< T >::make( (uint64_t) e.v ), e.s ); want[ i ].push_back( { false, e.v, e.s } ); }
        }
        d += " |";
    }
    describe( d );
    for( int round = 0; round < 10; round++ )
    {
        calls.clear();
        std::vector< SigCall > due;
        bool stops = false;
        void *data = &dummy[ r.below( 4 ) ];
        for( int i = 0; i < n; i++ )
        {
            if( want[ i ].empty() ) continue;
            const auto s = want[ i ].front().s;
            if( s == raft::none || (uint32_t) s >= raft::MAX_SYSTEM_SIGNAL ) continue;
            want[ i ].pop_front();
            due.push_back( { model[ s ], f[ i ]->f.get(), &k, s, data } );
            stops |= sig_stops( model[ s ] );
        }
        const auto st = SigSchedule::check( &k, data, table );
        VCHECK( calls.size() == due.size(), "system-signals", "round %d: %zu handlers were called, %zu are due", round, calls.size(), due.size() );
        auto by_fifo = []( const SigCall &x, const SigCall &y ){ return x.fifo < y.fifo; }; /* the order of the inputs is not stated */
        std::sort( calls.begin(), calls.end(), by_fifo ); std::sort( due.begin(), due.end(), by_fifo );
        for( size_t i = 0; i < due.size(); i++ )
            VCHECK( calls[ i ].who == due[ i ].who && calls[ i ].fifo == due[ i ].fifo && calls[ i ].k == due[ i ].k && calls[ i ].s == due[ i ].s && calls[ i ].data == data,
                    "system-signals", "round %d: call %zu is of handler %d with signal %u, of handler %d with signal %u is due", round, i, calls[ i ].who, (unsigned) calls[ i ].s, due[ i ].who, (unsigned) due[ i ].s );
        VCHECK( st == ( stops ? raft::stop : raft::proceed ), "system-signals", "round %d: the check says %s", round, st == raft::stop ? "stop" : "proceed" );
        for( int i = 0; i < n; i++ )
        {
            VCHECK( ( *f[ i ] )->size() == want[ i ].size(), "system-signals", "round %d: input %d has %zu elements, %zu are due", round, i, ( *f[ i ] )->size(), want[ i ].size() );
            /* take one that the check leaves alone */
            if( ! want[ i ].empty() && ( want[ i ].front().s == raft::none || (uint32_t) want[ i ].front().s >= raft::MAX_SYSTEM_SIGNAL ) && r.chance( 1, 2 ) )
            {
                const Ent e = want[ i ].front(); want[ i ].pop_front();
                T v( Val< T >::make( 1001 ) ); raft::signal s = raft::quit;
                ( *f[ i ] )->template pop< T >( v, &s );
                VCHECK( s == e.s && ( e.only || Val< T >::is( v, (uint64_t) e.v ) ), "system-signals", "round %d: input %d gave %s with signal %u, number %d with %u is due", round, i, Val< T >::str( v ).c_str(), (unsigned) s, e.v, (unsigned) e.s );
            }
        }
        count( "signals handled", (long long) due.size() );
    }
    /* quitting closes the stream that said so; an ended kernel closes all of its outputs, and nothing else */
    std::vector< std::unique_ptr< ::FIFO > > g;
    for( int i = 0; i < outs; i++ ) { g.emplace_back( RingBuffer< int >::make_new_fifo( 4, 16, nullptr ) ); SigPort::info( k.output, "o" + std::to_string( i ) ).setFIFO( g.back().get() ); }
    for( auto &x : g ) VCHECK( ! x->is_invalid(), "closed-early", "an output is closed before its kernel ended" );
    const int q = (int) r.below( n );
    VCHECK( SigSchedule::quit( *f[ q ]->f, &k, raft::quit, nullptr ) == raft::stop, "quit", "the quit handler does not say stop" );
    for( int i = 0; i < n; i++ ) VCHECK( ( *f[ i ] )->is_invalid() == ( i == q ), "quit", "input %d is %s after input %d quit", i, ( *f[ i ] )->is_invalid() ? "closed" : "open", q );
    SigSchedule::close( &k );
    for( auto &x : g ) VCHECK( x->is_invalid(), "left-open", "an output is open after its kernel ended" );
    for( int i = 0; i < n; i++ ) VCHECK( ( *f[ i ] )->is_invalid() == ( i == q ), "closed-early", "ending a kernel closed its input %d", i );
    f.clear();
    /* a scheduler's own table: quit closes the stream it is in front of and asks to stop, nothing else is in it */
    {
        raft::map m;
        OwnTable own( m );
        const int ins = (int) r.range( 1, 3 ), which = (int) r.below( ins );
        const bool other_too = r.chance( 1, 3 );
        SigKernel< T > k2( ins, 0 );
        for( int i = 0; i < ins; i++ )
        {
            f.emplace_back( Stream::make< T >( 16 ) );
            SigPort::info( k2.input, "i" + std::to_string( i ) ).setFIFO( f.back()->f.get() );
            if( i == which ) { if( std::is_arithmetic< T >::value && r.chance( 1, 2 ) ) SigFifo::send( *f.back()->f, raft::quit ); else ( *f.back() )->template push< T >( Val< T >::make( 3 ), raft::quit ); }
            if( i == which || r.chance( 1, 2 ) ) ( *f.back() )->template push< T >( Val< T >::make( 4 ) );
        }
        bool none = false;
        try { own.table().callHandler( raft::term, *f[ 0 ]->f, &k2, nullptr ); } catch( const NoSignalHandlerFoundException & ) { none = true; }
        VCHECK( none, "own-handlers", "the scheduler has a handler for a signal that it does not know" );
        if( other_too ) { own.table().addHandler( raft::quit, on_signals[ 3 ] ); calls.clear(); }
        const auto st = own.check( &k2 );
        VCHECK( st == ( other_too ? raft::proceed : raft::stop ), "own-handlers", "the check says %s for a quit signal", st == raft::stop ? "stop" : "proceed" );
        VCHECK( ! other_too || ( calls.size() == 1 && calls[ 0 ].who == 3 ), "own-handlers", "the handler put in place of the scheduler's own was called %zu times", calls.size() );
        for( int i = 0; i < ins; i++ ) VCHECK( ( *f[ i ] )->is_invalid() == ( i == which && ! other_too ), "own-handlers", "input %d is %s after input %d quit", i, ( *f[ i ] )->is_invalid() ? "closed" : "open", which );
        VCHECK( ( *f[ which ] )->size() == 1, "own-handlers", "%zu elements are left behind the quit signal, not 1", ( *f[ which ] )->size() );
        count( "signals handled" );
        f.clear();
    }
    VCHECK( live().alive() == 0, "object-leaked", "%lld objects are alive after their streams were deleted", live().alive() );
    distinct( hstr( d ) );
    sample( d );
}
static void signals( Rng &r )
{
    switch( r.below( 5 ) )
    {
    case 0: case 1: signals< int >( r, "int" ); break;
    case 2: signals< std::string >( r, "string" ); break;
    case 3: signals< TSmall >( r, "small" ); break;
    default: signals< TBig >( r, "big" );
    }
}

/* ---- U03 ---- */
template < class T > static void ranges( Rng &r, const char *tname )
{
    using L = std::numeric_limits< T >;
    constexpr bool fl = std::is_floating_point< T >::value;
    const int n = (int) r.below( r.chance( 1, 6 ) ? 2000 : 60 );
    /* a whole number of steps within the type */
    __int128 lo, hi, d;
    if( fl ) { lo = r.range( -100000, 100000 ); d = r.range( 1, 50 ); }
    else
    {
        const __int128 span = (__int128) L::max() - (__int128) L::min() / 2;
        d = 1 + (__int128) r.below( r.chance( 1, 2 ) ? 3 : (uint64_t) std::min< __int128 >( span / ( n + 1 ), (__int128) 1 << 40 ) );
        if( d * n > (__int128) L::max() / 2 ) d = 1;
        if( d * n > (__int128) L::max() / 2 ) return;
        switch( r.below( 4 ) )
        {
        case 0: lo = (__int128) L::max() - d * n; break;
        case 1: lo = L::min(); break;
        case 2: lo = std::is_signed< T >::value ? -( d * n ) / 2 : 0; break;
        default: lo = (__int128) r.below( 1000 ) % ( (__int128) L::max() - d * n + 1 );
        }
    }
    hi = lo + d * n;
    const bool down = r.chance( 1, 2 );
    const T a = (T)( down ? hi : lo ), b = (T)( down ? lo : hi );
    /* for floating types, a step that is exact in the type */
    const T scale = fl ? (T) 0.25 : (T) 1;
    const std::string desc = fmt( "range of %s from %g to %g by %g", tname, (double)( a * scale ), (double)( b * scale ), (double)( (T) d * scale ) );
    describe( desc );
    std::vector< T > v;
    if( d == 1 && ! fl && r.chance( 1, 2 ) ) v = raft::range< T, T >( a, b );
    else v = raft::range< T, T >( a * scale, b * scale, (T) d * scale );
    VCHECK( v.size() == (size_t) n + 1, "range-length", "%s: %zu values, %d are due", desc.c_str(), v.size(), n + 1 );
    for( int i = 0; i <= n; i++ )
    {
        const __int128 w = down ? hi - d * i : lo + d * i;
        VCHECK( v[ i ] == (T)( (T) w * scale ), "range-value", "%s: value %d is %g, %g is due", desc.c_str(), i, (double) v[ i ], (double)( (T) w * scale ) );
    }
    /* a last step that does not reach the end exactly is left out */
    if( ! fl && d > 1 && n > 0 && (__int128) L::max() - hi > d && lo - (__int128) L::min() > d )
    {
        const __int128 more = 1 + (__int128) r.below( (uint64_t)( d - 1 ) );
        const T e = (T)( down ? lo - more : hi + more );
        const auto u( raft::range< T, T >( a, e, (T) d ) );
        VCHECK( u == v, "range-length", "%s: up to %g, a part of a step further, there are %zu values, %zu are due", desc.c_str(), (double) e, u.size(), v.size() );
    }
    count( "range values", n + 1 );
    if( n > 2 ) distinct( hstr( desc ) );
    sample( desc );
}
static void units()
{
    static const char *P[] = { "b", "kb", "mb", "gb", "tb" };
    VCHECK( raft::N_UNIT == 5, "units", "%d units", (int) raft::N_UNIT );
    double f = 1;
    for( int i = 0; i < 5; i++, f /= 1024 )
    {
        VCHECK( std::fabs( raft::unit_conversion[ i ] / f - 1 ) < 1e-5, "units", "the factor of unit %d is %g, %g is due", i, raft::unit_conversion[ i ], f );
        VCHECK( strcmp( raft::unit_prints[ i ], P[ i ] ) == 0, "units", "unit %d is called %s", i, raft::unit_prints[ i ] );
    }
    VCHECK( raft::byte == 0 && raft::kb == 1 && raft::mb == 2 && raft::gb == 3 && raft::tb == 4, "units", "the units are numbered otherwise" );
}
template < class T > static void stats( Rng &r, const char *tname )
{
    raft::streamingstat< T > s;
    for( int round = 0; round < 2; round++ )
    {
        const int n = 1 + (int) r.below( r.chance( 1, 3 ) ? 5 : 500 );
        const bool same = r.chance( 1, 4 );
        const double center = (double) r.range( -30, 30 ), width = 1 + (double) r.below( 30 );
        std::vector< long double > x;
        const std::string d = fmt( "statistics of %d of %s around %g +- %g%s", n, tname, center, width, same ? ", all the same" : "" );
        describe( d );
        T v = (T) 0;
        for( int i = 0; i < n; i++ )
        {
            if( i == 0 || ! same )
                v = std::is_signed< T >::value ? (T)( center + width * ( (double) r.below( 2001 ) / 1000 - 1 ) ) : (T) r.below( 60 );
            s.update( v );
            x.push_back( (long double) v );
        }
        long double m = 0, q = 0, big = 0;
        for( auto y : x ) { m += y; big = std::max( big, std::fabs( y ) ); }
        m /= n;
        for( auto y : x ) q += ( y - m ) * ( y - m );
        q = std::sqrt( q / n );
        const double gm = s.template mean< double >(), gs = s.template std< double >();
        const double e = std::is_floating_point< T >::value ? (double) std::numeric_limits< T >::epsilon() : 1e-16;
        const double tol = 4 * n * e * (double) big + 1e-12;
        VCHECK( std::fabs( gm - (double) m ) <= tol, "mean", "%s: mean %.12g, %.12g is due", d.c_str(), gm, (double) m );
        /* computed from the difference of two sums: exact up to their rounding */
        const double vt = 8 * n * e * (double)( big * big ) + 1e-9;
        VCHECK( std::fabs( gs * gs - (double)( q * q ) ) <= vt, "deviation", "%s: deviation %.12g, %.12g is due", d.c_str(), gs, (double) q );
        const float fm = s.template mean< float >(), fs = s.template std< float >();
        VCHECK( std::fabs( fm - (float) m ) <= tol + 1e-5 * ( std::fabs( (float) m ) + 1 ), "mean", "%s: mean as float %.8g, %.8g is due", d.c_str(), fm, (float) m );
        VCHECK( std::fabs( fs * fs - (float)( q * q ) ) <= vt + 1e-5 * (double)( big * big + 1 ), "deviation", "%s: deviation as float %.8g, %.8g is due", d.c_str(), fs, (float) q );
        count( "samples", n );
        if( n > 3 ) distinct( hstr( d ) );
        sample( d );
        s.reset();
    }
}
int main( int argc, char **argv )
{
    return run( argc, argv, []( long long, Rng &r )
    {
        auto mode = opt( "mode" );
        if( mode.empty() ) { static const char *M[] = { "pointer", "sets", "numbers", "signals" }; mode = M[ r.below( 4 ) ]; }
        if( mode == "pointer" ) pointers( r );
        else if( mode == "signals" ) signals( r );
        else if( mode == "sets" ) switch( r.below( 8 ) )
        {
        case 0: sets( r ); break;
        case 1: manips( r ); break;
        case 2: case 3: case 4: pairs( r ); break;
        default: exceptions( r ); break;
        }
        else switch( r.below( 12 ) )
        {
        case 0: ranges< int >( r, "int" ); break;
        case 1: ranges< unsigned >( r, "unsigned" ); break;
        case 2: ranges< int64_t >( r, "int64" ); break;
        case 3: ranges< uint64_t >( r, "uint64" ); break;
        case 4: ranges< double >( r, "double" ); break;
        case 5: ranges< float >( r, "float" ); break;
        case 6: ranges< int16_t >( r, "int16" ); break;
        case 7: units(); stats< int64_t >( r, "int64" ); break;
        case 8: stats< double >( r, "double" ); break;
        case 9: stats< float >( r, "float" ); break;
        case 10: stats< int >( r, "int" ); break;
        case 11: stats< uint32_t >( r, "uint32" ); break;
        }
    } );
}
#endif
