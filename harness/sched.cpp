/* sched - runs with policies that the user brings along: a partitioner, a
 * scheduler, an allocator and a monitor of her own, which record when the run
 * calls them; and kernels that are handed to the scheduler while it runs. */
#include <deque>
#include <memory>
#include "fifo_common.hpp"
using namespace vh;
#ifdef VH_CHAOS
extern "C" { extern std::atomic< int > vh_chaos_rate; extern std::atomic< unsigned long long > vh_chaos_seed, vh_chaos_delays; }
#endif
struct FifoOf : public Port { static FIFO *get( Port &p, const std::string &n ) { return ( p.*( &FifoOf::getPortInfoFor ) )( n ).getFIFO(); } };

template < class V > static void mix_up( Rng &r, V &v ) { for( size_t i = v.size(); i > 1; i-- ) std::swap( v[ i - 1 ], v[ r.below( i ) ] ); }

/* ------------------------------------------------------------ what happened, and when */
struct World
{
    std::atomic< uint64_t > tick{ 0 };
    /* times; 0: not yet */
    std::atomic< uint64_t > part_begin{ 0 }, part_end{ 0 }, alloc_made{ 0 }, alloc_begin{ 0 }, alloc_ready{ 0 }, alloc_told{ 0 }, alloc_end{ 0 }, alloc_gone{ 0 },
        sched_made{ 0 }, sched_init{ 0 }, sched_begin{ 0 }, sched_end{ 0 }, sched_gone{ 0 }, mon_made{ 0 }, mon_begin{ 0 }, mon_told{ 0 }, mon_end{ 0 }, mon_gone{ 0 }, first_run{ 0 }, last_run{ 0 }, returned{ 0 };
    std::atomic< Schedule * > sched{ nullptr };
    std::atomic< bool > mon_todo{ false };
    std::set< raft::kernel * > main_kernels;            /* those in the map when the run starts */
    std::set< raft::kernel * > all, sources, sinks, made;   /* and with all that are added */
    std::set< raft::kernel * > mon_adds;
    uint64_t seed = 0;
    int workers = 0;                                    /* of the pool scheduler; 0: another one */
    std::atomic< long > runs{ 0 }, solo_alive{ 0 }, added{ 0 };
    bool nosched = false, nomon = false, noalloc = false;
    void at( std::atomic< uint64_t > &t ) { t = ++tick; }
};
static World *W;

/* ------------------------------------------------------------ kernels */
struct K : public raft::kernel
{
    std::atomic< int > inside{ 0 };
    std::atomic< bool > ended{ false };
    std::atomic< uint64_t > runs{ 0 };
    Rng q; const int mode;
    std::string name;
    std::vector< raft::kernel * > adds; int add_when = 0;       /* handed to the scheduler by this one, at that run */
    std::vector< std::string > outs, ins;
    K( Rng &r, const std::string &name ) : q( r.next() ), mode( (int) r.below( 4 ) ), name( name ) {}
    struct In
    {
        K &k;
        In( K &k ) : k( k )
        {
            VCHECK( k.inside.exchange( 1 ) == 0, "run-twice-at-once", "%s is run by two threads at once", k.name.c_str() );
            VCHECK( ! k.ended, "run-after-stop", "%s is run after it said stop", k.name.c_str() );
            VCHECK( W->sched_init || W->nosched, "run-early", "%s is run before the scheduler was initialised", k.name.c_str() );
            VCHECK( W->alloc_ready || W->noalloc, "run-before-ready", "%s is run before the allocator said that it is ready", k.name.c_str() );
            VCHECK( ! W->sched_end && ! W->returned, "run-late", "%s is run after the end", k.name.c_str() );
            uint64_t none = 0;
            W->first_run.compare_exchange_strong( none, ++W->tick );
            W->runs++;
        }
        ~In() { k.inside = 0; }
    };
    void pace()
    {
        if( mode == 1 ) { if( q.chance( 1, 3 ) ) sched_yield(); }
        else if( mode == 2 ) { if( q.chance( 1, 40 ) ) usleep( q.below( 500 ) ); }
        else if( mode == 3 ) { if( q.chance( 1, 300 ) ) usleep( 1000 + q.below( 3000 ) ); }
    }
    /* the size that a reader sees may be 0 for a moment while the writer wraps around */
    void has_data( FIFO &f ) const
    {
        for( int i = 0; i < 2000; i++ ) { if( f.size() ) return; if( i > 1000 ) sched_yield(); }
        VCHECK( false, "run-without-data", "%s is run without data", name.c_str() );
    }
    void add_now()
    {
        Schedule *s = W->sched;
        for( auto *k : adds ) { s->scheduleKernel( k ); W->added++; pace(); }
        adds.clear();
    }
    virtual raft::kstatus step() = 0;
    virtual raft::kstatus run() final
    {
        In in( *this );
        runs++;
        if( ! adds.empty() && (int) runs > add_when ) add_now();
        auto st = step();
        if( st == raft::stop && ! adds.empty() ) { add_now(); }
        if( st == raft::stop ) ended = true;
        return st;
    }
};
template < class T > struct Src : public K
{
    const uint64_t base, n; uint64_t at = 0; const int w; bool waits = false;
    Src( Rng &r, const std::string &name, uint64_t base, uint64_t n, int w ) : K( r, name ), base( base ), n( n ), w( w )
    {
        for( int i = 0; i < w; i++ ) { outs.push_back( fmt( "o%d", i ) ); output.addPort< T >( outs.back() ); }
    }
    virtual raft::kstatus step()
    {
        for( uint64_t b = 1 + q.below( 20 ); b && at < n; b-- )
        {
            if( waits && at + 1 == n && W->mon_todo ) { usleep( 200 ); return raft::proceed; }  /* whoever adds kernels has to do it while this runs */
            output[ outs[ at % w ] ].template push< T >( Val< T >::make( base + at ) );
            at++;
            beat();
            pace();
        }
        if( at < n ) return raft::proceed;
        if( waits && W->mon_todo ) { usleep( 200 ); return raft::proceed; }
        return raft::stop;
    }
};
template < class T > struct Stage : public K
{
    Stage( Rng &r, const std::string &name ) : K( r, name ) { ins = { "i0" }; outs = { "o0" }; input.addPort< T >( "i0" ); output.addPort< T >( "o0" ); }
    virtual raft::kstatus step()
    {
        auto &f( input[ "i0" ] );
        has_data( f );
        for( uint64_t b = 1 + q.below( 10 ); b && f.size(); b-- )
        {
            const int how = (int) q.below( 3 );
            if( how == 0 ) { T t( Val< T >::make( 0 ) ); f.template pop< T >( t ); output[ "o0" ].template push< T >( t ); }
            else if( how == 1 ) { T &t( f.template peek< T >() ); output[ "o0" ].template push< T >( t ); f.unpeek(); f.recycle(); }
            else { T &t( f.template peek< T >() ); auto o( output[ "o0" ].template allocate_s< T >() ); *o = t; f.unpeek(); f.recycle(); }
            beat();
            pace();
        }
        return raft::proceed;
    }
};
template < class T > struct Zip : public K
{
    const int w; const uint64_t n; uint64_t at = 0;
    Zip( Rng &r, const std::string &name, int w, uint64_t n ) : K( r, name ), w( w ), n( n )
    {
        for( int i = 0; i < w; i++ ) { ins.push_back( fmt( "i%d", i ) ); input.addPort< T >( ins.back() ); }
        outs = { "o0" }; output.addPort< T >( "o0" );
    }
    virtual raft::kstatus step()
    {
        while( input[ ins[ at % w ] ].size() )
        {
            T t( Val< T >::make( 0 ) );
            input[ ins[ at % w ] ].template pop< T >( t );
            output[ "o0" ].template push< T >( t );
            at++;
            beat();
            pace();
        }
        return raft::proceed;
    }
};
template < class T > struct Sink : public K
{
    const uint64_t base; uint64_t got = 0;
    Sink( Rng &r, const std::string &name, uint64_t base ) : K( r, name ), base( base ) { ins = { "i0" }; input.addPort< T >( "i0" ); }
    virtual raft::kstatus step()
    {
        auto &f( input[ "i0" ] );
        has_data( f );
        do
        {
            T t( Val< T >::make( 0 ) );
            f.template pop< T >( t );
            VCHECK( Val< T >::is( t, base + got ), "wrong-element", "%s got %s, number %llu was due", name.c_str(), Val< T >::str( t ).c_str(), (unsigned long long) got );
            got++;
            beat();
            pace();
        } while( f.size() && q.chance( 3, 4 ) );
        return raft::proceed;
    }
};
/* no ports at all: run until it says stop */
struct Solo : public K
{
    const uint64_t n;
    Solo( Rng &r, const std::string &name, uint64_t n ) : K( r, name ), n( n ) { W->solo_alive++; }
    virtual ~Solo() { VCHECK( ended, "destroyed-early", "%s is destroyed before it ended", name.c_str() ); W->solo_alive--; }
    virtual raft::kstatus step() { beat(); pace(); return runs < n ? raft::proceed : raft::stop; }
};

/* a small graph: a source, w lines of stages, a kernel that puts them together again, and a sink */
struct Net
{
    raft::map m;
    std::vector< std::unique_ptr< K > > k;
    std::vector< std::function< void() > > after;
    K *source = nullptr; std::string d;
    virtual ~Net() {}
    void links_closed()
    {
        for( auto &x : k ) for( auto &o : x->outs ) VCHECK( FifoOf::get( x->output, o )->is_invalid(), "left-open", "the output %s of %s is open after the end of the run", o.c_str(), x->name.c_str() );
    }
};
template < class T > static std::unique_ptr< Net > net( Rng &r, int no, bool roomy, const char *tname )
{
    std::unique_ptr< Net > x( new Net );
    const int w = r.chance( 1, 2 ) ? 1 : (int) r.range( 2, 4 );
    const uint64_t n = r.chance( 1, 6 ) ? r.below( 3 ) : 1 + r.below( r.chance( 1, 3 ) ? 1500 : 200 ), base = 1000 * ( no + 1 );
    auto add = [ & ]( K *k ) { x->k.emplace_back( k ); return k; };
    auto name = [ & ]( const char *s ) { return fmt( "%s%zu of net %d", s, x->k.size(), no ); };
    auto size = [ & ]() -> size_t { return roomy ? n + 1 + r.below( 3 ) : r.chance( 1, 2 ) ? 0 : 1 + r.below( 12 ); };
    auto *src = new Src< T >( r, name( "source" ), base, n, w );
    src->waits = no == 0;
    x->source = add( src );
    std::vector< K * > ends;
    std::string sh;
    std::vector< std::tuple< K *, std::string, K *, std::string > > links;
    for( int i = 0; i < w; i++ )
    {
        K *at = src; std::string port = fmt( "o%d", i );
        const int s = (int) r.below( w == 1 ? 5 : 3 );
        for( int j = 0; j < s; j++ ) { K *g = add( new Stage< T >( r, name( "stage" ) ) ); links.emplace_back( at, port, g, "i0" ); at = g; port = "o0"; }
        sh += fmt( " %d", s );
        if( i == 0 && w > 1 ) ends.push_back( add( new Zip< T >( r, name( "zip" ), w, n ) ) );
        if( w > 1 ) { links.emplace_back( at, port, ends[ 0 ], fmt( "i%d", i ) ); if( i == w - 1 ) { at = ends[ 0 ]; port = "o0"; } }
        if( i == w - 1 )
        {
            auto *sink = new Sink< T >( r, name( "sink" ), base );
            add( sink );
            links.emplace_back( at, port, sink, "i0" );
            x->after.push_back( [ sink, n ]{ VCHECK( sink->got == n, "elements-lost", "%s got %llu of %llu elements", sink->name.c_str(), (unsigned long long) sink->got, (unsigned long long) n ); count( "elements compared", (long long) n ); } );
        }
    }
    mix_up( r, links );
    for( auto &l : links )
    {
        const size_t b = size();
        if( b ) x->m.link( std::get< 0 >( l ), std::get< 1 >( l ), std::get< 2 >( l ), std::get< 3 >( l ), b );
        else x->m.link( std::get< 0 >( l ), std::get< 1 >( l ), std::get< 2 >( l ), std::get< 3 >( l ) );
    }
    x->d = fmt( "net %d: %llu of %s over %d lines of%s", no, (unsigned long long) n, tname, w, sh.c_str() );
    return x;
}
static std::unique_ptr< Net > any_net( Rng &r, int no, bool roomy )
{
    switch( r.below( 4 ) )
    {
    case 0: return net< uint64_t >( r, no, roomy, "uint64" );
    case 1: return net< std::string >( r, no, roomy, "string" );
    case 2: return net< TBig >( r, no, roomy, "big" );
    default: return net< Pod24 >( r, no, roomy, "pod24" );
    }
}

/* ------------------------------------------------------------ policies of our own */
struct Part : public interface_partition
{
    virtual void partition( kernelkeeper &c )
    {
        W->at( W->part_begin );
        VCHECK( ! W->alloc_made && ! W->sched_made && ! W->first_run, "partition-late", "the partitioner is called after the allocator was made" );
        auto &s( c.acquire() );
        std::set< raft::kernel * > got( s.begin(), s.end() );
        c.release();
        VCHECK( got == W->main_kernels, "partition-kernels", "the partitioner is given %zu kernels, there are %zu, or others", got.size(), W->main_kernels.size() );
        W->at( W->part_end );
    }
};
struct Al : public Allocate
{
    Rng q; World *const w;
    Al( raft::map &m, volatile bool &x ) : Allocate( m, x ), q( mix( W->seed ^ 77 ) ), w( W ) { W->at( W->alloc_made ); VCHECK( ! exit_alloc, "told-to-exit", "the allocator is told to exit before it is made" ); }
    virtual ~Al()
    {
        W->at( W->alloc_gone );
        VCHECK( W->sched_end, "gone-early", "the allocator is destroyed before the scheduler came back" );
    }
    virtual void run()
    {
        W->at( W->alloc_begin );
        if( q.chance( 1, 3 ) ) usleep( q.below( 4000 ) );
        auto &c( source_kernels.acquire() );
        GraphTools::BFS( c, [ & ]( PortInfo &a, PortInfo &b, void * )
        {
            if( a.fixed_buffer_size || q.chance( 1, 3 ) ) { allocate( a, b, nullptr ); return; }
            auto &func_map( a.const_map[ Type::Heap ] );
            auto f( ( *func_map )[ false ] );
            initialize( &a, &b, f( 1 + q.below( 40 ), 16, nullptr ) );
        } );
        source_kernels.release();
        if( q.chance( 1, 3 ) ) usleep( q.below( 4000 ) );
        VCHECK( ! W->sched_begin && ! W->first_run, "scheduled-early", "the scheduler was started before the allocator said that it is ready" );
        W->at( W->alloc_ready );
        setReady();
        if( q.chance( 1, 2 ) )
        {
            while( ! exit_alloc ) usleep( 300 );
            W->at( W->alloc_told );
            VCHECK( W->sched_end, "told-early", "the allocator is told to exit before the scheduler came back" );
        }
        W->at( W->alloc_end );
    }
};
struct Mon
{
    Schedule &s; volatile bool &x; Rng q;
    Mon( raft::map &, Allocate &, Schedule &s, volatile bool &x ) : s( s ), x( x ), q( mix( W->seed ^ 99 ) )
    {
        W->at( W->mon_made );
        VCHECK( W->sched == nullptr || W->sched == &s, "wrong-scheduler", "the monitor is given another scheduler" );
        VCHECK( ! x, "told-to-exit", "the monitor is told to exit before it is made" );
    }
    ~Mon() { W->at( W->mon_gone ); VCHECK( W->mon_end, "gone-early", "the monitor is destroyed before it came back" ); }
    void start()
    {
        W->at( W->mon_begin );
        if( q.chance( 1, 2 ) ) usleep( q.below( 3000 ) );
        for( auto *k : W->mon_adds ) { s.scheduleKernel( k ); W->added++; if( q.chance( 1, 3 ) ) usleep( q.below( 500 ) ); }
        W->mon_todo = false;
        while( ! x ) usleep( 300 );
        W->at( W->mon_told );
        VCHECK( W->sched_end || W->nosched, "told-early", "the monitor is told to exit before the scheduler came back" );
        W->at( W->mon_end );
    }
};
template < class B > struct Watched : public B
{
    Watched( raft::map &m ) : B( m )
    {
        W->at( W->sched_made );
        VCHECK( W->alloc_ready || W->noalloc, "scheduled-early", "the scheduler is made before the allocator said that it is ready" );
        W->sched = this;
    }
    virtual ~Watched() { W->at( W->sched_gone ); VCHECK( ! W->alloc_gone, "gone-early", "the allocator is destroyed before the scheduler" ); }
    virtual void init() { W->at( W->sched_init ); VCHECK( ! W->sched_begin, "init-late", "the scheduler is started before it is initialised" ); B::init(); }
    virtual void start()
    {
        VCHECK( W->sched_init, "init-late", "the scheduler is started before it is initialised" );
        W->at( W->sched_begin );
        B::start();
        for( auto *x : W->all )
        {
            auto *k = static_cast< K * >( x );
            VCHECK( ! k->inside, "returned-early", "the scheduler came back while %s is run", k->name.c_str() );
            VCHECK( k->runs > 0 || ! k->ins.empty(), "never-run", "%s was never run", k->name.c_str() );
            VCHECK( ! k->ins.empty() || k->ended, "returned-early", "the scheduler came back before %s ended", k->name.c_str() );
            for( auto &i : k->ins ) VCHECK( FifoOf::get( k->input, i )->size() == 0, "returned-early", "the scheduler came back with data left at %s of %s", i.c_str(), k->name.c_str() );
            for( auto &o : k->outs ) VCHECK( FifoOf::get( k->output, o )->is_invalid(), "left-open", "the output %s of %s is open after its end", o.c_str(), k->name.c_str() );
        }
        auto same = [ & ]( kernelkeeper &c, std::set< raft::kernel * > want, const char *what )
        {
            auto &s( c.acquire() );
            std::set< raft::kernel * > got( s.begin(), s.end() );
            c.release();
            VCHECK( got == want, "kernel-sets", "the scheduler has %zu %s, there are %zu, or others", got.size(), what, want.size() );
        };
        same( B::kernel_set, W->all, "kernels" );
        same( B::source_kernels, W->sources, "sources" );
        same( B::dst_kernels, W->sinks, "sinks" );
        same( B::internally_created_kernels, W->made, "kernels of its own" );
        W->at( W->sched_end );
    }
};
/* a few threads that take turns at all the kernels, one call at a time, with the steps that a scheduler is given */
struct Pool : public Schedule
{
    struct Ent { raft::kernel *k; bool fin = false; ptr_map_t in; ptr_set_t out, peek; };
    std::mutex m; std::deque< Ent * > todo; std::vector< std::unique_ptr< Ent > > own; size_t left = 0; std::atomic< long > idle{ 0 };
    Rng q;
    Pool( raft::map &x ) : Schedule( x ), q( mix( W->seed ^ 55 ) ) {}
    virtual void handleSchedule( raft::kernel *const k )
    {
        std::unique_ptr< Ent > e( new Ent );
        e->k = k;
        std::lock_guard< std::mutex > g( m );
        for( auto &o : own ) if( o->k == k ) return;        /* was handed over before the start */
        Schedule::setPtrSets( k, &e->in, &e->out, &e->peek );
        left++;
        if( q.chance( 1, 2 ) ) todo.push_back( e.get() ); else todo.push_front( e.get() );
        own.push_back( std::move( e ) );
    }
    void work( uint64_t seed )
    {
        Rng z( seed );
        for( ;; )
        {
            Ent *e = nullptr;
            {
                std::lock_guard< std::mutex > g( m );
                if( left == 0 ) return;
                if( ! todo.empty() )
                {
                    if( z.chance( 1, 5 ) ) { e = todo.back(); todo.pop_back(); } else { e = todo.front(); todo.pop_front(); }
                }
            }
            if( ! e ) { sched_yield(); continue; }
            bool ran = false;
            volatile bool fin = false;
            for( uint64_t b = 1 + z.below( 4 ); b && ! fin; b-- )
            {
                const auto before = static_cast< K * >( e->k )->runs.load();
                const bool says = Schedule::kernelRun( e->k, fin );
                const auto runs = static_cast< K * >( e->k )->runs.load() - before;
                VCHECK( runs <= 1 && says == ( runs == 1 ), "kernel-run", "a step of the scheduler ran %s %llu times and says %d", static_cast< K * >( e->k )->name.c_str(), (unsigned long long) runs, says );
                if( says ) ran = true;
                Schedule::fifo_gc( &e->in, &e->out, &e->peek );
            }
            if( ! ran ) { idle++; if( z.chance( 1, 8 ) ) usleep( 100 ); }
            std::lock_guard< std::mutex > g( m );
            if( fin ) { left--; interleaving( hcomb( hstr( static_cast< K * >( e->k )->name ), (uint64_t) idle ) ); }
            else todo.push_back( e );
        }
    }
    virtual void start()
    {
        auto &c( kernel_set.acquire() );
        for( auto *k : c ) handleSchedule( k );
        kernel_set.release();
        std::vector< std::thread > t;
        for( int i = 0; i < W->workers; i++ ) t.emplace_back( [ this, i ]{ work( mix( W->seed + 100 + (uint64_t) i ) ); } );
        for( auto &x : t ) x.join();
    }
};

/* ------------------------------------------------------------ a case */
static void one( Rng &r )
{
    World w; W = &w;
    w.seed = r.next();
    const int kind = (int) r.below( 8 );
    const bool pool = kind >= 5;
    if( pool ) w.workers = (int) r.range( 1, 5 );
    w.nosched = kind == 3; w.noalloc = kind == 1 || kind == 2 || kind == 3 || kind == 6; w.nomon = kind == 2 || kind == 4 || kind == 6 || kind == 7;
    const bool grows = kind == 1 || kind == 3;      /* the run's allocator looks after all that the scheduler knows */
    std::unique_ptr< Net > main_net( any_net( r, 0, pool ) );
    std::string d = fmt( "policies %d, %d workers; ", kind, w.workers ) + main_net->d;
    auto known = [ & ]( Net &x )
    {
        for( auto &k : x.k )
        {
            w.all.insert( k.get() );
            if( k->ins.empty() ) w.sources.insert( k.get() );
            if( k->outs.empty() ) w.sinks.insert( k.get() );
        }
    };
    known( *main_net );
    w.main_kernels = w.all;
    /* what is added while it runs */
    std::vector< std::unique_ptr< Net > > more;
    struct Prep { volatile bool exit = false; std::unique_ptr< Allocate > al; std::thread t; };
    std::vector< std::unique_ptr< Prep > > preps;
    std::vector< std::unique_ptr< Solo > > solos;
    const int extra = (int) r.below( 4 ), nsolo = (int) r.below( 3 );
    std::vector< std::pair< std::vector< raft::kernel * >, K * > > groups;      /* to be added together, and the first of them */
    for( int i = 1; i <= extra; i++ )
    {
        more.push_back( any_net( r, i, pool ) );
        auto &x( *more.back() );
        known( x );
        d += "; " + x.d;
        preps.emplace_back( new Prep );
        auto &p( *preps.back() );
        if( ! grows && ! pool && r.chance( 1, 2 ) ) { p.al.reset( new dynalloc( x.m, p.exit ) ); d += " growing"; }
        else p.al.reset( new stdalloc( x.m, p.exit ) );
        p.t = std::thread( [ &p ]{ p.al->run(); } );
        p.al->waitTillReady();
        std::vector< raft::kernel * > v;
        for( auto &k : x.k ) v.push_back( k.get() );
        mix_up( r, v );
        groups.emplace_back( v, x.source );
    }
    for( int i = 0; i < nsolo; i++ )
    {
        const uint64_t n = 1 + r.below( 30 );
        struct Grab : public raft::kernel_wrapper { Grab( const raft::kernel_wrapper &o ) : raft::kernel_wrapper( o ) {} raft::kernel *take() { return **this; } };
        K *k;
        if( r.chance( 1, 2 ) )
        {
            Grab g( raft::kernel::make< Solo >( r, fmt( "made loner %d", i ), n ) );
            k = static_cast< K * >( g.take() );
            w.made.insert( k );
        }
        else { solos.emplace_back( new Solo( r, fmt( "loner %d", i ), n ) ); k = solos.back().get(); }
        w.all.insert( k ); w.sources.insert( k ); w.sinks.insert( k );
        d += fmt( "; %s, %llu runs", k->name.c_str(), (unsigned long long) n );
        groups.emplace_back( std::vector< raft::kernel * >{ k }, k );
    }
    mix_up( r, groups );
    std::vector< K * > hosts{ main_net->source };       /* those that are sure to be run */
    int due = 0;
    for( auto &g : groups )
    {
        due += (int) g.first.size();
        const bool by_mon = ! w.nomon && ( w.nosched || r.chance( 1, 3 ) );
        if( by_mon ) { w.mon_adds.insert( g.first.begin(), g.first.end() ); w.mon_todo = true; d += " [monitor]"; }
        else
        {
            K *h = hosts[ r.below( hosts.size() ) ];
            h->adds.insert( h->adds.end(), g.first.begin(), g.first.end() );
            h->add_when = (int) r.below( 6 );
            d += " [" + h->name + "]";
            hosts.push_back( g.second );
        }
    }
    describe( d );
#ifdef VH_CHAOS
    const int rates[] = { 0, 400, 100, 40 };
    vh_chaos_seed = r.next();
    vh_chaos_rate = rates[ r.below( 4 ) ];
#endif
    std::thread t( [ & ]
    {
        auto &m( main_net->m );
        switch( kind )
        {
        case 0: m.exe< Part, Watched< simple_schedule >, Al, Mon >(); break;
        case 1: m.exe< Part, Watched< simple_schedule >, dynalloc, Mon >(); break;
        case 2: m.exe< Part, Watched< simple_schedule >, stdalloc, no_parallel >(); break;
        case 3: m.exe< partition_dummy, simple_schedule, dynalloc, Mon >(); break;
        case 4: m.exe< partition_basic, Watched< simple_schedule >, Al, basic_parallel >(); break;
        case 5: m.exe< Part, Watched< Pool >, Al, Mon >(); break;
        case 6: m.exe< partition_dummy, Watched< Pool >, stdalloc, basic_parallel >(); break;
        case 7: m.exe< Part, Watched< Pool >, Al, no_parallel >(); break;
        }
        W->at( W->returned );
    } );
    t.join();
#ifdef VH_CHAOS
    vh_chaos_rate = 0;
    ctx().cnt[ "delays" ] = (long long) vh_chaos_delays.load();
#endif
    if( r.chance( 1, 10 ) ) usleep( 2000 );     /* a run that comes too late has its time */
    for( auto &f : main_net->after ) f();
    for( auto &x : more ) { for( auto &f : x->after ) f(); x->links_closed(); }
    for( auto *x : w.all )
    {
        auto *k = static_cast< K * >( x );
        VCHECK( ! k->inside && ( ! k->ins.empty() || k->ended ), "returned-early", "the run returned before %s ended", k->name.c_str() );
    }
    VCHECK( w.added == due, "harness", "%ld of %d kernels were added", (long) w.added, due );
    if( kind != 3 && kind != 4 && kind != 6 ) VCHECK( w.part_end, "policy-unused", "the partitioner was not called" );
    if( ! w.noalloc ) VCHECK( w.alloc_end && w.alloc_gone, "policy-unused", "the allocator has not come back, or was not destroyed" );
    if( ! w.nosched ) VCHECK( w.sched_end && w.sched_gone, "policy-unused", "the scheduler has not come back, or was not destroyed" );
    if( ! w.nomon ) VCHECK( w.mon_end && w.mon_gone, "policy-unused", "the monitor has not come back, or was not destroyed" );
    for( auto &p : preps ) { p->exit = true; p->t.join(); p->al.reset(); }
    const size_t made = w.made.size();
    VCHECK( w.solo_alive == (long) ( made + solos.size() ), "destroyed-early", "%ld loners are alive, %zu are due", (long) w.solo_alive, made + solos.size() );
    main_net.reset();
    VCHECK( w.solo_alive == (long) solos.size(), "kernels-destroyed", "%ld loners are alive after their map was destroyed, %zu are due", (long) w.solo_alive, solos.size() );
    solos.clear(); more.clear();
    VCHECK( live().alive() == 0, "object-leaked", "%lld element objects are alive after the end of the graph", live().alive() );
    count( "kernels added to a running graph", due );
    count( "runs of kernels", w.runs );
    static const char *names[] = { "all our own", "our own but the allocator", "our own partitioner and scheduler", "our own monitor", "our own scheduler and allocator", "all our own, pool", "our own pool", "our own but the monitor, pool" };
    count( names[ kind ] );
    interleaving( hcomb( hcomb( w.first_run, w.mon_begin ), hcomb( w.runs, w.sched_end ) ) );
    if( w.runs > 5 ) distinct( hstr( d ) );
    sample( d );
    W = nullptr;
}
int main( int argc, char **argv ) { return run( argc, argv, []( long long, Rng &r ) { one( r ); } ); }
