/* topo - topology expressions. Random programs of += statements and links are
 * evaluated by the library and, independently, by the reference below; the two
 * graphs are compared kernel by kernel and link by link, then (in part) run with
 * items that record the path they took. Further: what += returns, ownership of
 * kernels, rejected links, traversals, dot output, port containers.
 * --mode expr|trav|errors|ports|own (default: a mix) */
#include <cassert>
#include <algorithm>
#include <list>
#include <memory>
#include <variant>
#include "fifo_common.hpp"
#include <fstream>
#include <unistd.h>
#include "graphtools.hpp"
using namespace vh;
#ifdef VH_CHAOS
extern "C" { extern std::atomic< int > vh_chaos_rate; extern std::atomic< unsigned long long > vh_chaos_seed, vh_chaos_points, vh_chaos_delays; }
#endif

/* ---------------------------------------------------------------- kernels */
struct Spec { int label; std::vector< std::string > in, out; };
struct TK;
struct World            /* what exists in one case */
{
    std::mutex m;
    std::set< TK * > alive;
    std::atomic< int > runs{ 0 };
    std::atomic< int > destroyed{ 0 };
    int tokens = 1;
    std::map< std::string, int > got;      /* paths seen at the sinks */
};
enum Owner { USER, MADE, CLONED };
static World *W;
static bool g_kill_ok = true;          /* false while the map must not destroy anything */

struct TK : public raft::kernel
{
    std::shared_ptr< Spec > sp;
    Owner owner;
    int left;
    bool sink_here = false;
    uint64_t magic = 0x1234567887654321ull;
    void init()
    {
        for( auto &n : sp->in ) input.addPort< std::string >( n );
        for( auto &n : sp->out ) output.addPort< std::string >( n );
        left = W->tokens;
        std::lock_guard< std::mutex > g( W->m );
        W->alive.insert( this );
    }
    TK( std::shared_ptr< Spec > s, Owner o ) : raft::kernel(), sp( s ), owner( o ) { init(); }
    /* a kernel that could have in-place ports */
    TK( std::shared_ptr< Spec > s, Owner o, void *mem, size_t n ) : raft::kernel( mem, n ), sp( s ), owner( o ) { init(); }
    TK( const TK &o ) : raft::kernel(), sp( o.sp ), owner( CLONED ) { o.check( "clone of" ); init(); }
    void check( const char *what ) const
    {
        VCHECK( magic == 0x1234567887654321ull, "dead-kernel-used", "%s a kernel that does not exist any more", what );
    }
    virtual ~TK()
    {
        check( "destructor of" );
        magic = 0;
        W->destroyed++;
        std::lock_guard< std::mutex > g( W->m );
        VCHECK( W->alive.erase( this ), "kernel-destroyed-twice", "kernel %d is not alive", sp->label );
        VCHECK( owner == USER || g_kill_ok, "kernel-destroyed-early", "kernel %d is destroyed while its map is there", sp->label );
    }
    CLONE()
    virtual raft::kstatus run()
    {
        W->runs++;
        check( "run of" );
        if( sp->in.empty() )
        {
            if( left-- <= 0 ) return raft::stop;
            for( auto &o : sp->out )
                output[ o ].push( fmt( "%d.%d.%s", sp->label, W->tokens - left - 1, o.c_str() ), left == 0 && sp->out.size() == 1 ? raft::none : raft::none );
            return left <= 0 ? raft::stop : raft::proceed;
        }
        for( auto &i : sp->in )
        {
            auto &f( input[ i ] );
            while( f.size() > 0 )
            {
                std::string t;
                f.pop( t );
                if( sp->out.empty() )
                {
                    t += fmt( ">%s.%d", i.c_str(), sp->label );
                    std::lock_guard< std::mutex > g( W->m );
                    W->got[ t ]++;
                }
                else
                    for( auto &o : sp->out ) output[ o ].push( t + fmt( ">%s.%d.%s", i.c_str(), sp->label, o.c_str() ) );
            }
        }
        return raft::proceed;
    }
};

/* -------------------------------------------------------------- reference */
struct RN
{
    std::shared_ptr< Spec > sp;
    TK *real = nullptr;
    bool original = false;
    int id = 0;
    struct L { int other = -1; std::string name; bool ooo = false; size_t size = 0; };
    std::map< std::string, L > in, out;
};
struct Ref
{
    std::vector< std::unique_ptr< RN > > n;
    RN *add( std::shared_ptr< Spec > sp, TK *real )
    {
        auto x = std::make_unique< RN >();
        x->sp = sp; x->real = real; x->original = real != nullptr; x->id = (int) n.size();
        for( auto &p : sp->in ) x->in[ p ];
        for( auto &p : sp->out ) x->out[ p ];
        n.push_back( std::move( x ) );
        return n.back().get();
    }
    void link( RN *a, const std::string &ap, RN *b, const std::string &bp, bool ooo, size_t size = 0 )
    {
        const auto an = ap.empty() ? a->sp->out.at( 0 ) : ap, bn = bp.empty() ? b->sp->in.at( 0 ) : bp;
        auto &x( a->out.at( an ) ); auto &y( b->in.at( bn ) );
        if( x.other >= 0 || y.other >= 0 ) { fprintf( stderr, "reference: port used twice\n" ); abort(); }
        x = { b->id, bn, ooo, size }; y = { a->id, an, ooo, size };
    }
};

/* ------------------------------------------------------------- expression */
enum Op { CHAIN, SPLIT, JOIN };
struct Leaf
{
    int label = 0;
    std::shared_ptr< Spec > sp;
    TK *tk = nullptr;              /* the user's, or null: made in the expression */
    RN *rn = nullptr;
    bool wrap = false;
    std::string in, out;           /* names given with [] */
    bool give_in = false, give_out = false;
    bool reused = false;
};
struct Expr
{
    std::vector< Leaf > k;
    std::vector< Op > op;          /* op[i] between k[i] and k[i+1] */
    std::vector< bool > ooo;
};
struct Node;
using Val1 = std::variant< raft::kernel *, std::unique_ptr< raft::kernel_wrapper >, kpair * >;

static Val1 leafval( Leaf &l )
{
    if( l.wrap )
    {
        struct Grab : public raft::kernel_wrapper { Grab( const raft::kernel_wrapper &o ) : raft::kernel_wrapper( o ) {} raft::kernel *get() { return k; } };
        auto w = std::make_unique< Grab >( raft::kernel::make< TK >( l.sp, MADE ) );
        l.tk = static_cast< TK * >( w->get() );
        return std::unique_ptr< raft::kernel_wrapper >( std::move( w ) );
    }
    raft::kernel *k = l.tk;
    if( l.give_in ) { auto &kk( (*k)[ l.in ] ); VCHECK( &kk == k, "wrong-kernel", "operator[] gave another kernel" ); }
    if( l.give_out ) { auto &kk( (*k)[ l.out ] ); VCHECK( &kk == k, "wrong-kernel", "operator[] gave another kernel" ); }
    return k;
}
static kpair *apply( Op op, bool ooo, Val1 &a, Val1 &b )
{
    auto K = []( Val1 &v ) -> raft::kernel & { return *std::get< 0 >( v ); };
    auto Wr = []( Val1 &v ) -> raft::kernel_wrapper && { return std::move( *std::get< 1 >( v ) ); };
    auto P = []( Val1 &v ) -> kpair & { return *std::get< 2 >( v ); };
    const int i = (int) a.index() * 3 + (int) b.index();
    if( op == CHAIN && ooo )
        switch( i )
        {
            case 0: return &( K( a ) >> raft::order::out >> K( b ) );
            case 1: return &( K( a ) >> raft::order::out >> Wr( b ) );
            case 6: return &( P( a ) >> raft::order::out >> K( b ) );
            case 7: return &( P( a ) >> raft::order::out >> Wr( b ) );
        }
    else if( op == CHAIN )
        switch( i )
        {
            case 0: return &( K( a ) >> K( b ) );
            case 1: return &( K( a ) >> Wr( b ) );
            case 4: return &( Wr( a ) >> Wr( b ) );
            case 6: return &( P( a ) >> K( b ) );
            case 7: return &( P( a ) >> Wr( b ) );
        }
    else if( op == SPLIT )
        switch( i )
        {
            case 0: return &( K( a ) <= K( b ) );
            case 2: return &( K( a ) <= P( b ) );
            case 4: return &( Wr( a ) <= Wr( b ) );
            case 5: return &( Wr( a ) <= P( b ) );
        }
    else
        switch( i )
        {
            case 0: return &( K( a ) >= K( b ) );
            case 2: return &( K( a ) >= P( b ) );
            case 4: return &( Wr( a ) >= Wr( b ) );
            case 5: return &( Wr( a ) >= P( b ) );
            case 6: return &( P( a ) >= K( b ) );
            case 7: return &( P( a ) >= Wr( b ) );
            case 8: return &( P( a ) >= P( b ) );
        }
    fprintf( stderr, "no such operator %d/%d\n", (int) op, i );
    abort();
}
/* the parse: how the flat sequence is put into parentheses */
struct AST { int leaf = -1; int op = -1; std::unique_ptr< AST > l, r; };
using ASTp = std::unique_ptr< AST >;
static ASTp leaf( int i ) { auto a = std::make_unique< AST >(); a->leaf = i; return a; }
static ASTp node( int op, ASTp l, ASTp r ) { auto a = std::make_unique< AST >(); a->op = op; a->l = std::move( l ); a->r = std::move( r ); return a; }
static ASTp parse( const Expr &e, int i, int j, Rng &r )
{
    ASTp cur = leaf( i );
    int pos = i;
    while( pos < j )
    {
        const Op o = e.op[ pos ];
        if( o == CHAIN ) { cur = node( pos, std::move( cur ), leaf( pos + 1 ) ); pos++; continue; }
        std::vector< int > ends;
        for( int m = pos + 1; m <= j; m++ ) if( m == j || e.op[ m ] != SPLIT ) ends.push_back( m );
        /* C++ precedence: >> first; the shortest or any longer end is legal in parentheses */
        const int m = r.pick( ends );
        cur = node( pos, std::move( cur ), parse( e, pos + 1, m, r ) );
        pos = m;
    }
    return cur;
}
static bool is_leaf( const ASTp &a ) { return a->leaf >= 0; }
static int first_leaf( const AST *a ) { while( a->leaf < 0 ) a = a->l.get(); return a->leaf; }
static std::string show( const AST *a, const Expr &e )
{
    if( a->leaf >= 0 )
    {
        auto &l( e.k[ a->leaf ] );
        std::string s = fmt( l.wrap ? "make(%d)" : "%d", l.label );
        if( l.give_in ) s += "[" + l.in + "]";
        if( l.give_out ) s += "[" + l.out + "]";
        return s + fmt( "{%zu:%zu%s}", l.sp->in.size(), l.sp->out.size(), l.reused ? "!" : "" );
    }
    const char *o[] = { " >> ", " <= ", " >= " };
    return "(" + show( a->l.get(), e ) + ( e.ooo[ a->op ] ? " >> out" : "" ) + o[ e.op[ a->op ] ] + show( a->r.get(), e ) + ")";
}
static void wraps( const AST *a, Expr &e, Rng &r, bool allow )
{
    if( a->leaf >= 0 ) return;
    const Op o = e.op[ a->op ];
    auto can = [ & ]( const AST *x ) { return x->leaf >= 0 && ! e.k[ x->leaf ].reused && ! e.k[ x->leaf ].give_in && ! e.k[ x->leaf ].give_out; };
    const bool L = can( a->l.get() ), R = can( a->r.get() );
    const bool ll = is_leaf( a->l ), rl = is_leaf( a->r ), ooo = e.ooo[ a->op ];
    if( allow && r.chance( 1, 2 ) )
    {
        if( ll && rl )
        {
            if( ! ooo && L && R && r.chance( 1, 2 ) ) e.k[ a->l->leaf ].wrap = e.k[ a->r->leaf ].wrap = true;
            else if( o == CHAIN && R ) e.k[ a->r->leaf ].wrap = true;
        }
        else if( ll ) { if( L && o != CHAIN ) e.k[ a->l->leaf ].wrap = true; }
        else if( rl ) { if( R && o != SPLIT ) e.k[ a->r->leaf ].wrap = true; }
    }
    wraps( a->l.get(), e, r, allow ); wraps( a->r.get(), e, r, allow );
}
static Val1 eval( const AST *a, Expr &e )
{
    if( a->leaf >= 0 ) return leafval( e.k[ a->leaf ] );
    Val1 l = eval( a->l.get(), e );
    Val1 r = eval( a->r.get(), e );
    return apply( e.op[ a->op ], e.ooo[ a->op ], l, r );
}

/* ------------------------------------------------------------------- case */
struct Case
{
    World w;
    Rng &r;
    Ref ref;
    std::unique_ptr< raft::map > m{ new raft::map };
    std::vector< std::unique_ptr< TK > > user;
    int labels = 0;
    std::string text;
    std::map< TK *, RN * > of;         /* isomorphism */
    bool allow_wrap;
    Case( Rng &r ) : r( r ) { W = &w; allow_wrap = r.chance( 2, 3 ); w.tokens = (int) r.range( 1, 3 ); }

    std::shared_ptr< Spec > spec( size_t ni, size_t no )
    {
        auto s = std::make_shared< Spec >();
        s->label = labels++;
        const int style = (int) r.below( 3 );
        auto nm = [ & ]( std::vector< std::string > &v, size_t n, char c )
        {
            std::set< std::string > used;
            while( v.size() < n )
            {
                std::string x = style == 0 ? std::to_string( v.size() ) : style == 1 ? fmt( "%c%d", c, (int) r.below( 50 ) ) : fmt( "%c%s%d", (int) r.range( 'A', 'z' ) == '\\' ? 'q' : c, r.chance( 1, 2 ) ? "port" : "", (int) r.below( 200 ) );
                if( used.insert( x ).second ) v.push_back( x );
            }
        };
        nm( s->in, ni, 'i' ); nm( s->out, no, 'o' );
        return s;
    }
    TK *make_user( std::shared_ptr< Spec > s )
    {
        static char mem[ 64 ];
        user.emplace_back( s->label % 4 == 1 ? new TK( s, USER, mem, sizeof( mem ) ) : new TK( s, USER ) );
        return user.back().get();
    }

    static std::vector< std::string > sorted( std::vector< std::string > v ) { std::sort( v.begin(), v.end() ); return v; }

    /* what the expression defines */
    struct Result { std::vector< RN * > src, dst; };
    Result reference( Expr &e )
    {
        using G = std::vector< std::vector< RN * > >;
        for( auto &l : e.k ) if( ! l.rn ) { l.rn = ref.add( l.sp, l.tk ); of[ l.tk ] = l.rn; }
        auto clone = [ & ]( Leaf &l ) { return ref.add( l.sp, nullptr ); };
        Result res;
        G g{ { e.k[ 0 ].rn } };
        std::vector< std::vector< size_t > > shapes;
        res.src = { e.k[ 0 ].rn };
        for( size_t i = 0; i < e.op.size(); i++ )
        {
            Leaf &a( e.k[ i ] ), &b( e.k[ i + 1 ] );
            const std::string ao = a.give_out ? a.out : "", bi = b.give_in ? b.in : "";
            bool used = false;
            auto next = [ & ]{ RN *x = used ? clone( b ) : b.rn; used = true; return x; };
            G ng;
            if( e.op[ i ] == CHAIN )
                for( auto &x : g )
                {
                    ng.emplace_back();
                    for( RN *k : x ) { RN *d = next(); ref.link( k, ao, d, bi, e.ooo[ i ] ); ng.back().push_back( d ); }
                }
            else if( e.op[ i ] == SPLIT )
            {
                shapes.emplace_back();
                for( auto &x : g )
                {
                    shapes.back().push_back( x.size() );
                    for( RN *k : x )
                    {
                        ng.emplace_back();
                        for( auto &p : sorted( k->sp->out ) ) { RN *d = next(); ref.link( k, p, d, bi, false ); ng.back().push_back( d ); }
                    }
                }
            }
            else if( ! shapes.empty() )
            {
                std::vector< RN * > joined;
                for( auto &x : g )
                {
                    RN *d = next();
                    size_t j = 0;
                    for( auto &p : sorted( d->sp->in ) ) ref.link( x.at( j++ ), ao, d, p, false );
                    joined.push_back( d );
                }
                size_t j = 0;
                for( auto n : shapes.back() ) { ng.emplace_back(); for( size_t q = 0; q < n; q++ ) ng.back().push_back( joined.at( j++ ) ); }
                shapes.pop_back();
            }
            else
            {
                /* every further input gets a copy of the chain so far */
                size_t j = 0;
                for( auto &p : sorted( b.rn->sp->in ) )
                {
                    RN *prev = nullptr;
                    if( j++ == 0 ) prev = g[ 0 ][ 0 ];
                    else
                        for( size_t q = 0; q <= i; q++ )
                        {
                            RN *x = clone( e.k[ q ] );
                            if( q == 0 ) res.src.push_back( x );
                            else ref.link( prev, e.k[ q - 1 ].give_out ? e.k[ q - 1 ].out : "", x, e.k[ q ].give_in ? e.k[ q ].in : "", e.ooo[ q - 1 ] );
                            prev = x;
                        }
                    ref.link( prev, ao, b.rn, p, false );
                }
                ng = { { b.rn } };
            }
            g = ng;
        }
        for( auto &x : g ) for( RN *k : x ) res.dst.push_back( k );
        return res;
    }

    /* a random expression; head / tail: existing kernels to use there (or null) */
    bool generate( Expr &e, ASTp &ast, RN *head, const std::string &hport, RN *tail, const std::string &tport )
    {
        const int n = (int) r.range( 2, 8 );
        std::vector< size_t > stack;
        bool dup = false, pure = true;
        size_t width = 1, total = 1;
        std::vector< size_t > ins( n, 1 ), outs( n, 0 );
        for( int i = 0; i + 1 < n; i++ )
        {
            const bool split_ok = i == 0 || e.op[ i - 1 ] != CHAIN;
            std::vector< Op > can{ CHAIN };
            if( split_ok && width <= 6 ) { can.push_back( SPLIT ); can.push_back( SPLIT ); }
            if( ! stack.empty() ) { can.push_back( JOIN ); can.push_back( JOIN ); }
            if( stack.empty() && pure && ! dup ) can.push_back( JOIN );
            Op o = r.pick( can );
            if( ( i == 0 && head && o == SPLIT ) || ( i + 2 == n && tail && o == JOIN ) ) o = CHAIN;
            e.op.push_back( o );
            e.ooo.push_back( o == CHAIN && r.chance( 1, 6 ) );
            if( o == SPLIT )
            {
                outs[ i ] = (size_t) r.range( 1, 4 );
                stack.push_back( outs[ i ] );
                width *= outs[ i ]; pure = false;
            }
            else if( o == JOIN && ! stack.empty() ) { ins[ i + 1 ] = stack.back(); width /= stack.back(); stack.pop_back(); }
            else if( o == JOIN ) { ins[ i + 1 ] = (size_t) r.range( 1, 4 ); total += ins[ i + 1 ] * i; dup = true; pure = false; }
            total += width;
            if( total > 90 ) return false;
        }
        /* nobody can tell which copy of a chain is meant if it holds an existing kernel twice */
        ast = parse( e, 0, n - 1, r );
        e.k.resize( n );
        std::vector< char > subhead( n, 0 );
        std::function< void( const AST * ) > walk = [ & ]( const AST *a )
        {
            if( a->leaf >= 0 ) return;
            if( ! is_leaf( a->r ) ) subhead[ first_leaf( a->r.get() ) ] = 1;
            walk( a->l.get() ); walk( a->r.get() );
        };
        walk( ast.get() );
        for( int i = 0; i < n; i++ )
        {
            Leaf &l( e.k[ i ] );
            RN *ex = i == 0 ? head : i == n - 1 ? tail : nullptr;
            const bool in_all = i > 0 && e.op[ i - 1 ] == JOIN;
            const bool out_all = i + 1 < n && e.op[ i ] == SPLIT;
            size_t ni = i == 0 ? r.below( 3 ) : in_all ? ins[ i ] : subhead[ i ] || r.chance( 2, 3 ) ? 1 : (size_t) r.range( 2, 3 );
            size_t no = i == n - 1 ? r.below( 4 ) : out_all ? outs[ i ] : r.chance( 2, 3 ) ? 1 : (size_t) r.range( 2, 3 );
            if( i == 0 && ni == 0 && no == 0 ) no = 1;
            l.reused = ex != nullptr;
            l.sp = ex ? ex->sp : spec( ni, no );
            l.label = l.sp->label;
            l.rn = ex; l.tk = ex ? ex->real : nullptr;
            const bool need_in = i > 0 && ! in_all && l.sp->in.size() > 1, need_out = i + 1 < n && ! out_all && l.sp->out.size() > 1;
            l.in = i > 0 ? ( ex && i == n - 1 ? tport : r.pick( l.sp->in ) ) : "";
            l.out = i + 1 < n ? ( ex && i == 0 ? hport : r.pick( l.sp->out ) ) : "";
            l.give_out = need_out || ( i + 1 < n && ! out_all && r.chance( 1, 4 ) );
            l.give_in = need_in || ( i > 0 && ( l.give_out || r.chance( 1, 4 ) ) );
            if( subhead[ i ] ) { l.give_in = false; if( need_in ) return false; }
            if( i == 0 ) l.give_in = false;
            if( in_all && ! l.give_out ) l.give_in = false;
            if( out_all ) l.give_out = false;
            if( subhead[ i ] && out_all ) l.give_out = l.give_in = false;
        }
        wraps( ast.get(), e, r, allow_wrap );
        for( auto &l : e.k ) if( ! l.reused && ! l.wrap ) l.tk = make_user( l.sp );
        return true;
    }

    /* -------- the library's graph, as it shows itself */
    struct AE { TK *a; std::string ap; TK *b; std::string bp; bool ooo, ooo2; size_t size, size2; };
    std::vector< AE > edges_from( std::set< raft::kernel * > from )
    {
        std::vector< AE > v;
        GraphTools::BFS( from, (edge_func) [ & ]( PortInfo &a, PortInfo &b, void *d )
        {
            VCHECK( d == (void *) &v, "wrong-data", "a traversal passed on another pointer than it got" );
            auto *x = dynamic_cast< TK * >( a.my_kernel ), *y = dynamic_cast< TK * >( b.my_kernel );
            VCHECK( x && y, "wrong-kernel", "an unknown kernel is in the graph" );
            VCHECK( a.other_kernel == b.my_kernel && b.other_kernel == a.my_kernel && a.other_name == b.my_name && b.other_name == a.my_name,
                    "inconsistent-link", "the ends of the link %d.%s - %d.%s do not name each other", x->sp->label, a.my_name.c_str(), y->sp->label, b.my_name.c_str() );
            v.push_back( { x, a.my_name, y, b.my_name, a.out_of_order, b.out_of_order, a.fixed_buffer_size, b.fixed_buffer_size } );
        }, &v );
        return v;
    }
    void compare()
    {
        std::set< raft::kernel * > all;
        { std::lock_guard< std::mutex > g( w.m ); for( auto *k : w.alive ) all.insert( k ); }
        auto ev = edges_from( all );
        std::map< std::pair< TK *, std::string >, AE > out;
        for( auto &x : ev )
            VCHECK( out.emplace( std::make_pair( x.a, x.ap ), x ).second, "link-visited-twice", "the traversal gave the link from %d.%s twice", x.a->sp->label, x.ap.c_str() );
        /* which kernel is which: from the originals along the links */
        std::vector< RN * > todo;
        for( auto &n : ref.n ) if( n->real ) todo.push_back( n.get() );
        std::map< std::pair< TK *, std::string >, AE > in;
        for( auto &x : ev ) in.emplace( std::make_pair( x.b, x.bp ), x );
        auto same = [ & ]( RN *n, TK *k, const char *how, RN *at, const std::string &port )
        {
            VCHECK( k->sp->label == n->sp->label, "wrong-link", "port %s of kernel %d is linked to kernel %d, not %d", port.c_str(), at->sp->label, k->sp->label, n->sp->label );
            auto it = of.find( k );
            if( it != of.end() ) VCHECK( it->second == n, "wrong-link", "port %s of kernel %d is linked to another copy of kernel %d than the expression says", port.c_str(), at->sp->label, k->sp->label );
            else
            {
                VCHECK( ! n->real, "wrong-link", "port %s of kernel %d is linked to another copy of kernel %d than the expression says", port.c_str(), at->sp->label, k->sp->label );
                VCHECK( k->owner == CLONED, "wrong-link", "kernel %d is not a copy", k->sp->label );
                of[ k ] = n; n->real = k; todo.push_back( n );
            }
        };
        while( ! todo.empty() )
        {
            RN *n = todo.back(); todo.pop_back();
            for( auto &p : n->out )
            {
                auto it = out.find( { n->real, p.first } );
                VCHECK( ( it == out.end() ) == ( p.second.other < 0 ), "wrong-link", "output %s of kernel %d is%s linked", p.first.c_str(), n->sp->label, it == out.end() ? " not" : "" );
                if( p.second.other < 0 ) continue;
                VCHECK( it->second.bp == p.second.name, "wrong-port", "output %s of kernel %d leads to port %s of kernel %d, not %s", p.first.c_str(), n->sp->label, it->second.bp.c_str(), it->second.b->sp->label, p.second.name.c_str() );
                VCHECK( it->second.ooo == p.second.ooo && it->second.ooo2 == p.second.ooo, "wrong-order-flag", "link %d.%s: out of order is %d/%d, not %d", n->sp->label, p.first.c_str(), it->second.ooo, it->second.ooo2, p.second.ooo );
                VCHECK( it->second.size == p.second.size && it->second.size2 == p.second.size, "wrong-size", "link %d.%s: size %zu/%zu, not %zu", n->sp->label, p.first.c_str(), it->second.size, it->second.size2, p.second.size );
                same( ref.n[ p.second.other ].get(), it->second.b, "", n, p.first );
            }
            for( auto &p : n->in )
            {
                auto it = in.find( { n->real, p.first } );
                VCHECK( ( it == in.end() ) == ( p.second.other < 0 ), "wrong-link", "input %s of kernel %d is%s linked", p.first.c_str(), n->sp->label, it == in.end() ? " not" : "" );
                if( p.second.other < 0 ) continue;
                VCHECK( it->second.ap == p.second.name, "wrong-port", "input %s of kernel %d comes from port %s of kernel %d, not %s", p.first.c_str(), n->sp->label, it->second.ap.c_str(), it->second.a->sp->label, p.second.name.c_str() );
                same( ref.n[ p.second.other ].get(), it->second.a, "", n, p.first );
            }
        }
        size_t links = 0;
        for( auto &n : ref.n )
        {
            VCHECK( n->real, "kernel-missing", "a copy of kernel %d is not in the graph", n->sp->label );
            for( auto &p : n->out ) if( p.second.other >= 0 ) links++;
        }
        VCHECK( links == ev.size(), "wrong-link-count", "%zu links, not %zu", ev.size(), links );
        VCHECK( all.size() == ref.n.size(), "wrong-kernel-count", "%zu kernels exist, not %zu", all.size(), ref.n.size() );
        count( "links compared", (long long) links );
        count( "kernels compared", (long long) all.size() );
    }
    /* T06 */
    void traversals()
    {
        std::set< raft::kernel * > from;
        std::vector< RN * > q;
        std::set< RN * > seen;
        for( auto &n : ref.n ) if( r.chance( 1, 3 ) || ( ref.n.size() < 4 && from.empty() ) ) { from.insert( n->real ); q.push_back( n.get() ); seen.insert( n.get() ); }
        if( from.empty() ) return;
        std::vector< raft::kernel * > fromv( from.begin(), from.end() );
        if( r.chance( 1, 3 ) ) fromv.push_back( r.pick( fromv ) );
        std::set< std::pair< TK *, std::string > > want;
        while( ! q.empty() )
        {
            RN *n = q.back(); q.pop_back();
            for( auto &p : n->out ) if( p.second.other >= 0 )
            {
                want.insert( { n->real, p.first } );
                RN *o = ref.n[ p.second.other ].get();
                if( seen.insert( o ).second ) q.push_back( o );
            }
        }
        std::map< TK *, int > vis;
        GraphTools::BFS( from, (vertex_func) [ & ]( raft::kernel *k, void *d ) { VCHECK( d == (void *) this, "wrong-data", "a traversal passed on another pointer" ); vis[ dynamic_cast< TK * >( k ) ]++; }, (void *) this );
        for( auto &v : vis ) VCHECK( v.second == 1, "kernel-visited-twice", "kernel %d visited %d times", v.first->sp->label, v.second );
        VCHECK( vis.size() == seen.size(), "wrong-visits", "%zu kernels were visited, %zu can be reached", vis.size(), seen.size() );
        for( RN *n : seen ) VCHECK( vis.count( n->real ), "kernel-not-visited", "kernel %d can be reached and was not visited", n->sp->label );
        for( int vec = 0; vec < 2; vec++ )
        {
            std::multiset< std::pair< TK *, std::string > > got;
            if( vec ) GraphTools::BFS( fromv, (edge_func) [ & ]( PortInfo &a, PortInfo &b, void * ) { got.insert( { static_cast< TK * >( a.my_kernel ), a.my_name } ); } );
            else for( auto &x : edges_from( from ) ) got.insert( { x.a, x.ap } );
            VCHECK( got.size() == want.size() && std::equal( got.begin(), got.end(), want.begin() ), "wrong-links-visited", "%zu links were visited, %zu can be reached", got.size(), want.size() );
        }
        count( "traversals", 3 );
        std::ostringstream o;
        const bool env = r.chance( 1, 3 );
        if( env ) { setenv( "GEN_DOT_HEIGHT", "17", 1 ); setenv( "GEN_DOT_WIDTH", "23", 1 ); }
        raft::make_dot::run( o, *m );
        if( env ) { unsetenv( "GEN_DOT_HEIGHT" ); unsetenv( "GEN_DOT_WIDTH" ); VCHECK( o.str().find( "size=\"17" ) != std::string::npos && o.str().substr( 0, 60 ).find( "23\"" ) != std::string::npos, "dot-size", "the size asked for is not in the output: %.100s", o.str().c_str() ); }
        dot( o.str() );
    }
    /* dot: what the map knows, and the links that its sources reach */
    void dot( const std::string &s )
    {
        std::map< size_t, TK * > ids;
        for( auto &n : ref.n ) VCHECK( ids.emplace( n->real->get_id(), n->real ).second, "id-not-unique", "two kernels have the number %zu", n->real->get_id() );
        std::map< size_t, int > v;
        std::multiset< std::string > e;
        VCHECK( s.compare( 0, 9, "digraph G" ) == 0 && s.size() > 2 && s.compare( s.size() - 2, 2, "}\n" ) == 0, "dot-malformed", "not a digraph: %.200s", s.c_str() );
        std::istringstream is( s );
        std::string line;
        while( std::getline( is, line ) )
        {
            size_t a, b; int n = 0;
            if( sscanf( line.c_str(), "\t%zu -> %zu[label=\"%n", &a, &b, &n ) == 2 && n )
            {
                const std::string rest = line.substr( n );
                const auto p = rest.find( " (" );
                VCHECK( p != std::string::npos && rest.substr( p ) == " (" + common::printClassNameFromStr( typeid( std::string ).name() ) + ")", "dot-type", "the type of a link of strings: %s", rest.c_str() );
                e.insert( fmt( "%zu -> %zu %s", a, b, rest.substr( 0, p ).c_str() ) );
                std::getline( is, line );
                VCHECK( line.compare( 0, 4, "OoO=" ) == 0, "dot-malformed", "line %s", line.c_str() );
                const std::string oo = line.substr( 4 );
                /* attach the flag */
                auto it = e.find( fmt( "%zu -> %zu %s", a, b, rest.substr( 0, p ).c_str() ) );
                std::string x = *it + " " + oo; e.erase( it ); e.insert( x );
            }
            else if( n = 0, sscanf( line.c_str(), "\t%zu[label=\"%n", &a, &n ) == 1 && n )
            {
                v[ a ]++;
                const std::string rest = line.substr( n ), want = ids.count( a ) ? common::printClassName( *ids[ a ] ) : "";
                VCHECK( ! ids.count( a ) || ( want.find( "TK" ) != std::string::npos && rest.compare( 0, want.size() + 1, want + "\"" ) == 0 ), "dot-vertex-name", "kernel %zu is called %.60s", a, rest.c_str() );
            }
        }
        for( auto &x : v ) { VCHECK( x.second == 1, "dot-vertex-twice", "vertex %zu occurs %d times", x.first, x.second ); VCHECK( ids.count( x.first ), "dot-vertex-unknown", "vertex %zu is no kernel", x.first ); }
        VCHECK( v.size() == ids.size(), "dot-vertices", "%zu vertices for %zu kernels", v.size(), ids.size() );
        std::multiset< std::string > we;
        std::vector< RN * > qq; std::set< RN * > sn;
        for( auto &n : ref.n ) if( n->in.empty() ) { qq.push_back( n.get() ); sn.insert( n.get() ); }
        while( ! qq.empty() )
        {
            RN *n = qq.back(); qq.pop_back();
            for( auto &p : n->out ) if( p.second.other >= 0 )
            {
                RN *d = ref.n[ p.second.other ].get();
                we.insert( fmt( "%zu -> %zu %s to %s %s", n->real->get_id(), d->real->get_id(), p.first.c_str(), p.second.name.c_str(), p.second.ooo ? "true" : "false" ) );
                if( sn.insert( d ).second ) qq.push_back( d );
            }
        }
        VCHECK( e == we, "dot-edges", "%zu edges, not %zu, or other ones; first %s, expected %s", e.size(), we.size(), e.empty() ? "-" : e.begin()->c_str(), we.empty() ? "-" : we.begin()->c_str() );
        count( "dot outputs compared" );
    }
    void endpoints( kernel_pair_t &kp, const Result &res )
    {
        auto cmp = [ & ]( kernel_pair_t::endpoint_ret_type p, size_t n, const std::vector< RN * > &want, const char *what )
        {
            std::vector< TK * > got;
            for( auto it = p.first; it != p.second; ++it ) got.push_back( dynamic_cast< TK * >( &it->get() ) );
            VCHECK( got.size() == n, "wrong-endpoint-size", "%s: size says %zu, there are %zu", what, n, got.size() );
            VCHECK( got.size() == want.size(), "wrong-endpoints", "%zu %ss were returned, the expression has %zu", got.size(), what, want.size() );
            for( size_t i = 0; i < got.size(); i++ )
                VCHECK( got[ i ] == want[ i ]->real, "wrong-endpoints", "%s %zu is kernel %d, or another copy of it, not %d", what, i, got[ i ]->sp->label, want[ i ]->sp->label );
        };
        cmp( kp.getSrc(), kp.getSrcSize(), res.src, "source" );
        cmp( kp.getDst(), kp.getDstSize(), res.dst, "destination" );
        count( "endpoint lists compared", 2 );
    }
    /* one statement; false: none fitted */
    bool statement()
    {
        RN *head = nullptr, *tail = nullptr; std::string hp, tp;
        if( ! lastres.src.empty() && r.chance( 2, 3 ) )
        {
            auto &v( r.chance( 1, 2 ) ? lastres.dst : lastres.src );
            RN *n = r.pick( v );
            const bool as_head = &v == &lastres.dst;
            for( auto &p : as_head ? n->out : n->in ) if( p.second.other < 0 ) { if( as_head ) { head = n; hp = p.first; } else { tail = n; tp = p.first; } if( r.chance( 1, 2 ) ) break; }
        }
        Expr e; ASTp ast;
        for( int t = 0;; t++ )
        {
            e = Expr(); ast.reset();
            if( generate( e, ast, head, hp, tail, tp ) ) break;
            if( t > 20 ) return false;
        }
        text += show( ast.get(), e ) + "; ";
        describe( text );
        Val1 v = eval( ast.get(), e );
        kernel_pair_t kp( *m += *std::get< 2 >( v ) );
        lastres = reference( e );
        compare();
        endpoints( kp, lastres );
        for( auto o : e.op ) count( o == CHAIN ? "chain operators" : o == SPLIT ? "split operators" : "join operators" );
        return true;
    }
    Result lastres;
    /* every port that is still free gets a source or a sink */
    void complete( size_t leave = 0 )
    {
        struct Free { RN *n; bool in; std::string p; };
        std::vector< Free > fr;
        for( auto &n : ref.n )
        {
            for( auto &p : n->in ) if( p.second.other < 0 ) fr.push_back( { n.get(), true, p.first } );
            for( auto &p : n->out ) if( p.second.other < 0 ) fr.push_back( { n.get(), false, p.first } );
        }
        for( size_t i = fr.size(); i > 1; i-- ) std::swap( fr[ i - 1 ], fr[ r.below( i ) ] );
        for( size_t i = leave; i < fr.size(); i++ )
        {
            auto &f( fr[ i ] );
            auto s = f.in ? spec( 0, 1 ) : spec( 1, 0 );
            TK *k = make_user( s );
            RN *n = ref.add( s, k ); of[ k ] = n;
            const std::string mine = r.chance( 1, 2 ) ? "" : ( f.in ? s->out : s->in )[ 0 ];
            const std::string theirs = ( f.in ? f.n->sp->in : f.n->sp->out ).size() == 1 && r.chance( 1, 2 ) ? "" : f.p;
            const size_t size = r.chance( 1, 3 ) ? (size_t) r.range( 1, 40 ) : 0;
            const bool ooo = r.chance( 1, 5 );
            raft::kernel *a = f.in ? (raft::kernel *) k : f.n->real, *b = f.in ? f.n->real : (raft::kernel *) k;
            const auto ap = f.in ? mine : theirs, bp = f.in ? theirs : mine;
            kernel_pair_t kp( ooo ? m->link< raft::order::out >( a, ap, b, bp, size ) : m->link( a, ap, b, bp, size ) );
            VCHECK( kp.getSrcSize() == 1 && kp.getDstSize() == 1 && &kp.getSrc().first->get() == a && &kp.getDst().first->get() == b, "wrong-endpoints", "link() returned other kernels than it linked" );
            ref.link( f.in ? n : f.n, ap, f.in ? f.n : n, bp, ooo, size );
        }
        if( fr.size() > leave ) text += fmt( "%zu links; ", fr.size() - leave );
        describe( text );
        compare();
    }
    /* the paths that items take; false: too many */
    bool paths( std::map< std::string, int > &out )
    {
        std::vector< int > indeg( ref.n.size() );
        std::vector< std::vector< std::string > > at( ref.n.size() );
        std::vector< int > order;
        for( auto &n : ref.n ) { for( auto &p : n->in ) if( p.second.other >= 0 ) indeg[ n->id ]++; if( ! indeg[ n->id ] ) order.push_back( n->id ); }
        size_t all = 0;
        for( size_t i = 0; i < order.size(); i++ )
        {
            RN *n = ref.n[ order[ i ] ].get();
            if( n->in.empty() ) for( int t = 0; t < w.tokens; t++ ) at[ n->id ].push_back( fmt( "%d.%d", n->sp->label, t ) );
            for( auto &s : at[ n->id ] ) if( n->out.empty() ) out[ s ]++;
            for( auto &p : n->out )
            {
                RN *d = ref.n[ p.second.other ].get();
                for( auto &s : at[ n->id ] )
                {
                    if( ++all > 6000 ) return false;
                    at[ d->id ].push_back( s + "." + p.first + fmt( ">%s.%d", p.second.name.c_str(), d->sp->label ) );
                }
                if( --indeg[ d->id ] == 0 ) order.push_back( d->id );
            }
        }
        if( order.size() != ref.n.size() ) { fprintf( stderr, "reference: cycle\n" ); abort(); }
        return true;
    }
    void exe()
    {
#ifdef VH_CHAOS
        vh_chaos_seed = r.next(); vh_chaos_rate = (int) r.range( 3, 30 );
#endif
        const int k = (int) r.below( 3 );
        if( k == 0 ) m->exe< partition_dummy, simple_schedule, stdalloc, no_parallel >();
        else if( k == 1 ) m->exe< partition_dummy, simple_schedule, dynalloc, no_parallel >();
        else m->exe();
#ifdef VH_CHAOS
        vh_chaos_rate = 0;
#endif
    }
    void run()
    {
        std::map< std::string, int > want;
        if( ref.n.size() > 70 || ! paths( want ) ) return;
        text += "run"; describe( text );
        /* the file that the environment asks for */
        const bool gen = r.chance( opt( "mode" ) == "trav" ? 2 : 1, 3 );
        const std::string file = gen ? std::string( getenv( "TMPDIR" ) ? getenv( "TMPDIR" ) : "." ) + fmt( "/dot-%d", (int) getpid() ) : "";
        if( gen ) { setenv( "GEN_DOT", file.c_str(), 1 ); if( r.chance( 1, 3 ) ) setenv( "GEN_DOT_EXIT", "0", 1 ); }
        exe();
        if( gen )
        {
            unsetenv( "GEN_DOT" ); unsetenv( "GEN_DOT_EXIT" );
            std::ifstream in( file ); std::stringstream b; b << in.rdbuf();
            std::remove( file.c_str() );
            dot( b.str() );
            count( "dot files of runs" );
        }
        for( auto &p : want ) { auto it = w.got.find( p.first ); VCHECK( it != w.got.end() && it->second == p.second, "path-missing", "the path %s was taken %d times, not %d", p.first.c_str(), it == w.got.end() ? 0 : it->second, p.second ); }
        VCHECK( want.size() == w.got.size(), "path-unexpected", "%zu paths were taken, not %zu", w.got.size(), want.size() );
        count( "graphs run" );
        long long n = 0; for( auto &p : want ) n += p.second;
        count( "paths traced", n );
    }
    /* T04: the end of the map */
    void finish()
    {
        size_t u = user.size(), own = 0;
        { std::lock_guard< std::mutex > g( w.m ); for( auto *k : w.alive ) own += k->owner != USER; VCHECK( w.alive.size() == u + own, "wrong-kernel-count", "%zu kernels exist, not %zu", w.alive.size(), u + own ); }
        g_kill_ok = true;
        const int before = w.destroyed;
        const bool user_first = r.chance( 1, 3 );
        if( user_first ) user.clear();
        m.reset();
        {
            std::lock_guard< std::mutex > g( w.m );
            for( auto *k : w.alive ) VCHECK( k->owner == USER, "kernel-leaked", "kernel %d (%s) outlived its map", k->sp->label, k->owner == MADE ? "made for it" : "a copy" );
            VCHECK( w.alive.size() == ( user_first ? 0 : u ), "user-kernel-destroyed", "%zu of the user's %zu kernels are left", w.alive.size(), u );
        }
        VCHECK( (size_t)( w.destroyed - before ) == own + ( user_first ? u : 0 ), "wrong-destructions", "%d kernels were destroyed, not %zu", w.destroyed - before, own );
        user.clear();
        count( "kernels owned by maps", (long long) own );
        count( "kernels owned by the user", (long long) u );
    }
    ~Case() { W = nullptr; }
};

static void expr( Rng &r )
{
    Case c( r );
    g_kill_ok = false;
    const int n = (int) r.range( 1, 3 );
    int done = 0;
    for( int i = 0; i < n; i++ ) if( c.ref.n.size() < 60 ) done += c.statement();
    if( ! done ) { g_kill_ok = true; c.m.reset(); return; }
    const bool trav = opt( "mode" ) == "trav";
    if( trav || r.chance( 1, 3 ) ) c.traversals();
    const int end = trav ? (int) r.below( 3 ) : (int) r.below( 4 );
    if( end >= 1 ) c.complete();
    if( end >= 1 && ( trav || r.chance( 1, 2 ) ) ) c.traversals();
    if( end >= 2 ) c.run();
    if( c.ref.n.size() > 3 ) distinct( hstr( c.text ) );
    if( r.chance( 1, 50 ) ) sample( c.text.substr( 0, 500 ) );
    c.finish();
}

/* ------------------------------------------------- rejected graphs (T03, T04) */
template < class T > struct OneOut : public raft::kernel
{
    int left = 3; std::atomic< int > *runs;
    OneOut( std::atomic< int > *r, int outs = 1, const char *pre = "o" ) : runs( r ) { for( int i = 0; i < outs; i++ ) output.addPort< T >( pre + std::to_string( i ) ); }
    virtual raft::kstatus run()
    {
        ++*runs;
        for( auto it = output.begin(); it != output.end(); ++it ) output[ it.name() ].push( T() );
        return --left ? raft::proceed : raft::stop;
    }
};
template < class T > struct OneIn : public raft::kernel
{
    int n = 0; std::atomic< int > *runs; size_t cap = 0;
    OneIn( std::atomic< int > *r, int ins = 1, const char *pre = "i" ) : runs( r ) { for( int i = 0; i < ins; i++ ) input.addPort< T >( pre + std::to_string( i ) ); }
    virtual raft::kstatus run()
    {
        ++*runs;
        for( auto it = input.begin(); it != input.end(); ++it )
        {
            auto &f( input[ it.name() ] );
            if( it == input.begin() ) cap = f.capacity();
            while( f.size() ) { T t; f.pop( t ); n++; }
        }
        return raft::proceed;
    }
};
struct NoPorts : public raft::kernel { virtual raft::kstatus run() { return raft::stop; } };
struct NoClone : public raft::kernel
{
    NoClone() { input.addPort< std::string >( "i" ); output.addPort< std::string >( "o" ); }
    virtual raft::kstatus run() { std::string s; input[ "i" ].pop( s ); output[ "o" ].push( s ); return raft::proceed; }
};

template < class E, class F > static void must_throw( const char *what, const char *ename, F f )
{
    try { f(); }
    catch( std::exception &ex )
    {
        VCHECK( typeid( ex ) == typeid( E ), "wrong-exception", "%s raised another exception (%s) than %s", what, ex.what(), ename );
        VCHECK( ex.what() != nullptr && *ex.what(), "no-message", "%s: the exception has no message", what );
        auto *p = dynamic_cast< RaftException * >( &ex );
        VCHECK( p, "wrong-exception", "%s: not an exception of the library", what );
        count( "rejections seen" );
        count( ename );
        return;
    }
    violation( "not-rejected", fmt( "%s raised no %s", what, ename ) );
}
static RN *ref_other( Case &c, RN *n, const std::string &port ) { return c.ref.n[ n->out.at( port ).other ].get(); }
#define REJ( E, what, ... ) must_throw< E >( what, #E, [ & ]{ __VA_ARGS__; } )

static void errors( Rng &r )
{
    Case c( r );
    g_kill_ok = false;
    /* a valid graph first */
    bool any = r.chance( 3, 4 ) && c.statement();
    if( any ) c.complete( r.below( 2 ) );
    auto &m( *c.m );
    std::atomic< int > runs{ 0 };
    std::vector< std::string > log;
    std::list< std::unique_ptr< raft::kernel > > keep;
    auto own = [ & ]( raft::kernel *k ) -> raft::kernel & { keep.emplace_back( k ); return *k; };
    const int steps = (int) r.range( 1, 6 );
    bool spoiled = false;      /* a kernel outside the graph was part of a rejected link */
    for( int step = 0; step < steps; step++ )
    {
        const int k = (int) r.below( 16 );
        const std::string t0 = c.text;
        c.text += fmt( "step %d; ", k ); describe( c.text );
        RN *n = any ? r.pick( c.ref.n ).get() : nullptr;
        RN *n2 = any ? r.pick( c.ref.n ).get() : nullptr;
        auto used = [ & ]( RN *x, bool in ) { for( auto &p : in ? x->in : x->out ) if( p.second.other >= 0 ) return p.first; return std::string(); };
        switch( k )
        {
            case 0:   /* unknown output */
                if( any && ! n2->in.empty() ) REJ( PortNotFoundException, "a link from an unknown port", m.link( n->real, "nosuch", n2->real, n2->in.begin()->first ) );
                break;
            case 1:   /* unknown input */
                if( any && ! n->out.empty() && used( n, false ).empty() == false )
                    REJ( PortNotFoundException, "a link to an unknown port", m.link( n->real, used( n, false ), n2->real, "nosuch", 7 ) );
                break;
            case 2:   /* both ends exist, one or both in use */
            case 3:
            {
                if( ! any ) break;
                const auto a = used( n, false );
                if( a.empty() ) break;
                RN *b = k == 2 ? n2 : ref_other( c, n, a );
                const auto bp = k == 2 ? ( b->in.empty() ? "" : r.pick( b->sp->in ) ) : b->sp->in[ 0 ];
                if( b->in.empty() ) break;
                REJ( PortDoubleInitializeException, "a second link to a port", m.link( n->real, a, b->real, bp, r.below( 3 ) * 11 ) );
                break;
            }
            case 4:   /* second link by expression */
            {
                if( ! any ) break;
                const auto a = used( n, false );
                if( a.empty() ) break;
                auto sp = c.spec( 1, 0 );
                TK *x = c.make_user( sp );
                spoiled = true;
                REJ( PortDoubleInitializeException, "a second link to a port", m += (*n->real)[ a ] >> *x );
                RN *rn = c.ref.add( sp, x ); c.of[ x ] = rn;
                break;
            }
            case 5:
                spoiled = true;
                REJ( PortTypeMismatchException, "a link of two types", m.link( &own( new OneOut< int >( &runs ) ), "o0", &own( new OneIn< std::string >( &runs ) ), "i0" ) );
                break;
            case 6:
            {
                spoiled = true;
                auto &a( own( new OneOut< unsigned >( &runs, r.chance( 1, 2 ) ? 1 : 2 ) ) ); auto &b( own( new OneIn< int >( &runs ) ) );
                a[ "o0" ];
                REJ( PortTypeMismatchException, "a link of two types", m += a >> b );
                break;
            }
            case 7:
            {
                spoiled = true;
                auto &a( own( new OneOut< int >( &runs, (int) r.range( 2, 5 ) ) ) ); auto &b( own( new OneIn< int >( &runs ) ) );
                if( r.chance( 1, 2 ) ) REJ( AmbiguousPortAssignmentException, "a link from several ports", m.link( &a, "", &b, "i0" ) );
                else REJ( AmbiguousPortAssignmentException, "a link from several ports", m += a >> b );
                break;
            }
            case 8:
            {
                spoiled = true;
                auto &a( own( new OneOut< int >( &runs ) ) ); auto &b( own( new OneIn< int >( &runs, (int) r.range( 2, 5 ) ) ) );
                if( r.chance( 1, 2 ) ) REJ( AmbiguousPortAssignmentException, "a link to several ports", m.link( &a, "o0", &b, "" ) );
                else REJ( AmbiguousPortAssignmentException, "a link to several ports", m += a >> b );
                break;
            }
            case 9:
            {
                spoiled = true;
                auto &a( own( new OneOut< int >( &runs ) ) ); auto &b( own( new NoPorts ) ); auto &d( own( new OneIn< int >( &runs ) ) );
                if( r.chance( 1, 2 ) ) REJ( PortNotFoundException, "a link to a kernel without ports", m += a >> b );
                else REJ( PortNotFoundException, "a link from a kernel without ports", m.link( &b, "", &d, "" ) );
                break;
            }
            case 10:
            {
                auto &a( own( new OneOut< int >( &runs, 3 ) ) );
                a[ "o0" ]; a[ "o1" ];
                REJ( AmbiguousPortAssignmentException, "a third port name", a[ "o2" ] );
                break;
            }
            case 11:
            {
                auto &a( static_cast< OneOut< int > & >( own( new OneOut< int >( &runs, 2 ) ) ) );
                REJ( PortAlreadyExists, "a port added twice", a.output.addPort< int >( "o1" ) );
                REJ( PortAlreadyExists, "a port added twice with another type", a.output.addPort< std::string >( "o0" ) );
                VCHECK( a.output.count() == 2 && a.output.getPortType( "o0" ) == std::type_index( typeid( int ) ) && a.output.getPortType( "o1" ) == std::type_index( typeid( int ) ), "ports-changed", "a rejected addPort changed the ports" );
                REJ( PortNotFoundException, "the type of an unknown port", a.output.getPortType( "x" ) );
                REJ( PortNotFoundException, "the type of an unknown port", a.input.getPortType( "o0" ) );
                REJ( PortNotFoundException, "an unknown port", a.output[ "nosuch" ] );
                const std::string nm = "i0";
                REJ( PortNotFoundException, "an unknown port", a.input[ nm ] );
                break;
            }
            case 12:  /* a copy is needed, and the kernel cannot be copied */
            {
                spoiled = true;
                auto s = c.spec( 0, 3 );
                TK *a = c.make_user( s );
                RN *rn = c.ref.add( s, a ); c.of[ a ] = rn;
                auto &b( own( new NoClone ) );
                try { m += *a <= b; violation( "not-rejected", "a kernel without clone() was copied" ); }
                catch( CloneNotImplementedException & ) { count( "rejections seen" ); count( "CloneNotImplementedException" ); }
                any = false;       /* the first link was made: the reference does not follow */
                step = steps;
                break;
            }
            case 14:  /* an unused port is offered to one in use, and then linked elsewhere */
            case 15:
            {
                if( ! any ) break;
                const bool src = k == 14;
                const auto busy = used( n, src );
                if( busy.empty() ) break;
                auto s = src ? c.spec( 0, 1 ) : c.spec( 1, 0 ), t = src ? c.spec( 1, 0 ) : c.spec( 0, 1 );
                TK *x = c.make_user( s ), *y = c.make_user( t );
                for( int i = (int) r.range( 1, 2 ); i; i-- )
                {
                    const size_t size = r.chance( 1, 2 ) ? r.below( 40 ) : 0;
                    if( src && r.chance( 1, 2 ) ) REJ( PortDoubleInitializeException, "a link to a port in use", m.link( x, r.chance( 1, 2 ) ? "" : s->out[ 0 ], n->real, busy, size ) );
                    else if( src ) REJ( PortDoubleInitializeException, "a link to a port in use", m += *x >> (*n->real)[ busy ] );
                    else if( r.chance( 1, 2 ) ) REJ( PortDoubleInitializeException, "a link from a port in use", m.link( n->real, busy, x, r.chance( 1, 2 ) ? "" : s->in[ 0 ], size ) );
                    else REJ( PortDoubleInitializeException, "a link from a port in use", m += (*n->real)[ busy ] >> *x );
                }
                const size_t size = r.chance( 1, 2 ) ? (size_t) r.range( 1, 40 ) : 0;
                RN *a = c.ref.add( s, x ), *b = c.ref.add( t, y ); c.of[ x ] = a; c.of[ y ] = b;
                if( ! src ) std::swap( a, b );
                m.link( a->real, a->sp->out[ 0 ], b->real, b->sp->in[ 0 ], size );
                c.ref.link( a, "", b, "", false, size );
                count( "ports linked after a rejection" );
                break;
            }
            case 13:  /* a chain of made kernels that is rejected at its start, in its middle or at its end */
            {
                spoiled = true;
                auto s1 = c.spec( 0, 1 ), s2 = c.spec( 1, 1 ), s3 = c.spec( 1, 1 ), s4 = c.spec( 1, 0 );
                auto &bad( own( new OneIn< int >( &runs ) ) );
                auto &badsrc( own( new OneOut< int >( &runs ) ) );
                switch( r.below( 4 ) )
                {
                    case 0: REJ( PortTypeMismatchException, "a chain of two types", m += raft::kernel::make< TK >( s1, MADE ) >> raft::kernel::make< TK >( s2, MADE ) >> raft::kernel::make< TK >( s3, MADE ) >> bad ); break;
                    case 1: REJ( PortTypeMismatchException, "a chain of two types", m += badsrc >> raft::kernel::make< TK >( s2, MADE ) >> raft::kernel::make< TK >( s3, MADE ) >> raft::kernel::make< TK >( s4, MADE ) ); break;
                    case 2: REJ( PortNotFoundException, "a chain beyond a sink", m += raft::kernel::make< TK >( s1, MADE ) >> raft::kernel::make< TK >( s4, MADE ) >> raft::kernel::make< TK >( s3, MADE ) ); break;
                    default:
                    {
                        auto &two( own( new OneOut< std::string >( &runs, 2 ) ) );
                        REJ( AmbiguousPortAssignmentException, "a chain from several ports", m += two >> raft::kernel::make< TK >( s2, MADE ) >= raft::kernel::make< TK >( s4, MADE ) );
                    }
                }
                any = false;
                step = steps;
                break;
            }
        }
        if( any ) c.compare();     /* the links are what they were */
    }
    const int r0 = c.w.runs;
    if( any )
    {
        bool open = spoiled;
        for( auto &n : c.ref.n ) { for( auto &p : n->in ) open |= p.second.other < 0; for( auto &p : n->out ) open |= p.second.other < 0; }
        if( open )
        {
            const int a = (int) r.below( 3 );
            if( a == 0 ) REJ( PortUnconnectedException, "a run with an unlinked port", (m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >()) );
            else REJ( PortUnconnectedException, "a run with an unlinked port", m.exe() );
            VCHECK( c.w.runs == r0 && runs == 0, "run-when-rejected", "kernels ran although the graph was rejected" );
            if( ! spoiled && r.chance( 2, 3 ) ) { c.complete(); c.run(); }
        }
        else c.run();
        distinct( hstr( c.text ) );
    }
    VCHECK( runs == 0, "run-when-rejected", "kernels ran although they were rejected" );
    if( r.chance( 1, 3 ) ) c.finish();
    else
    {
        const bool first = r.chance( 1, 2 );
        g_kill_ok = true;
        if( first ) keep.clear();
        c.finish();
    }
}

/* --------------------------------------------------------- port containers (T05) */
struct PK : public raft::kernel { virtual raft::kstatus run() { return raft::stop; } PK() {} PK( void *p, size_t n ) : raft::kernel( p, n ) {} };
template < class T > static void addp( Port &p, const std::string &n, int how )
{
    if( how == 0 ) p.addPort< T >( n );
    else if( how == 1 ) { std::string c( n ); p.addPort< T >( c ); }
    else p.add_port< T >( n );
}
static const std::vector< std::pair< std::type_index, void ( * )( Port &, const std::string &, int ) > > &types()
{
    static const std::vector< std::pair< std::type_index, void ( * )( Port &, const std::string &, int ) > > t{
        { typeid( int ), addp< int > }, { typeid( unsigned ), addp< unsigned > }, { typeid( char ), addp< char > }, { typeid( std::string ), addp< std::string > },
        { typeid( double ), addp< double > }, { typeid( Pod24 ), addp< Pod24 > }, { typeid( Pod200 ), addp< Pod200 > }, { typeid( std::vector< int > ), addp< std::vector< int > > },
        { typeid( bool ), addp< bool > }, { typeid( uint64_t ), addp< uint64_t > }, { typeid( TBig ), addp< TBig > } };
    return t;
}
static void check_ports( Port &p, const std::map< std::string, size_t > &want, Rng &r )
{
    VCHECK( p.count() == want.size() && p.hasPorts() == ! want.empty(), "wrong-port-count", "count %zu for %zu ports, hasPorts %d", p.count(), want.size(), p.hasPorts() );
    std::set< std::string > seen;
    for( auto it = p.begin(); it != p.end(); ++it )
    {
        VCHECK( ! ( it == p.end() ), "iterator-compare", "an iterator is both equal and unequal to the end" );
        VCHECK( want.count( it.name() ), "port-unknown", "iteration gave the port \"%s\", which was not added", it.name().c_str() );
        VCHECK( seen.insert( it.name() ).second, "port-visited-twice", "iteration gave the port \"%s\" twice", it.name().c_str() );
        VCHECK( seen.size() <= want.size(), "iteration-endless", "iteration passed the end" );
    }
    VCHECK( seen.size() == want.size(), "port-not-visited", "iteration gave %zu of %zu ports", seen.size(), want.size() );
    VCHECK( want.empty() == ( p.begin() == p.end() ), "iterator-compare", "begin and end" );
    for( auto &x : want )
    {
        VCHECK( p.getPortType( std::string( x.first ) ) == types()[ x.second ].first, "wrong-port-type", "port \"%s\" has another type than it was given", x.first.c_str() );
        VCHECK( p.getPortName( x.first ) == x.first, "wrong-port-name", "port \"%s\" is called \"%s\"", x.first.c_str(), p.getPortName( x.first ).c_str() );
        if( r.chance( 1, 4 ) )
        {
            std::string y = x.first;
            const int how = (int) r.below( 4 );
            if( how == 0 ) y += "x"; else if( how == 1 ) y = y.substr( 1 ); else if( how == 2 ) y[ r.below( y.size() ) ] ^= 1; else y = " " + y;
            if( ! want.count( y ) ) REJ( PortNotFoundException, "an unknown name", p.getPortType( std::string( y ) ) );
            if( ! want.count( y ) ) REJ( PortNotFoundException, "an unknown name", p[ y ] );
        }
    }
    count( "ports looked up", (long long) want.size() );
}
template < class T > static void inplace( Rng &r )
{
    const size_t len = (size_t) r.range( 0, 80 ), n = (size_t) r.range( 1, 12 );
    std::vector< T > data( len );
    for( size_t i = 0; i < len; i++ ) data[ i ] = Val< T >::make( i + 1 );
    struct IK : public raft::kernel { using raft::kernel::kernel; virtual raft::kstatus run() { return raft::stop; } };
    IK k( (void *) data.data(), len * sizeof( T ) );
    k.output.template addInPlacePorts< T >( n );
    std::set< std::string > names, want;
    for( size_t i = 0; i < n; i++ ) want.insert( std::to_string( i ) );
    for( auto it = k.output.begin(); it != k.output.end(); ++it )
    {
        names.insert( it.name() );
        VCHECK( k.output.getPortType( std::string( it.name() ) ) == std::type_index( typeid( T ) ), "wrong-port-type", "an in-place port has another type" );
    }
    VCHECK( names == want && k.output.count() == n, "wrong-ports", "in-place ports: %zu for %zu", names.size(), n );
    /* what each port has of the array, seen through its link */
    std::vector< std::unique_ptr< OneIn< T > > > sinks;
    std::atomic< int > runs{ 0 };
    raft::map m;
    for( size_t i = 0; i < n; i++ ) { sinks.emplace_back( new OneIn< T >( &runs ) ); m.link( &k, std::to_string( i ), sinks.back().get(), "i0" ); }
    std::set< raft::kernel * > from{ &k };
    std::map< size_t, size_t > part;
    GraphTools::BFS( from, (edge_func) [ & ]( PortInfo &a, PortInfo &, void * )
    {
        VCHECK( a.existing_buffer == (void *)( data.data() + a.start_index ), "wrong-slice", "the memory of a port is not where its start index says" );
        VCHECK( part.emplace( (size_t) std::stoul( a.my_name ), a.nitems ).second, "link-visited-twice", "port %s", a.my_name.c_str() );
        part[ std::stoul( a.my_name ) ] = a.nitems;
        VCHECK( a.start_index == ( len / n ) * std::stoul( a.my_name ), "wrong-slice", "port %s starts at %zu", a.my_name.c_str(), a.start_index );
    } );
    size_t sum = 0;
    for( auto &x : part ) { VCHECK( x.first * ( len / n ) == sum, "wrong-slice", "ports do not cover the array one after another" ); sum += x.second; }
    VCHECK( part.size() == n && sum == len, "wrong-slice", "the ports cover %zu of %zu elements", sum, len );
    count( "arrays divided" );
}
static void ports( Rng &r )
{
    PK a, b;
    std::map< std::string, size_t > wa, wb;
    const int n = r.chance( 1, 6 ) ? (int) r.range( 20, 150 ) : (int) r.range( 0, 14 );
    uint64_t h = 0;
    for( int i = 0; i < n; i++ )
    {
        auto &w( r.chance( 1, 2 ) ? wa : wb );
        Port &p( &w == &wa ? a.input : r.chance( 1, 2 ) || &w == &wb ? a.output : a.output );
        std::string nm;
        const int st = (int) r.below( 4 );
        if( st == 0 ) nm = std::to_string( r.below( 200 ) );
        else if( st == 1 ) for( int q = (int) r.range( 1, 6 ); q > 0; q-- ) nm += (char) r.range( 32, 126 );
        else if( st == 2 ) nm = std::string( (size_t) r.range( 1, 60 ), 'p' ) + (char) r.range( 'a', 'z' );
        else nm = fmt( "in %d", (int) r.below( 50 ) );
        const size_t t = r.below( types().size() );
        h = hcomb( h, hstr( nm ) + t );
        if( w.count( nm ) ) REJ( PortAlreadyExists, "a port added twice", types()[ t ].second( p, nm, (int) r.below( 3 ) ) );
        else { types()[ t ].second( p, nm, (int) r.below( 3 ) ); w[ nm ] = t; }
        if( r.chance( 1, 8 ) ) { check_ports( a.input, wa, r ); check_ports( a.output, wb, r ); }
    }
    if( r.chance( 1, 3 ) )       /* several in one call */
    {
        a.input.addPort< int >( "multi a", "multi b", "multi c" );
        wa[ "multi a" ] = wa[ "multi b" ] = wa[ "multi c" ] = 0;
        std::string x( "multi x" ), y( "multi y" );
        a.output.addPort< std::string >( x, y );
        wb[ x ] = wb[ y ] = 3;
    }
    describe( fmt( "%zu and %zu ports", wa.size(), wb.size() ) );
    check_ports( a.input, wa, r ); check_ports( a.output, wb, r );
    VCHECK( ! b.input.hasPorts() && b.output.count() == 0, "ports-elsewhere", "another kernel has ports" );
    if( wa.size() + wb.size() > 3 ) distinct( h );
    if( r.chance( 1, 2 ) )
        switch( r.below( 4 ) ) { case 0: inplace< int >( r ); break; case 1: inplace< char >( r ); break; case 2: inplace< Pod24 >( r ); break; default: inplace< double >( r ); }
}
/* -------------------------------------------------- kernels that are never used (T04) */
static void unused( Rng &r )
{
    World w; W = &w;
    g_kill_ok = true;
    auto sp = std::make_shared< Spec >(); sp->label = 1; sp->in = { "a" }; sp->out = { "b" };
    {
        auto x = raft::kernel::make< TK >( sp, MADE );
        VCHECK( w.alive.size() == 1, "kernel-missing", "make<> made %zu kernels", w.alive.size() );
        auto y( x );           /* takes it over */
        auto z( std::move( y ) );
        if( r.chance( 1, 2 ) ) { auto f = []( raft::kernel_wrapper q ) { (void) q; }; f( z ); VCHECK( w.alive.empty(), "kernel-leaked", "a made kernel outlived its wrapper" ); }
    }
    VCHECK( w.alive.empty() && w.destroyed == 1, "kernel-leaked", "a made kernel was destroyed %d times", w.destroyed.load() );
    count( "unused kernels" );
    W = nullptr;
}

int main( int argc, char **argv )
{
    return run( argc, argv, []( long long, Rng &r )
    {
        const auto mode = opt( "mode" );
        const int k = (int) r.below( 10 );
        if( mode == "expr" || mode == "trav" ) expr( r );
        else if( mode == "errors" ) { if( k < 8 ) errors( r ); else expr( r ); }
        else if( mode == "ports" ) { if( k < 7 ) ports( r ); else expr( r ); }
        else if( mode == "own" ) { if( k < 4 ) errors( r ); else if( k < 9 ) expr( r ); else unused( r ); }
        else { if( k < 5 ) expr( r ); else if( k < 8 ) errors( r ); else ports( r ); }
#ifdef VH_CHAOS
        ctx().cnt[ "delays" ] = (long long) vh_chaos_delays.load();
#endif
    } );
}
