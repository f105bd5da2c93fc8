/* stands in for the Scotch library: checks the graph that it is given as SCOTCH_graphCheck
 * does, keeps it, and answers with an arbitrary mapping (the one that the harness sets). */
#ifndef VH_SCOTCH_H
#define VH_SCOTCH_H
#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>
typedef int SCOTCH_Num;
enum { SCOTCH_STRATSPEED = 1 };
struct SCOTCH_Graph { SCOTCH_Num base, n, m; const SCOTCH_Num *vert, *vend, *edge, *load; };
struct SCOTCH_Arch { SCOTCH_Num cores; };
struct SCOTCH_Strat { int x; };
namespace vh_scotch
{
struct Log
{
    int calls = 0, open = 0;
    std::string bad;
    SCOTCH_Num n = 0, m = 0, cores = 0;
    std::vector< SCOTCH_Num > part;
    std::vector< std::pair< SCOTCH_Num, SCOTCH_Num > > arcs;
    uint64_t seed = 1;
};
inline thread_local Log log;
}
inline int SCOTCH_graphInit( SCOTCH_Graph *g ) { *g = SCOTCH_Graph(); vh_scotch::log.open++; return 0; }
inline int SCOTCH_graphBuild( SCOTCH_Graph *g, SCOTCH_Num base, SCOTCH_Num n, const SCOTCH_Num *vert, const SCOTCH_Num *vend, const SCOTCH_Num *, const SCOTCH_Num *,
                              SCOTCH_Num m, const SCOTCH_Num *edge, const SCOTCH_Num *load )
{ *g = { base, n, m, vert, vend, edge, load }; return 0; }
inline int SCOTCH_graphCheck( const SCOTCH_Graph *g )
{
    auto &l( vh_scotch::log );
    l.calls++; l.n = g->n; l.m = g->m; l.arcs.clear();
    std::map< std::pair< SCOTCH_Num, SCOTCH_Num >, std::vector< SCOTCH_Num > > w;
    SCOTCH_Num seen = 0;
    for( SCOTCH_Num v = 0; v < g->n; v++ )
    {
        if( g->vert[ v ] < 0 || g->vend[ v ] < g->vert[ v ] || g->vend[ v ] > g->m ) { l.bad = "arcs of a vertex out of range"; return 0; }
        for( SCOTCH_Num i = g->vert[ v ]; i < g->vend[ v ]; i++, seen++ )
        {
            const SCOTCH_Num u = g->edge[ i ];
            if( u < 0 || u >= g->n ) { l.bad = "arc to a vertex that is not there"; return 0; }
            if( u == v ) { l.bad = "a loop"; return 0; }
            if( g->load[ i ] <= 0 ) { l.bad = "an arc without weight"; return 0; }
            w[ { v, u } ].push_back( g->load[ i ] );
            l.arcs.emplace_back( v, u );
        }
    }
    if( seen != g->m ) l.bad = "number of arcs";
    for( auto &x : w ) if( w.find( { x.first.second, x.first.first } ) == w.end() || w[ { x.first.second, x.first.first } ].size() != x.second.size() ) { l.bad = "an arc without its opposite"; break; }
    return 0;
}
inline int SCOTCH_archInit( SCOTCH_Arch *a ) { a->cores = 0; vh_scotch::log.open++; return 0; }
inline int SCOTCH_archCmplt( SCOTCH_Arch *a, SCOTCH_Num n ) { a->cores = n; return 0; }
inline int SCOTCH_stratInit( SCOTCH_Strat * ) { vh_scotch::log.open++; return 0; }
inline int SCOTCH_stratGraphClusterBuild( SCOTCH_Strat *, SCOTCH_Num, SCOTCH_Num, double, double ) { return 0; }
inline int SCOTCH_graphMap( SCOTCH_Graph *g, const SCOTCH_Arch *a, const SCOTCH_Strat *, SCOTCH_Num *part )
{
    auto &l( vh_scotch::log );
    l.cores = a->cores; l.part.clear();
    uint64_t s = l.seed;
    for( SCOTCH_Num v = 0; v < g->n; v++ )
    {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        part[ v ] = (SCOTCH_Num)( ( s >> 33 ) % (uint64_t) a->cores );
        l.part.push_back( part[ v ] );
    }
    return 0;
}
inline void SCOTCH_graphExit( SCOTCH_Graph * ) { vh_scotch::log.open--; }
inline void SCOTCH_stratExit( SCOTCH_Strat * ) { vh_scotch::log.open--; }
inline void SCOTCH_archExit( SCOTCH_Arch * ) { vh_scotch::log.open--; }
#endif
