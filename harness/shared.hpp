/* what the hooks of the library are in the race detector's build: the variables that its threads
   synchronise through are atomic (as far as the compiler knows, they are plain ones), the counters
   that it samples while they change are volatile, which the detector is told apart from the rest. In the
   other builds (VH_SHARED_ORDER) the first are volatile: nothing but the order of the source decides */
#ifndef VH_SHARED_HPP
#define VH_SHARED_HPP
#include <atomic>
template < class T > struct vh_shared
{
    std::atomic< T > v;
    explicit vh_shared( T x = T() ) : v( x ) {}
    vh_shared( const vh_shared &o ) : v( o.v.load() ) {}
    vh_shared &operator=( const vh_shared &o ) { v.store( o.v.load() ); return *this; }
    vh_shared &operator=( T x ) { v.store( x ); return *this; }
    operator T() const { return v.load(); }
    T operator++( int ) { return v++; }
    T operator--( int ) { return v--; }
    T operator++() { return ++v; }
    T operator--() { return --v; }
    vh_shared &operator+=( T x ) { v += x; return *this; }
    vh_shared &operator-=( T x ) { v -= x; return *this; }
};
#if defined( VH_SHARED_PLAIN ) || defined( VH_SHARED_ORDER )
/* for a tree that takes them for what they are declared as, in a way that the wrapper does not allow, and for the builds without the detector */
#define RAFT_SHARED_T( T ) volatile T
#else
#define RAFT_SHARED_T( T ) vh_shared< T >
#endif
#ifdef VH_SHARED_ORDER
#define RAFT_SAMPLED
#else
#define RAFT_SAMPLED volatile
#endif
#endif
