/* one stream outside of a graph, made by the builder that the graph's
 * allocators use; and what the scheduler would give it: the sets that large
 * (externally allocated) elements are tracked by */
#ifndef FIFO_COMMON_HPP
#define FIFO_COMMON_HPP
#include <raft>
#include <memory>
#include "vh.hpp"

struct Stream
{
    struct Access : public ::FIFO
    {
        static void set( ::FIFO &f, ptr_map_t &in, ptr_set_t &out, ptr_set_t &inp, ptr_set_t &outp )
        {
            ( f.*( &Access::setPtrMap ) )( &in );
            ( f.*( &Access::setPtrSet ) )( &out );
            ( f.*( &Access::setInPeekSet ) )( &inp );
            ( f.*( &Access::setOutPeekSet ) )( &outp );
        }
        static raft::signal front_signal( ::FIFO &f ) { return ( f.*( &Access::signal_peek ) )(); }
    };
    std::unique_ptr< ::FIFO > f;
    ptr_map_t in;
    ptr_set_t out, in_peek, out_peek;
    template < class T > static Stream *make( size_t cap, void *mem = nullptr, size_t start = 16, bool monitored = false )
    {
        auto *s = new Stream;
        /* both builders that a port keeps; the allocators only use the first */
        s->f.reset( monitored ? RingBuffer< T, Type::Heap, true >::make_new_fifo( cap, start, mem ) : RingBuffer< T >::make_new_fifo( cap, start, mem ) );
        Access::set( *s->f, s->in, s->out, s->in_peek, s->out_peek );
        return s;
    }
    /* the signal of the front element, as the scheduler sees it */
    raft::signal front_signal() { return Access::front_signal( *f ); }
    /* what the scheduler does after each run of the consuming kernel: nothing was forwarded */
    void gc()
    {
        for( auto &p : in ) p.second( (void *) p.first );
        in.clear();
        in_peek.clear();
    }
    ~Stream() { gc(); }
    ::FIFO *operator->() { return f.get(); }
};
#endif
