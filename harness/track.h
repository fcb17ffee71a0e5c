// Counts the blocks the code under test holds, through the sanitizer's allocation hooks.
#pragma once

#include <cstdint>
#include <cstddef>
#include <sanitizer/allocator_interface.h>

namespace track
{
    constexpr size_t kSlots = 1 << 18;
    inline uintptr_t slots[ kSlots ]; // open addressing; 1 marks a removed entry
    inline size_t    live = 0, used = 0, total = 0;
    inline thread_local int on = 0;

    inline size_t at( uintptr_t p ) { return size_t( ( p >> 4 ) * 0x9E3779B97F4A7C15ULL >> 46 ) & ( kSlots - 1 ); }

    inline void onMalloc( const volatile void* q, size_t )
    {
        if ( !on || !q ) return;
        uintptr_t p = reinterpret_cast<uintptr_t>( q );
        size_t i = at( p );
        while ( slots[ i ] > 1 ) i = ( i + 1 ) & ( kSlots - 1 );
        if ( slots[ i ] == 0 ) used++;
        slots[ i ] = p;
        live++;
        total++;
    }
    inline void onFree( const volatile void* q )
    {
        if ( !q || !live ) return;
        uintptr_t p = reinterpret_cast<uintptr_t>( q );
        for ( size_t i = at( p ); slots[ i ]; i = ( i + 1 ) & ( kSlots - 1 ) )
            if ( slots[ i ] == p ) { slots[ i ] = 1; live--; return; }
    }
    inline void install()
    {
        static bool done = false;
        if ( !done ) { done = true; __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree ); }
    }
    inline void reset()
    {
        for ( size_t i = 0; i < kSlots; i++ ) slots[ i ] = 0;
        live = used = 0;
    }
    // Blocks still held that were taken while On existed.
    struct On { On() { if ( used > kSlots / 2 ) reset(); on++; } ~On() { on--; } };
    struct Off { int was; Off() : was( on ) { on = 0; } ~Off() { on = was; } };
} // namespace track
