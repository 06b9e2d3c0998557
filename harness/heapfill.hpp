// Memory obtained with new starts with a chosen content, so that anything that depends on it shows.
// Large blocks are used again, because getting them from the system each time takes long.
// To be included by one file of a program.
#pragma once

#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <sanitizer/asan_interface.h>

namespace vh
{
   int heapFill = -1;

   namespace pool
   {
      constexpr size_t large = 128 * 1024;
      struct
      {
         void *p;
         size_t n;
      } kept[16];
   }
}

void *operator new( size_t n )
{
   using namespace vh;
   void *p = nullptr;
   if ( n >= pool::large )
      for ( auto &k : pool::kept )
         if ( k.p && k.n == n )
         {
            p = k.p;
            k.p = nullptr;
            ASAN_UNPOISON_MEMORY_REGION( p, n );
            break;
         }
   if ( !p )
      p = malloc( n ? n : 1 );
   if ( !p )
      throw std::bad_alloc();
   if ( heapFill >= 0 )
      memset( p, heapFill, n );
   return p;
}
void *operator new[]( size_t n )
{
   return operator new( n );
}
void operator delete( void *p ) noexcept
{
   using namespace vh;
   const size_t n = p ? malloc_usable_size( p ) : 0;
   if ( n >= pool::large )
      for ( auto &k : pool::kept )
         if ( !k.p )
         {
            k.p = p;
            k.n = n;
            ASAN_POISON_MEMORY_REGION( p, n );
            return;
         }
   free( p );
}
void operator delete[]( void *p ) noexcept
{
   operator delete( p );
}
void operator delete( void *p, size_t ) noexcept
{
   operator delete( p );
}
void operator delete[]( void *p, size_t ) noexcept
{
   operator delete( p );
}
