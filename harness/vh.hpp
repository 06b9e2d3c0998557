// Small explorer core shared by all checks.
//
// A harness enumerates its bounded space deterministically by calling Run::test( key, body ) once
// per case. The cases are dealt out to worker processes; a worker that dies or hangs in a case is
// restarted behind that case, so every case of the space is executed exactly once. Each case has a
// unique key, and running the harness with "--replay KEY" executes just that case.
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh
{
   struct Failure
   {
      std::string msg;
   };

   std::string fmt( const char *f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
   [[noreturn]] void fail( const char *f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );

   inline uint64_t hash( const void *p, size_t n, uint64_t h = 1469598103934665603ULL )
   {
      auto c = static_cast<const unsigned char *>( p );
      for ( size_t i = 0; i < n; ++i )
      {
         h ^= c[i];
         h *= 1099511628211ULL;
      }
      return h;
   }
   inline uint64_t hash( const std::string &s, uint64_t h = 1469598103934665603ULL )
   {
      return hash( s.data(), s.size(), h );
   }

   class Run
   {
   public:
      bool thorough = false;
      std::string tier;
      std::string scratch; // private directory of this worker
      bool replaying = false;

      // Enumerate one case. The key is only computed when needed.
      void test( const std::function<std::string()> &key, const std::function<void()> &body );
      void test( const std::string &key, const std::function<void()> &body )
      {
         test( [&] { return key; }, body );
      }

      // Measurements made while a case runs
      void state( uint64_t h );
      void state( const std::string &s )
      {
         state( hash( s ) );
      }
      void transitions( uint64_t n = 1 );
      void outcome( const std::string &s ); // an observed outcome; the distinct ones are counted
      void count( const std::string &name, uint64_t n = 1 );

      // live heap blocks (0 when the hooks are not available)
      static int64_t liveBlocks();

      // Number of open descriptors of this process
      static int openDescriptors();

      std::string path( const std::string &name ) const
      {
         return scratch + "/" + name;
      }

      // Run with body being repeated: fails if every repetition leaves more heap blocks behind
      void noLeak( const std::function<void()> &body );

      // internal
      void runOne( const std::string &key, const std::function<void()> &body );
      void finish();
      uint64_t idx = 0;
      int shard = 0, nshards = 1;
      uint64_t resume = 0;
      std::string replayKey;
      bool found = false;
      std::string replayMsg;
      std::string outDir;
      void *shm = nullptr;
      std::unordered_set<uint64_t> states_, outcomes_;
      std::map<std::string, std::string> outcomeSample_;
      std::map<std::string, uint64_t> counters_;
      std::vector<std::string> samples_;
      uint64_t ran_ = 0, transitions_ = 0;
      int violations_ = 0;
      double caseLimit = 20; // CPU seconds
      bool capped_ = false;
      struct Known
      {
         std::string id;
         bool hasKey, hasMsg;
         std::regex key, msg;
         bool reported = false;
      };
      std::vector<Known> known_;
   };

   // The harness provides this
   void enumerate( Run &r );
}

#define CHECK( cond, ... )                                                                         \
   do                                                                                              \
   {                                                                                               \
      if ( !( cond ) )                                                                             \
         ::vh::fail( __VA_ARGS__ );                                                                \
   } while ( 0 )
