#include "vh.hpp"

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "E57Exception.h"
#include "shim.hpp"

extern "C" int __sanitizer_install_malloc_and_free_hooks( void ( * )( const volatile void *, size_t ),
                                                          void ( * )( const volatile void * ) )
   __attribute__( ( weak ) );
extern "C" const char *__asan_default_options()
{
   return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:"
          "detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=4096:"
          "malloc_context_size=12:quarantine_size_mb=16";
}
extern "C" const char *__ubsan_default_options()
{
   return "print_stacktrace=1:halt_on_error=1";
}

namespace vh
{
   namespace
   {
      struct Slot
      {
         std::atomic<uint64_t> current; // index of the case being run + 1, 0 when none
         std::atomic<uint64_t> next;    // where a restarted worker resumes
         std::atomic<uint64_t> ran;
         std::atomic<uint64_t> transitions;
         std::atomic<int> violations;
         std::atomic<int> done;
         char key[8192];
      };
      struct Shared
      {
         std::atomic<int> stop;
         std::atomic<double> deadline;
         std::atomic<uint64_t> total;
         Slot slots[64];
      };

      std::atomic<int64_t> gLive{ 0 };
      const int maxViolations = getenv( "VERIF_DEV" ) ? 1000 : 6;
      void onMalloc( const volatile void *, size_t )
      {
         gLive.fetch_add( 1, std::memory_order_relaxed );
      }
      void onFree( const volatile void *p )
      {
         if ( p )
            gLive.fetch_sub( 1, std::memory_order_relaxed );
      }
      double now()
      {
         timespec ts;
         clock_gettime( CLOCK_MONOTONIC, &ts );
         return ts.tv_sec + ts.tv_nsec * 1e-9;
      }
      std::string jstr( const std::string &s )
      {
         std::string o = "\"";
         for ( unsigned char c : s )
         {
            if ( c == '"' || c == '\\' )
            {
               o += '\\';
               o += static_cast<char>( c );
            }
            else if ( c < 0x20 || c >= 0x7f )
            {
               char b[8];
               snprintf( b, sizeof b, "\\u%04x", c );
               o += b;
            }
            else
               o += static_cast<char>( c );
         }
         return o + "\"";
      }
      void rmTree( const std::string &d )
      {
         if ( d.size() < 12 || d.find( "verif-" ) == std::string::npos )
            return;
         DIR *dir = opendir( d.c_str() );
         if ( !dir )
            return;
         while ( auto e = readdir( dir ) )
         {
            std::string n = e->d_name;
            if ( n == "." || n == ".." )
               continue;
            std::string p = d + "/" + n;
            struct stat st;
            if ( lstat( p.c_str(), &st ) == 0 && S_ISDIR( st.st_mode ) )
               rmTree( p );
            else
               unlink( p.c_str() );
         }
         closedir( dir );
         rmdir( d.c_str() );
      }
   }

   std::string fmt( const char *f, ... )
   {
      char b[4096];
      va_list ap;
      va_start( ap, f );
      vsnprintf( b, sizeof b, f, ap );
      va_end( ap );
      return b;
   }
   void fail( const char *f, ... )
   {
      char b[4096];
      va_list ap;
      va_start( ap, f );
      vsnprintf( b, sizeof b, f, ap );
      va_end( ap );
      throw Failure{ b };
   }

   int64_t Run::liveBlocks()
   {
      return gLive.load();
   }

   int Run::openDescriptors()
   {
      int n = 0;
      DIR *d = opendir( "/proc/self/fd" );
      if ( !d )
         return -1;
      while ( auto e = readdir( d ) )
         if ( e->d_name[0] != '.' )
            ++n;
      closedir( d );
      return n;
   }

   void Run::noLeak( const std::function<void()> &body )
   {
      int64_t minGrowth = INT64_MAX;
      for ( int i = 0; i < 4; ++i )
      {
         const int64_t a = liveBlocks();
         body();
         const int64_t g = liveBlocks() - a;
         if ( g <= 0 )
            return;
         minGrowth = std::min( minGrowth, g );
      }
      fail( "every repetition leaves at least %lld more heap blocks allocated",
            static_cast<long long>( minGrowth ) );
   }

   void Run::state( uint64_t h )
   {
      states_.insert( h );
   }
   void Run::transitions( uint64_t n )
   {
      transitions_ += n;
   }
   void Run::outcome( const std::string &s )
   {
      if ( outcomes_.insert( hash( s ) ).second && outcomeSample_.size() < 40 )
         outcomeSample_[s.substr( 0, 160 )] = "";
   }
   void Run::count( const std::string &n, uint64_t k )
   {
      counters_[n] += k;
   }

   namespace
   {
      constexpr int restartCode = 77;
      // What a harness does between cases may not go on forever either
      const char *const preparing = "(preparing)";
      void limitPreparation()
      {
         itimerval it{};
         it.it_value.tv_sec = 120;
         setitimer( ITIMER_PROF, &it, nullptr );
      }
      uint64_t residentBytes()
      {
         std::ifstream f( "/proc/self/statm" );
         uint64_t total = 0, resident = 0;
         f >> total >> resident;
         return resident * 4096;
      }
   }

   void Run::test( const std::function<std::string()> &key, const std::function<void()> &body )
   {
      const uint64_t me = idx++;
      if ( replaying )
      {
         if ( !found && key() == replayKey )
         {
            found = true;
            runOne( replayKey, body );
         }
         return;
      }
      if ( static_cast<int>( me % nshards ) != shard || me < resume )
         return;
      auto sh = static_cast<Shared *>( shm );
      if ( sh->stop || ( ( ran_ & 15 ) == 0 && now() > sh->deadline ) )
      {
         if ( now() > sh->deadline )
            capped_ = true;
         return;
      }
      if ( capped_ || violations_ >= maxViolations )
      {
         capped_ = true;
         return;
      }
      const std::string k = key();
      Slot &s = sh->slots[shard];
      s.next = me + 1;
      strncpy( s.key, k.c_str(), sizeof s.key - 1 );
      s.current = me + 1;
      if ( samples_.size() < 3 || ( me % 9973 == static_cast<uint64_t>( shard ) && samples_.size() < 6 ) )
         samples_.push_back( k );
      const uint64_t t0 = transitions_;
      runOne( k, body );
      s.current = 0;
      ++ran_;
      ++s.ran;
      s.transitions += transitions_ - t0;
      // Leaked memory must not end the whole run: go on in a new process
      if ( ( ran_ & 31 ) == 0 && residentBytes() > ( uint64_t( 5 ) << 29 ) )
      {
         finish();
         _exit( restartCode );
      }
   }

   void Run::runOne( const std::string &key, const std::function<void()> &body )
   {
      itimerval it{};
      it.it_value.tv_sec = static_cast<time_t>( caseLimit );
      setitimer( ITIMER_PROF, &it, nullptr );
      std::string msg;
      try
      {
         body();
      }
      catch ( const Failure &f )
      {
         msg = f.msg.empty() ? "failure" : f.msg;
      }
      catch ( const e57::E57Exception &e )
      {
         msg = std::string( "unexpected E57Exception: " ) +
               e57::Utilities::errorCodeToString( e.errorCode() ) + " " + e.context();
      }
      catch ( const std::exception &e )
      {
         msg = std::string( "unexpected exception: " ) + e.what();
      }
      catch ( ... )
      {
         msg = "unexpected exception of another type";
      }
      shim::stop(); // it would refuse the files written below
      limitPreparation();
      if ( msg.empty() )
         return;
      if ( replaying )
      {
         replayMsg = msg;
         return;
      }
      std::string id;
      for ( auto &k : known_ )
      {
         if ( ( !k.hasKey || std::regex_search( key, k.key ) ) &&
              ( !k.hasMsg || std::regex_search( msg, k.msg ) ) )
         {
            count( "known finding " + k.id );
            if ( k.reported )
               return;
            k.reported = true;
            id = k.id;
            break;
         }
      }
      if ( id.empty() )
         ++violations_;
      std::ofstream v( outDir + "/viol." + std::to_string( shard ) + ".jsonl", std::ios::app );
      v << "{\"key\":" << jstr( key ) << ",\"msg\":" << jstr( msg ) << ",\"known\":" << jstr( id )
        << "}\n";
      v.flush();
      if ( !v )
         abort(); // a violation must not get lost
   }

   void Run::finish()
   {
      std::ofstream o( outDir + "/stats." + std::to_string( shard ) + "-" + std::to_string( resume ) + ".json" );
      o << "{\"total\":" << idx << ",\"capped\":" << ( capped_ ? "true" : "false" )
        << ",\"counters\":{";
      bool first = true;
      for ( auto &c : counters_ )
      {
         o << ( first ? "" : "," ) << jstr( c.first ) << ":" << c.second;
         first = false;
      }
      o << "},\"samples\":[";
      first = true;
      for ( auto &s : samples_ )
      {
         o << ( first ? "" : "," ) << jstr( s );
         first = false;
      }
      o << "],\"outcome_samples\":[";
      first = true;
      for ( auto &s : outcomeSample_ )
      {
         o << ( first ? "" : "," ) << jstr( s.first );
         first = false;
      }
      o << "]}\n";
      auto dump = [&]( const char *n, const std::unordered_set<uint64_t> &set ) {
         std::vector<uint64_t> v( set.begin(), set.end() );
         std::ofstream b( outDir + "/" + n + "." + std::to_string( shard ) + ".bin",
                          std::ios::binary | std::ios::app );
         b.write( reinterpret_cast<const char *>( v.data() ), v.size() * 8 );
      };
      dump( "states", states_ );
      dump( "outcomes", outcomes_ );
   }

   namespace
   {
      int runWorker( Run &r, const std::string &log )
      {
         int fd = ::open( log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
         dup2( fd, 1 );
         dup2( fd, 2 );
         close( fd );
         signal( SIGPROF, SIG_DFL );
         rlimit rl{ 0, 0 };
         setrlimit( RLIMIT_CORE, &rl );
         mkdir( r.scratch.c_str(), 0700 );
         limitPreparation();
         enumerate( r );
         r.finish();
         return 0;
      }
      std::string slurp( const std::string &p, size_t max )
      {
         std::ifstream f( p, std::ios::binary );
         std::stringstream ss;
         ss << f.rdbuf();
         std::string s = ss.str();
         return s.substr( 0, max );
      }
      // The part of a sanitizer report that identifies the error
      std::string crashText( const std::string &log )
      {
         const std::string s = slurp( log, 400000 );
         for ( const char *mark : { "runtime error:", "ERROR: AddressSanitizer", "terminate called",
                                    "Assertion" } )
         {
            auto p = s.find( mark );
            if ( p != std::string::npos )
            {
               auto b = s.rfind( '\n', p );
               b = ( b == std::string::npos ) ? 0 : b + 1;
               std::string t = s.substr( b, 1200 );
               return t;
            }
         }
         return s.size() > 300 ? s.substr( s.size() - 300 ) : s;
      }
   }
}

using namespace vh;

int main( int argc, char **argv )
{
   std::string tier = "quick", out, scratch, replay, knownFile;
   bool doReplay = false, list = false;
   int jobs = 8;
   double budget = 700;
   for ( int i = 1; i < argc; ++i )
   {
      std::string a = argv[i];
      auto val = [&] { return std::string( i + 1 < argc ? argv[++i] : "" ); };
      if ( a == "--tier" )
         tier = val();
      else if ( a == "--out" )
         out = val();
      else if ( a == "--scratch" )
         scratch = val();
      else if ( a == "--jobs" )
         jobs = atoi( val().c_str() );
      else if ( a == "--budget" )
         budget = atof( val().c_str() );
      else if ( a == "--list" )
         list = true;
      else if ( a == "--known" )
         knownFile = val();
      else if ( a == "--replay" )
      {
         replay = val();
         doReplay = true;
      }
   }
   (void)list;
   std::vector<Run::Known> known;
   if ( !knownFile.empty() )
   {
      std::ifstream k( knownFile );
      std::string line;
      while ( std::getline( k, line ) )
      {
         const auto a = line.find( '\t' ), b = line.find( '\t', a + 1 );
         Run::Known f;
         f.id = line.substr( 0, a );
         const std::string key = line.substr( a + 1, b - a - 1 ), msg = line.substr( b + 1 );
         f.hasKey = !key.empty();
         f.hasMsg = !msg.empty();
         f.key = std::regex( key );
         f.msg = std::regex( msg );
         known.push_back( f );
      }
   }
   if ( __sanitizer_install_malloc_and_free_hooks )
      __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree );

   if ( doReplay )
   {
      Run r;
      r.tier = tier;
      r.thorough = tier == "thorough";
      r.replaying = true;
      r.replayKey = replay;
      r.scratch = scratch;
      r.caseLimit = 150;
      mkdir( r.scratch.c_str(), 0700 );
      signal( SIGPROF, SIG_DFL );
      limitPreparation();
      enumerate( r );
      if ( !r.found && replay != preparing )
      {
         printf( "REPLAY: no such case\n" );
         return 2;
      }
      if ( !r.replayMsg.empty() )
      {
         printf( "REPLAY: violation: %s\n", r.replayMsg.c_str() );
         return 3;
      }
      printf( "REPLAY: held\n" );
      return 0;
   }

   const double t0 = now();
   auto sh = static_cast<Shared *>(
      mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
   sh->deadline = t0 + budget;
   jobs = std::max( 1, std::min( jobs, 64 ) );
   std::vector<pid_t> pids( jobs, -1 );
   std::vector<int> restarts( jobs, 0 );
   int crashes = 0;
   bool stopped = false;
   auto start = [&]( int s ) {
      pid_t p = fork();
      if ( p == 0 )
      {
         Run r;
         r.tier = tier;
         r.thorough = tier == "thorough";
         r.shard = s;
         r.nshards = jobs;
         r.resume = sh->slots[s].next;
         r.shm = sh;
         r.outDir = out;
         r.known_ = known;
         r.scratch = scratch + "/w" + std::to_string( s );
         int rc = runWorker( r, out + "/log." + std::to_string( s ) );
         _exit( rc );
      }
      pids[s] = p;
   };
   mkdir( scratch.c_str(), 0700 );
   for ( int s = 0; s < jobs; ++s )
      start( s );
   int alive = jobs;
   std::ofstream cv( out + "/viol.crash.jsonl" );
   while ( alive > 0 )
   {
      int st = 0;
      pid_t p = wait( &st );
      if ( p < 0 )
         break;
      int s = -1;
      for ( int i = 0; i < jobs; ++i )
         if ( pids[i] == p )
            s = i;
      if ( s < 0 )
         continue;
      if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 )
      {
         --alive;
         continue;
      }
      if ( WIFEXITED( st ) && WEXITSTATUS( st ) == restartCode )
      {
         start( s );
         continue;
      }
      Slot &slot = sh->slots[s];
      const std::string text = crashText( out + "/log." + std::to_string( s ) );
      if ( slot.current == 0 )
      {
         // The library does not even do what the harness relies on to prepare its cases
         cv << "{\"key\":" << jstr( preparing ) << ",\"msg\":" << jstr( fmt( "died with status %x: ", st ) + text ) << "}\n";
         cv.flush();
         stopped = true;
         --alive;
         continue;
      }
      std::string what;
      if ( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGPROF )
         what = "hang: the case used its whole CPU time limit";
      else if ( WIFSIGNALED( st ) )
         what = fmt( "killed by signal %d: ", WTERMSIG( st ) ) + text;
      else
         what = fmt( "died with status %d: ", WEXITSTATUS( st ) ) + text;
      cv << "{\"key\":" << jstr( slot.key ) << ",\"msg\":" << jstr( what ) << "}\n";
      cv.flush();
      slot.current = 0;
      ++slot.ran;
      ++crashes;
      if ( ++restarts[s] > ( getenv( "VERIF_DEV" ) ? 1000 : 3 ) )
      {
         stopped = true;
         --alive;
         continue;
      }
      start( s );
   }
   uint64_t ran = 0, trans = 0;
   for ( int s = 0; s < jobs; ++s )
   {
      ran += sh->slots[s].ran;
      trans += sh->slots[s].transitions;
   }
   auto merged = [&]( const char *n ) {
      std::unordered_set<uint64_t> u;
      for ( int s = 0; s < jobs; ++s )
      {
         std::ifstream b( out + "/" + n + "." + std::to_string( s ) + ".bin", std::ios::binary );
         uint64_t x;
         while ( b.read( reinterpret_cast<char *>( &x ), 8 ) )
            u.insert( x );
      }
      return u.size();
   };
   std::ofstream o( out + "/summary.json" );
   o << "{\"ran\":" << ran << ",\"transitions\":" << trans << ",\"states\":" << merged( "states" )
     << ",\"outcomes\":" << merged( "outcomes" ) << ",\"crashes\":" << crashes
     << ",\"stopped\":" << ( stopped ? "true" : "false" ) << ",\"wall\":" << ( now() - t0 ) << "}\n";
   o.close();
   for ( int s = 0; s < jobs; ++s )
      rmTree( scratch + "/w" + std::to_string( s ) );
   return 0;
}
