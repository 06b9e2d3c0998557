#include "shim.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <iterator>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace shim
{
   namespace
   {
      bool gOn = false, gData = false;
      bool gBusy = false;
      bool gSparse = false;
      bool gWrittenOnly = false;
      std::map<int64_t, int64_t> gHoles; // pages of zeros that were written: start, end
      unsigned char gZeroSum[4];
      constexpr size_t pageSize = 1024, pageData = 1020;
      bool zero( const char *p, size_t n )
      {
         return *p == 0 && memcmp( p, p + 1, n - 1 ) == 0;
      }
      // Pages of zeros behind the end of the file become holes
      bool writeHole( int fd, const void *buf, size_t n )
      {
         auto p = static_cast<const char *>( buf );
         if ( n != pageSize || !zero( p, pageData ) || memcmp( p + pageData, gZeroSum, 4 ) != 0 )
            return false;
         const int64_t at = syscall( SYS_lseek, fd, 0, SEEK_CUR ), end = syscall( SYS_lseek, fd, 0, SEEK_END );
         if ( at < end || at % static_cast<int64_t>( pageSize ) || syscall( SYS_ftruncate, fd, at + pageSize ) != 0 )
         {
            syscall( SYS_lseek, fd, at, SEEK_SET );
            return false;
         }
         syscall( SYS_lseek, fd, at + pageSize, SEEK_SET );
         auto it = gHoles.upper_bound( at );
         if ( it != gHoles.begin() && std::prev( it )->second == at )
            std::prev( it )->second = at + static_cast<int64_t>( pageSize );
         else
            gHoles[at] = at + static_cast<int64_t>( pageSize );
         return true;
      }
      bool isHole( int64_t at )
      {
         if ( !gWrittenOnly )
            return true;
         auto it = gHoles.upper_bound( at );
         return it != gHoles.begin() && at < std::prev( it )->second;
      }
      // ... and holes are read as pages of zeros with their checksum
      void readHoles( void *buf, int64_t at, int64_t n )
      {
         if ( at % static_cast<int64_t>( pageSize ) )
            return;
         auto p = static_cast<char *>( buf );
         for ( ; n >= static_cast<int64_t>( pageSize ); n -= pageSize, p += pageSize, at += pageSize )
            if ( zero( p, pageSize ) && isHole( at ) )
               memcpy( p + pageData, gZeroSum, 4 );
      }
      struct State
      {
         std::string prefix;
         std::vector<Call> calls;
         std::vector<Touch> touches;
         std::map<uint64_t, Mode> plan;
         bool from = false;
         uint64_t fromCall = 0;
         Kind fromKind = Write;
         Mode fromMode = Pass;
         uint64_t injected = 0;
         std::map<int, std::string> fds;
         std::map<int, std::pair<int64_t, size_t>> last; // last write per descriptor: position, length
         uint64_t n = 0;
      };
      State &S()
      {
         static State s;
         return s;
      }
      struct Busy
      {
         Busy()
         {
            gBusy = true;
         }
         ~Busy()
         {
            gBusy = false;
         }
      };
      bool tracked( const char *path )
      {
         return path && strncmp( path, S().prefix.c_str(), S().prefix.size() ) == 0;
      }
      // Number the call and tell which fault, if any, it gets
      Mode next( Kind k )
      {
         State &s = S();
         const uint64_t me = s.n++;
         auto it = s.plan.find( me );
         if ( it != s.plan.end() )
            return it->second;
         if ( s.from && me >= s.fromCall && ( k == s.fromKind ) )
            return s.fromMode;
         return Pass;
      }
      int64_t failErrno( Mode m )
      {
         errno = m == NoSpace ? ENOSPC : m == Interrupted ? EINTR : EIO;
         return -1;
      }
      bool isErr( Mode m )
      {
         return m == Error || m == NoSpace || m == Interrupted;
      }
      size_t cut( Mode m, size_t n )
      {
         switch ( m )
         {
            case Short:
               return n / 2;
            case ShortOne:
               return n > 1 ? 1 : 0;
            case ShortAllBut:
               return n ? n - 1 : 0;
            case Zero:
               return 0;
            default:
               return n;
         }
      }
      int doOpen( int dirfd, const char *path, int flags, mode_t mode )
      {
         if ( !gOn || gBusy )
            return static_cast<int>( syscall( SYS_openat, dirfd, path, flags, mode ) );
         Busy b;
         State &s = S();
         s.touches.push_back( { "open", path ? path : "", flags } );
         const bool destructive = ( flags & ( O_TRUNC | O_CREAT ) ) || ( flags & O_ACCMODE ) != O_RDONLY;
         if ( !tracked( path ) )
         {
            if ( destructive && path && strncmp( path, "/dev/", 5 ) != 0 &&
                 strncmp( path, "/proc/", 6 ) != 0 )
            {
               errno = EACCES; // recorded, not carried out
               return -1;
            }
            return static_cast<int>( syscall( SYS_openat, dirfd, path, flags, mode ) );
         }
         Mode m = next( Open );
         Call c;
         c.kind = Open;
         c.path = path;
         c.flags = flags;
         int r;
         if ( m != Pass )
         {
            ++s.injected;
            c.injected = true;
            r = static_cast<int>( failErrno( m ) );
         }
         else
            r = static_cast<int>( syscall( SYS_openat, dirfd, path, flags, mode ) );
         int e = errno;
         c.fd = r;
         c.result = r;
         if ( r >= 0 )
            s.fds[r] = path;
         s.calls.push_back( c );
         errno = e;
         return r;
      }
      int64_t doRead( int fd, void *buf, size_t n, int64_t off, bool positional )
      {
         auto raw = [&]( size_t k ) -> int64_t {
            if ( gSparse && !positional )
            {
               const int64_t at = syscall( SYS_lseek, fd, 0, SEEK_CUR );
               const int64_t r = syscall( SYS_read, fd, buf, k );
               const int e = errno;
               if ( at >= 0 && r > 0 )
                  readHoles( buf, at, r );
               errno = e;
               return r;
            }
            return positional ? syscall( SYS_pread64, fd, buf, k, off ) : syscall( SYS_read, fd, buf, k );
         };
         if ( !gOn || gBusy || !S().fds.count( fd ) )
            return raw( n );
         Busy b;
         State &s = S();
         Mode m = next( Read );
         Call c;
         c.kind = Read;
         c.fd = fd;
         c.asked = static_cast<int64_t>( n );
         c.offset = positional ? off : syscall( SYS_lseek, fd, 0, SEEK_CUR );
         int64_t r;
         int e = 0;
         if ( isErr( m ) )
         {
            r = failErrno( m );
            e = errno;
            c.injected = true;
            ++s.injected;
         }
         else
         {
            size_t k = cut( m, n );
            if ( k != n )
            {
               c.injected = true;
               ++s.injected;
            }
            r = k ? raw( k ) : 0;
            e = errno;
         }
         c.result = r;
         s.calls.push_back( c );
         errno = e;
         return r;
      }
      int64_t doWrite( int fd, const void *buf, size_t n, int64_t off, bool positional )
      {
         auto raw = [&]( size_t k ) -> int64_t {
            if ( gSparse && !positional && writeHole( fd, buf, k ) )
               return static_cast<int64_t>( k );
            return positional ? syscall( SYS_pwrite64, fd, buf, k, off )
                              : syscall( SYS_write, fd, buf, k );
         };
         if ( !gOn || gBusy || !S().fds.count( fd ) )
            return raw( n );
         Busy b;
         State &s = S();
         Mode m = next( Write );
         Call c;
         c.kind = Write;
         c.fd = fd;
         c.asked = static_cast<int64_t>( n );
         c.offset = positional ? off : syscall( SYS_lseek, fd, 0, SEEK_CUR );
         if ( gData )
            c.data.assign( static_cast<const char *>( buf ), static_cast<const char *>( buf ) + n );
         int64_t r;
         int e = 0;
         if ( isErr( m ) )
         {
            r = failErrno( m );
            e = errno;
            c.injected = true;
            ++s.injected;
         }
         else
         {
            size_t k = cut( m, n );
            if ( k != n )
            {
               c.injected = true;
               ++s.injected;
            }
            r = k ? raw( k ) : 0;
            e = errno;
            if ( r > 0 )
               s.last[fd] = { c.offset, static_cast<size_t>( r ) };
         }
         c.result = r;
         s.calls.push_back( c );
         errno = e;
         return r;
      }
      int64_t doSeek( int fd, int64_t off, int whence )
      {
         if ( !gOn || gBusy || !S().fds.count( fd ) )
            return syscall( SYS_lseek, fd, off, whence );
         Busy b;
         State &s = S();
         Mode m = next( Seek );
         Call c;
         c.kind = Seek;
         c.fd = fd;
         int64_t r;
         if ( m != Pass )
         {
            r = failErrno( m );
            c.injected = true;
            ++s.injected;
         }
         else
            r = syscall( SYS_lseek, fd, off, whence );
         int e = errno;
         c.offset = c.result = r;
         s.calls.push_back( c );
         errno = e;
         return r;
      }
      int doClose( int fd )
      {
         if ( !gOn || gBusy || !S().fds.count( fd ) )
            return static_cast<int>( syscall( SYS_close, fd ) );
         Busy b;
         State &s = S();
         Mode m = next( Close );
         Call c;
         c.kind = Close;
         c.fd = fd;
         if ( m == NoSpace && s.last.count( fd ) )
         {
            // what was written last did not reach the disk
            const std::vector<char> nothing( s.last[fd].second, 0 );
            syscall( SYS_pwrite64, fd, nothing.data(), nothing.size(), s.last[fd].first );
         }
         int r = static_cast<int>( syscall( SYS_close, fd ) ); // the descriptor is gone either way
         s.fds.erase( fd );
         s.last.erase( fd );
         if ( m != Pass )
         {
            r = static_cast<int>( failErrno( m ) );
            c.injected = true;
            ++s.injected;
         }
         int e = errno;
         c.result = r;
         s.calls.push_back( c );
         errno = e;
         return r;
      }
      int doRemove( const char *op, const char *path )
      {
         auto raw = [&]() -> int {
            int r = static_cast<int>( syscall( SYS_unlink, path ) );
            if ( r < 0 && errno == EISDIR && strcmp( op, "remove" ) == 0 )
               r = static_cast<int>( syscall( SYS_rmdir, path ) );
            return r;
         };
         if ( !gOn || gBusy )
            return raw();
         Busy b;
         State &s = S();
         s.touches.push_back( { op, path ? path : "", 0 } );
         if ( !tracked( path ) )
         {
            errno = EACCES; // recorded, not carried out
            return -1;
         }
         Mode m = next( Remove );
         Call c;
         c.kind = Remove;
         c.fd = -1;
         c.path = path;
         int r;
         if ( m != Pass )
         {
            r = static_cast<int>( failErrno( m ) );
            c.injected = true;
            ++s.injected;
         }
         else
            r = raw();
         int e = errno;
         c.result = r;
         s.calls.push_back( c );
         errno = e;
         return r;
      }
   }

   const char *kindName( Kind k )
   {
      static const char *n[] = { "open", "read", "write", "seek",   "close",
                                 "remove", "truncate", "sync", "rename", "stat" };
      return n[k];
   }
   const char *modeName( Mode m )
   {
      static const char *n[] = { "pass",  "EIO",      "ENOSPC", "EINTR",
                                 "short", "shortone", "allbut", "zero" };
      return n[m];
   }
   void start( const std::string &prefix, bool recordData )
   {
      State &s = S();
      s = State();
      s.prefix = prefix;
      gData = recordData;
      gBusy = false;
      gOn = true;
   }
   void stop()
   {
      gOn = false;
   }
   void sparseWrittenOnly( bool on )
   {
      gWrittenOnly = on;
      gHoles.clear();
   }
   void sparse( bool on, uint32_t zeroSum )
   {
      gSparse = on;
      for ( int i = 0; i < 4; ++i )
         gZeroSum[i] = static_cast<unsigned char>( zeroSum >> ( 24 - 8 * i ) );
   }
   std::vector<Call> &calls()
   {
      return S().calls;
   }
   uint64_t callCount()
   {
      return S().n;
   }
   void setFault( uint64_t call, Mode m )
   {
      S().plan[call] = m;
   }
   void setFaultFrom( uint64_t call, Kind k, Mode m )
   {
      State &s = S();
      s.from = true;
      s.fromCall = call;
      s.fromKind = k;
      s.fromMode = m;
   }
   void clearFaults()
   {
      S().plan.clear();
      S().from = false;
   }
   uint64_t injected()
   {
      return S().injected;
   }
   std::vector<Touch> &touches()
   {
      return S().touches;
   }
   std::vector<int> leaked()
   {
      std::vector<int> v;
      for ( auto &f : S().fds )
         v.push_back( f.first );
      return v;
   }
}

#define SHIM_OPEN( NAME )                                                                          \
   extern "C" int NAME( const char *path, int flags, ... )                                         \
   {                                                                                               \
      mode_t mode = 0;                                                                             \
      if ( flags & ( O_CREAT | O_TMPFILE ) )                                                       \
      {                                                                                            \
         va_list ap;                                                                               \
         va_start( ap, flags );                                                                    \
         mode = static_cast<mode_t>( va_arg( ap, int ) );                                          \
         va_end( ap );                                                                             \
      }                                                                                            \
      return shim::doOpen( AT_FDCWD, path, flags, mode );                                          \
   }
SHIM_OPEN( open )
SHIM_OPEN( open64 )
#define SHIM_OPENAT( NAME )                                                                        \
   extern "C" int NAME( int dirfd, const char *path, int flags, ... )                              \
   {                                                                                               \
      mode_t mode = 0;                                                                             \
      if ( flags & ( O_CREAT | O_TMPFILE ) )                                                       \
      {                                                                                            \
         va_list ap;                                                                               \
         va_start( ap, flags );                                                                    \
         mode = static_cast<mode_t>( va_arg( ap, int ) );                                          \
         va_end( ap );                                                                             \
      }                                                                                            \
      return shim::doOpen( dirfd, path, flags, mode );                                             \
   }
SHIM_OPENAT( openat )
SHIM_OPENAT( openat64 )
extern "C" int creat( const char *path, mode_t mode )
{
   return shim::doOpen( AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode );
}
extern "C" int creat64( const char *path, mode_t mode )
{
   return shim::doOpen( AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode );
}
extern "C" ssize_t read( int fd, void *b, size_t n )
{
   return shim::doRead( fd, b, n, 0, false );
}
extern "C" ssize_t pread( int fd, void *b, size_t n, off_t o )
{
   return shim::doRead( fd, b, n, o, true );
}
extern "C" ssize_t pread64( int fd, void *b, size_t n, off64_t o )
{
   return shim::doRead( fd, b, n, o, true );
}
extern "C" ssize_t write( int fd, const void *b, size_t n )
{
   return shim::doWrite( fd, b, n, 0, false );
}
extern "C" ssize_t pwrite( int fd, const void *b, size_t n, off_t o )
{
   return shim::doWrite( fd, b, n, o, true );
}
extern "C" ssize_t pwrite64( int fd, const void *b, size_t n, off64_t o )
{
   return shim::doWrite( fd, b, n, o, true );
}
extern "C" off_t lseek( int fd, off_t o, int w ) noexcept
{
   return shim::doSeek( fd, o, w );
}
extern "C" off64_t lseek64( int fd, off64_t o, int w ) noexcept
{
   return shim::doSeek( fd, o, w );
}
extern "C" int close( int fd )
{
   return shim::doClose( fd );
}
extern "C" int unlink( const char *p ) noexcept
{
   return shim::doRemove( "unlink", p );
}
extern "C" int remove( const char *p ) noexcept
{
   return shim::doRemove( "remove", p );
}
extern "C" int rename( const char *a, const char *b ) noexcept
{
   if ( shim::gOn && !shim::gBusy )
   {
      shim::Busy busy;
      shim::S().touches.push_back( { "rename", std::string( a ) + " -> " + b, 0 } );
      if ( !shim::tracked( a ) || !shim::tracked( b ) )
      {
         errno = EACCES;
         return -1;
      }
   }
   return static_cast<int>( syscall( SYS_rename, a, b ) );
}
extern "C" int ftruncate( int fd, off_t n ) noexcept
{
   if ( shim::gOn && !shim::gBusy && shim::S().fds.count( fd ) )
   {
      shim::Busy busy;
      shim::State &s = shim::S();
      shim::Mode m = shim::next( shim::Trunc );
      shim::Call c;
      c.kind = shim::Trunc;
      c.fd = fd;
      c.asked = n;
      int r;
      if ( m != shim::Pass )
      {
         r = static_cast<int>( shim::failErrno( m ) );
         c.injected = true;
         ++s.injected;
      }
      else
         r = static_cast<int>( syscall( SYS_ftruncate, fd, n ) );
      int e = errno;
      c.result = r;
      s.calls.push_back( c );
      errno = e;
      return r;
   }
   return static_cast<int>( syscall( SYS_ftruncate, fd, n ) );
}
extern "C" int ftruncate64( int fd, off64_t n ) noexcept
{
   return ftruncate( fd, n );
}

#include <dlfcn.h>
#include <netdb.h>
#include <sys/socket.h>

namespace
{
   FILE *shimFopen( const char *name, const char *path, const char *mode )
   {
      using F = FILE *(*)( const char *, const char * );
      auto real = reinterpret_cast<F>( dlsym( RTLD_NEXT, name ) );
      if ( shim::gOn && !shim::gBusy )
      {
         shim::Busy busy;
         const bool destructive = strpbrk( mode, "wa+" ) != nullptr;
         shim::S().touches.push_back( { "fopen", path ? path : "", destructive ? O_RDWR : O_RDONLY } );
         if ( destructive && !shim::tracked( path ) )
         {
            errno = EACCES;
            return nullptr;
         }
      }
      return real( path, mode );
   }
   void touchNet( const char *op, const std::string &what )
   {
      if ( shim::gOn && !shim::gBusy )
      {
         shim::Busy busy;
         shim::S().touches.push_back( { op, what, 0 } );
      }
   }
}
extern "C" FILE *fopen( const char *path, const char *mode )
{
   return shimFopen( "fopen", path, mode );
}
extern "C" FILE *fopen64( const char *path, const char *mode )
{
   return shimFopen( "fopen64", path, mode );
}
extern "C" int getaddrinfo( const char *node, const char *, const addrinfo *, addrinfo ** )
{
   touchNet( "getaddrinfo", node ? node : "" );
   return EAI_FAIL;
}
extern "C" int socket( int, int, int ) noexcept
{
   touchNet( "socket", "" );
   errno = EACCES;
   return -1;
}
