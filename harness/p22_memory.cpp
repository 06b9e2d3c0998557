// P22: reading from memory equals reading from a file.
//
// The same bytes are given to the library as a file and as a block of memory; everything that can
// be read, and every error, has to be the same. The block has exactly the size of the file, so that
// accesses outside of it are found, and must not change.
#include <sys/mman.h>
#include <unistd.h>
#include <xercesc/util/PlatformUtils.hpp>

#include "refw57.hpp"
#include "scenes.hpp"
#include "simple.hpp"
#include "transcript.hpp"
#include "trees.hpp"
#include "vh.hpp"

using namespace vh;

namespace
{
   // A block of memory of exactly the size, which can not be written to
   class Block
   {
   public:
      explicit Block( const std::vector<char> &bytes ) : copy( bytes ), exact( new char[bytes.size() ? bytes.size() : 1] )
      {
         memcpy( exact.get(), bytes.data(), bytes.size() );
      }
      const char *data() const
      {
         return exact.get();
      }
      void unchanged() const
      {
         CHECK( memcmp( exact.get(), copy.data(), copy.size() ) == 0, "the memory is changed" );
      }

   private:
      const std::vector<char> &copy;
      std::unique_ptr<char[]> exact;
   };

   const int policies[] = { e57::CHECKSUM_POLICY_NONE, e57::CHECKSUM_POLICY_SPARSE, e57::CHECKSUM_POLICY_HALF, e57::CHECKSUM_POLICY_ALL, 1, 99 };

   void compare( Run &r, const std::vector<char> &bytes, const std::vector<int> &pols, const std::vector<size_t> &blocks )
   {
      const std::string path = r.path( "f.e57" );
      m::spit( path, bytes );
      for ( int p : pols )
         for ( size_t b : blocks )
         {
            Source file, memory;
            file.path = path;
            Block block( bytes );
            memory.memory = block.data();
            memory.size = bytes.size();
            const auto a = transcript( file, p, b );
            std::string c;
            r.noLeak( [&] {
               c.clear();
               c = transcript( memory, p, b );
            } );
            if ( a != c )
            {
               size_t at = 0;
               while ( at < a.size() && at < c.size() && a[at] == c[at] )
                  ++at;
               at = at > 30 ? at - 30 : 0;
               fail( "policy %d, block %zu: file gives ...%s, memory gives ...%s", p, b, a.substr( at, 80 ).c_str(),
                     c.substr( at, 80 ).c_str() );
            }
            block.unchanged();
            r.outcome( a.size() > 40 ? fmt( "%zx", hash( a ) ) : a );
            r.count( "comparisons" );
         }
   }

   std::vector<char> sceneBytes( Run &r, const std::string &name )
   {
      const std::string path = r.path( "scene.e57" );
      {
         scene::Play p;
         p.path = path;
         scene::set( p, name );
         for ( auto &s : p.steps )
            s.run();
      }
      return m::slurp( path );
   }
   uint64_t get64( const std::vector<char> &b, size_t at )
   {
      uint64_t v = 0;
      memcpy( &v, b.data() + at, 8 );
      return v;
   }
   void seal( std::vector<char> &b, size_t page )
   {
      const uint32_t crc = ref::crc32c( reinterpret_cast<const uint8_t *>( b.data() ) + page * 1024, 1020 );
      for ( int k = 0; k < 4; ++k )
         b[page * 1024 + 1020 + k] = static_cast<char>( crc >> ( 24 - 8 * k ) );
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();
   const std::vector<int> allPolicies( std::begin( policies ), std::end( policies ) );
   const std::vector<int> fewPolicies = { e57::CHECKSUM_POLICY_NONE, e57::CHECKSUM_POLICY_ALL };

   // documents of all shapes
   tree::all( r.thorough ? 4 : 3, [&]( const m::N &doc, const std::string &id ) {
      r.test( [&] { return "tree " + id; },
              [&] {
                 const std::string path = r.path( "t.e57" );
                 {
                    e57::ImageFile f( path, "w" );
                    m::writeDoc( f, doc );
                    f.close();
                 }
                 compare( r, m::slurp( path ), fewPolicies, { 0 } );
              } );
   } );

   for ( auto &scene : scene::names() )
   {
      const std::string name = scene;
      const auto bytes = sceneBytes( r, name );
      const size_t pages = bytes.size() / 1024;
      const auto sub = [&]( const std::string &what, std::function<std::vector<char>()> make, const std::vector<int> &pols,
                            const std::vector<size_t> &blocks ) {
         r.test( [&] { return name + " " + what; }, [&] { compare( r, make(), pols, blocks ); } );
      };
      sub( "as it is", [&] { return bytes; }, allPolicies, { 0, 1, 3 } );
      // every length: whole pages, and some that are not
      const size_t stride = r.thorough || pages < 200 ? 1 : pages / 100;
      for ( size_t n = 0; n <= pages + 2; n += n < 8 || n + 8 > pages ? 1 : stride )
         for ( int odd : { 0, -1, 1, 512 } )
         {
            const int64_t size = static_cast<int64_t>( n * 1024 ) + odd;
            if ( size < 0 || ( odd != 0 && n > 4 && n + 3 < pages ) )
               continue;
            sub( fmt( "cut to %lld", (long long)size ),
                 [&] {
                    auto b = bytes;
                    b.resize( static_cast<size_t>( size ), 'z' );
                    return b;
                 },
                 fewPolicies, { 0 } );
            // with a header that says so
            if ( odd == 0 && n > 0 )
               sub( fmt( "cut to %lld with header", (long long)size ),
                    [&] {
                       auto b = bytes;
                       b.resize( static_cast<size_t>( size ), 'z' );
                       const uint64_t length = static_cast<uint64_t>( size );
                       memcpy( b.data() + 16, &length, 8 );
                       for ( size_t p = 0; p < n; ++p )
                          if ( p == 0 || p >= pages )
                             seal( b, p );
                       return b;
                    },
                    fewPolicies, { 0 } );
         }
      // damage in every page
      for ( size_t p = 0; p < pages; p += p < 8 || p + 8 > pages ? 1 : stride )
         for ( int where : { 0, 48, 700, 1020, 1023 } )
            sub( fmt( "page %zu damaged at %d", p, where ),
                 [&] {
                    auto b = bytes;
                    b[p * 1024 + static_cast<size_t>( where )] ^= 0x10;
                    return b;
                 },
                 where == 700 ? allPolicies : fewPolicies, { 0 } );
      // every number of the header
      for ( size_t field : { size_t( 8 ), size_t( 12 ), size_t( 16 ), size_t( 24 ), size_t( 32 ), size_t( 40 ) } )
         for ( int change = 0; change < 14; ++change )
            sub( fmt( "header %zu change %d", field, change ),
                 [&] {
                    auto b = bytes;
                    const uint64_t old = get64( b, field );
                    const uint64_t values[] = { 0,           1,          old + 1,    old - 1,  old + 4,  old + 1024, old - 1024,
                                                bytes.size(), bytes.size() - 4, bytes.size() + 1024, UINT64_MAX, uint64_t( 1 ) << 63,
                                                ( uint64_t( 1 ) << 63 ) - 1, uint64_t( 1 ) << 32 };
                    memcpy( b.data() + field, &values[change], field < 16 ? 4 : 8 );
                    seal( b, 0 );
                    return b;
                 },
                 fewPolicies, { 0 } );
      // every number of the XML section that says where something is
      if ( !r.thorough && pages > 200 )
         continue;
      const std::string xml = [&] {
         std::string logical;
         for ( size_t p = 0; p < pages; ++p )
            logical.append( bytes.data() + p * 1024, 1020 );
         const uint64_t start = get64( bytes, 24 );
         return logical.substr( start / 1024 * 1020 + start % 1024, get64( bytes, 32 ) );
      }();
      for ( const char *attribute : { "fileOffset=\"", "length=\"", "recordCount=\"" } )
         for ( size_t at = xml.find( attribute ), nth = 0; at != std::string::npos; at = xml.find( attribute, at + 1 ), ++nth )
         {
            const size_t from = at + strlen( attribute ), to = xml.find( '"', from );
            const long long old = atoll( xml.substr( from, to - from ).c_str() );
            const std::vector<long long> values = { 0,
                                                    1,
                                                    old - 1,
                                                    old + 1,
                                                    old + 4,
                                                    old - 4,
                                                    old + 1024,
                                                    old - 1024,
                                                    static_cast<long long>( bytes.size() ),
                                                    static_cast<long long>( bytes.size() ) - 16,
                                                    static_cast<long long>( bytes.size() ) - 32,
                                                    static_cast<long long>( bytes.size() ) - 1020,
                                                    static_cast<long long>( bytes.size() ) + 1,
                                                    static_cast<long long>( bytes.size() ) * 1000,
                                                    1020,
                                                    1023,
                                                    -1,
                                                    -1024,
                                                    INT64_MAX,
                                                    INT64_MIN };
            for ( size_t v = 0; v < values.size(); ++v )
               sub( fmt( "%s%zu value %zu", attribute, nth, v ),
                    [&] {
                       // the text is replaced at the end of the file
                       std::string changed = xml;
                       changed.replace( from, to - from, std::to_string( values[v] ) );
                       std::vector<uint8_t> logical;
                       for ( size_t p = 0; p < pages; ++p )
                          logical.insert( logical.end(), bytes.begin() + static_cast<long>( p ) * 1024,
                                          bytes.begin() + static_cast<long>( p ) * 1024 + 1020 );
                       const uint64_t start = get64( bytes, 24 );
                       logical.resize( start / 1024 * 1020 + start % 1024 );
                       logical.insert( logical.end(), changed.begin(), changed.end() );
                       while ( logical.size() % 1020 )
                          logical.push_back( 0 );
                       refw::put64( logical, 16, logical.size() / 1020 * 1024 );
                       refw::put64( logical, 32, changed.size() );
                       return ref::pack( logical );
                    },
                    fewPolicies, { 0, 3 } );
         }
   }

   // short scripts of reads
   {
      m::Col col, text;
      col.path = "i", text.path = "s", text.type = m::T::String;
      for ( int k = 0; k < 200; ++k )
         col.i.push_back( k ), text.s.push_back( std::string( 400, static_cast<char>( 'a' + k % 26 ) ) );
      const m::N doc =
         m::structure( "", { m::blob( "b", m::pattern( 3000 ) ),
                             m::cv( "v", m::structure( "", { m::integer( "i", 0, 0, 300 ), m::str( "s" ) } ), { col, text } ) } );
      struct Op
      {
         const char *name;
         int kind;
         int64_t start;
         size_t count;
      };
      const std::vector<Op> ops = { { "blob 0+3000", 0, 0, 3000 },   { "blob 990+50", 0, 990, 50 },  { "blob 2999+1", 0, 2999, 1 },
                                    { "blob 2999+2", 0, 2999, 2 },   { "blob -1+1", 0, -1, 1 },      { "blob 3000+0", 0, 3000, 0 },
                                    { "records 1", 1, 0, 1 },        { "records 130", 1, 0, 130 },   { "close reader", 2, 0, 0 },
                                    { "tree", 3, 0, 0 },             { "close", 4, 0, 0 },           { "copy", 5, 0, 0 } };
      const size_t depth = r.thorough ? 5 : 4;
      std::vector<size_t> seq;
      std::vector<char> bytes;
      std::function<void()> extend = [&] {
         if ( seq.size() == depth )
         {
            r.test( [&] {
               std::string key = "script";
               for ( size_t k : seq )
                  key += std::string( ", " ) + ops[k].name;
               return key;
            },
                    [&] {
                       const std::string path = r.path( "s.e57" );
                       if ( bytes.empty() )
                       {
                          e57::ImageFile f( path, "w" );
                          m::writeDoc( f, doc );
                          f.close();
                          bytes = m::slurp( path );
                       }
                       Block block( bytes );
                       std::string logs[2];
                       for ( int side = 0; side < 2; ++side )
                       {
                          Source s;
                          s.path = path;
                          if ( side )
                             s.memory = block.data(), s.size = bytes.size();
                          std::unique_ptr<e57::ImageFile> f( new e57::ImageFile( s.open( e57::CHECKSUM_POLICY_ALL ) ) );
                          e57::BlobNode b( f->root().get( "b" ) );
                          e57::CompressedVectorNode v( f->root().get( "v" ) );
                          std::unique_ptr<e57::CompressedVectorReader> cr;
                          std::unique_ptr<m::Buf> bi, bs;
                          std::vector<e57::SourceDestBuffer> list;
                          std::string &log = logs[side];
                          for ( size_t k : seq )
                          {
                             const Op &o = ops[k];
                             log += m::attempt( [&] {
                                switch ( o.kind )
                                {
                                   case 0:
                                   {
                                      std::vector<uint8_t> got( 3100, 0xAA );
                                      const auto code = m::attempt( [&] { b.read( got.data(), o.start, o.count ); } );
                                      log += code + fmt( "%zx ", hash( std::string( got.begin(), got.end() ) ) );
                                      break;
                                   }
                                   case 1:
                                   {
                                      std::unique_ptr<m::Buf> ni( new m::Buf( e57::Int32, o.count ) ), ns( new m::Buf( e57::UString, o.count ) );
                                      std::vector<e57::SourceDestBuffer> next = { ni->sdb( *f, "i", true, false ),
                                                                                  ns->sdb( *f, "s", false, false ) };
                                      if ( !cr )
                                         cr.reset( new e57::CompressedVectorReader( v.reader( next ) ) );
                                      const size_t n = cr->read( next );
                                      log += fmt( "%zu:", n );
                                      for ( size_t x = 0; x < n; ++x )
                                         log += fmt( "%lld%c", (long long)ni->getInt( x ), ns->strs[x][0] );
                                      bi = std::move( ni ), bs = std::move( ns ), list = next;
                                      break;
                                   }
                                   case 2:
                                      if ( cr )
                                         cr->close();
                                      cr.reset();
                                      break;
                                   case 3:
                                      log += m::show( m::observe( f->root(), false ) );
                                      break;
                                   case 4:
                                      f->close();
                                      break;
                                   default:
                                      f.reset( new e57::ImageFile( *f ) );
                                }
                             } ) + ";";
                          }
                          log += m::attempt( [&] { log += fmt( "%d %d %d", f->isOpen(), f->readerCount(), f->writerCount() ); } );
                       }
                       CHECK( logs[0] == logs[1], "file: %.200s memory: %.200s", logs[0].c_str(), logs[1].c_str() );
                       block.unchanged();
                       r.outcome( fmt( "%zx", hash( logs[0] ) ) );
                    } );
            return;
         }
         for ( size_t k = 0; k < ops.size(); ++k )
         {
            seq.push_back( k );
            extend();
            seq.pop_back();
         }
      };
      extend();
   }
}
