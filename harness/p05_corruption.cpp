// P05: corruption of a page is detected when its checksum is verified.
//
// A document is written once per case group; then pages of the file are changed in every
// enumerated way and the file is read completely.
#include <fcntl.h>
#include <unistd.h>

#include "ref57.hpp"
#include "trees.hpp"

using namespace vh;

namespace
{
   m::N document( size_t blobBytes )
   {
      m::N cv = fld::doc( { fld::Int( 0, 511 ), fld::F64(), fld::Str() }, 60, 2 ).kids[0];
      cv.name = "v";
      m::N d = m::structure( "", { m::blob( "b", m::pattern( blobBytes, 4 ) ), cv } );
      for ( int i = 0; i < 12; ++i )
         d.kids.push_back( m::str( "s" + std::to_string( i ), std::string( 60, static_cast<char>( 'a' + i ) ) ) );
      return d;
   }
   const m::N &small()
   {
      static const m::N d = document( 1500 );
      return d;
   }
   void produce( const std::string &p, const m::N &doc )
   {
      e57::ImageFile f( p, "w" );
      m::writeDoc( f, doc );
      f.close();
   }
   std::string readAll( const std::string &p, const m::N &doc, int policy )
   {
      return m::attempt( [&] {
         e57::ImageFile f( p, "r", policy );
         const std::string df = m::diff( doc, m::observeFile( f ) );
         CHECK( df.empty(), "changed data was delivered: %s", df.c_str() );
         f.close();
      } );
   }
   const std::string bad = std::to_string( e57::ErrorBadChecksum );

   // A file whose bytes are changed in place and restored
   struct Patch
   {
      int fd;
      std::vector<char> all;
      explicit Patch( const std::string &p ) : fd( ::open( p.c_str(), O_RDWR ) ), all( m::slurp( p ) )
      {
      }
      ~Patch()
      {
         ::close( fd );
      }
      void put( size_t at, const std::vector<char> &b )
      {
         CHECK( ::pwrite( fd, b.data(), b.size(), static_cast<off_t>( at ) ) == static_cast<ssize_t>( b.size() ), "pwrite" );
      }
      void restore( size_t at, size_t n )
      {
         put( at, { all.begin() + static_cast<long>( at ), all.begin() + static_cast<long>( at + n ) } );
      }
   };
}

void vh::enumerate( Run &r )
{
   // number of pages of the small document (the same in every process)
   size_t pages;
   {
      const std::string p = r.path( "n.e57" );
      produce( p, small() );
      pages = m::slurp( p ).size() / 1024;
   }

   // 1. every single bit
   for ( size_t at = 0; at < pages * 1024; at += 8 )
      r.test( [&] { return fmt( "bit bytes=%zu..%zu", at, at + 7 ); },
              [&] {
                 const std::string p = r.path( "a.e57" );
                 produce( p, small() );
                 Patch x( p );
                 for ( size_t i = at; i < at + 8; ++i )
                    for ( int b = 0; b < 8; ++b )
                    {
                       x.put( i, { static_cast<char>( x.all[i] ^ ( 1 << b ) ) } );
                       const std::string got = readAll( p, small(), e57::ChecksumAll );
                       CHECK( got == bad, "bit %d of byte %zu of the file changed: %s", b, i, got.c_str() );
                       r.count( "changes" );
                       r.outcome( fmt( "bit in page %zu byte %zu", i / 1024, i % 1024 ) );
                       x.restore( i, 1 );
                    }
                 CHECK( readAll( p, small(), e57::ChecksumAll ) == "ok", "restored file refused" );
              } );

   // 2. bursts of up to 32 bits: the first and last bit change, those between by a pattern
   const std::vector<int> lengths = r.thorough ? std::vector<int>{ 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32 }
                                               : std::vector<int>{ 9, 32 };
   for ( size_t page = 0; page < pages; ++page )
      for ( size_t from = 0; from < 1020; from += 20 )
         r.test( [&] { return fmt( "burst page=%zu from=%zu", page, from ); },
                 [&] {
                    const std::string p = r.path( "a.e57" );
                    produce( p, small() );
                    Patch x( p );
                    for ( size_t i = from; i < from + 20; i += r.thorough ? 1 : 4 )
                       for ( int len : lengths )
                          for ( unsigned pat : { 0xFFFFFFFFu, 0u, 0xAAAAAAAAu } )
                          {
                             const unsigned keep = len == 32 ? ~0u : ( 1u << len ) - 1;
                             const unsigned mask = ( ( pat | 1u | ( 1u << ( len - 1 ) ) ) & keep );
                             std::vector<char> b( 4 );
                             for ( int k = 0; k < 4; ++k )
                                b[static_cast<size_t>( k )] = static_cast<char>( x.all[page * 1024 + i + static_cast<size_t>( k )] ^
                                                            static_cast<char>( mask >> ( 8 * k ) ) );
                             x.put( page * 1024 + i, b );
                             const std::string got = readAll( p, small(), e57::ChecksumAll );
                             x.restore( page * 1024 + i, 4 );
                             CHECK( got == bad, "burst %08x at byte %zu of page %zu: %s", mask, i, page, got.c_str() );
                             r.count( "changes" );
                             r.outcome( fmt( "burst %08x in page %zu", mask, page ) );
                          }
                 } );

   // 3. the page replaced by any constant byte, with or without its checksum; shifted by one byte
   for ( size_t page = 0; page < pages; ++page )
      for ( int c = 0; c < 256; c += 8 )
         r.test( [&] { return fmt( "fill page=%zu byte=%d..%d", page, c, c + 7 ); },
                 [&] {
                    const std::string p = r.path( "a.e57" );
                    produce( p, small() );
                    Patch x( p );
                    for ( int k = c; k < c + 8; ++k )
                       for ( size_t n : { size_t( 1024 ), size_t( 1020 ) } )
                       {
                          std::vector<char> b( n, static_cast<char>( k ) );
                          x.put( page * 1024, b );
                          const std::string got = readAll( p, small(), e57::ChecksumAll );
                          x.restore( page * 1024, 1024 );
                          CHECK( got == bad, "page %zu filled with %02x (%zu bytes): %s", page, k, n, got.c_str() );
                          r.count( "changes" );
                          r.outcome( fmt( "fill %02x", k ) );
                       }
                 } );

   // 4. every policy value on intact files; a wrong checksum on an intact page never makes
   //    wrong data, is always seen with 100, never with 0
   for ( int policy = -3; policy <= 103; ++policy )
      for ( size_t page = 0; page <= pages; ++page )
         r.test( [&] { return fmt( "policy %d page=%zu", policy, page ); },
                 [&] {
                    const std::string p = r.path( "a.e57" );
                    produce( p, small() );
                    Patch x( p );
                    CHECK( readAll( p, small(), policy ) == "ok", "intact file refused" );
                    if ( page == pages )
                       return;
                    x.put( page * 1024 + 1021, { static_cast<char>( x.all[page * 1024 + 1021] ^ 4 ) } );
                    const std::string got = readAll( p, small(), policy );
                    CHECK( got == "ok" || got == bad, "unexpected error %s", got.c_str() );
                    if ( policy >= 100 )
                       CHECK( got == bad, "policy %d did not see a wrong checksum", policy );
                    if ( policy <= 0 )
                       CHECK( got == "ok", "policy %d verified a checksum", policy );
                    r.outcome( fmt( "policy %d page %zu: %s", policy, page, got.c_str() ) );
                 } );

   // 5. the named partial policies verify at least their share of the pages of a large blob read
   //    in one call, and always the last one
   for ( int policy : { 25, 50, 100 } )
      for ( size_t n : { size_t( 3 ), size_t( 4 ), size_t( 8 ), size_t( 33 ), size_t( 64 ) } )
         for ( size_t extra : { size_t( 0 ), size_t( 1 ), size_t( 500 ), size_t( 1019 ) } )
            r.test( [&] { return fmt( "share %d pages=%zu+%zu", policy, n, extra ); },
                    [&] {
                       const std::string p = r.path( "a.e57" );
                       // blob data starts behind the file header and the section header
                       const size_t bytes = 1020 - 48 - 16 + ( n - 1 ) * 1020 + extra;
                       const m::N doc = m::structure( "", { m::blob( "b", m::pattern( bytes, 9 ) ), m::str( "s", std::string( 3000, 'x' ) ) } );
                       produce( p, doc );
                       Patch x( p );
                       const size_t total = n + ( extra ? 1 : 0 );
                       size_t seen = 0;
                       bool last = false;
                       for ( size_t page = 1; page < total; ++page )
                       {
                          x.put( page * 1024 + 1021, { static_cast<char>( x.all[page * 1024 + 1021] ^ 4 ) } );
                          const std::string got = m::attempt( [&] {
                             e57::ImageFile f( p, "r", policy );
                             e57::BlobNode b( f.root().get( "b" ) );
                             std::vector<uint8_t> v( bytes );
                             b.read( v.data(), 0, v.size() );
                             CHECK( v == doc.kids[0].bytes, "wrong data" );
                             f.close();
                          } );
                          x.restore( page * 1024, 1024 );
                          CHECK( got == "ok" || got == bad, "unexpected error %s", got.c_str() );
                          seen += got == bad;
                          last = got == bad;
                       }
                       CHECK( last, "policy %d: the last page of the read was not verified", policy );
                       CHECK( ( seen + 1 ) * 100 >= static_cast<size_t>( policy ) * ( total - 1 ),
                              "policy %d verified only %zu of %zu pages", policy, seen, total - 1 );
                       r.outcome( fmt( "policy %d: %zu of %zu", policy, seen, total - 1 ) );
                    } );

   // 6. all orders of reading the items of a file with one damaged page: items elsewhere are
   //    delivered, an item touching the page is refused each time
   {
      m::N doc = m::structure( "" );
      for ( int i = 0; i < 3; ++i )
         doc.kids.push_back( m::blob( "b" + std::to_string( i ), m::pattern( 2040, static_cast<unsigned>( 20 + i ) ) ) );
      m::N cv = fld::doc( { fld::F64(), fld::Int( 0, 511 ) }, 300, 2 ).kids[0];
      doc.kids.push_back( cv );
      doc.kids.push_back( m::str( "pad", std::string( 2000, 'p' ) ) );
      const std::string q = r.path( "n6.e57" );
      produce( q, doc );
      const auto dec = ref::decode( m::slurp( q ) );
      const size_t np = m::slurp( q ).size() / 1024;
      for ( size_t page = 0; page < np; ++page )
         for ( int script = 0; script < 64; ++script )
            r.test( [&] { return fmt( "items page=%zu script=%d", page, script ); },
                    [&] {
                       const std::string p = r.path( "a.e57" );
                       produce( p, doc );
                       Patch x( p );
                       x.put( page * 1024 + 100, { static_cast<char>( x.all[page * 1024 + 100] ^ 1 ) } );
                       auto touches = [&]( size_t item ) {
                          for ( auto &s : dec.sections )
                             if ( s.what == "/" + doc.kids[item].name )
                                return s.start / 1020 <= page && page <= ( s.start + s.length - 1 ) / 1020;
                          return false;
                       };
                       const bool head = page == 0 || ( dec.xmlStart / 1020 <= page && page <= ( dec.xmlStart + dec.xml.size() - 1 ) / 1020 );
                       std::unique_ptr<e57::ImageFile> f;
                       const std::string opened = m::attempt( [&] { f.reset( new e57::ImageFile( p, "r" ) ); } );
                       CHECK( opened == ( head ? bad : "ok" ), "open: %s", opened.c_str() );
                       r.outcome( fmt( "page %zu open %s", page, opened.c_str() ) );
                       if ( !f )
                          return;
                       for ( int step = 0, s = script; step < 3; ++step, s /= 4 )
                       {
                          const size_t item = static_cast<size_t>( s % 4 );
                          const std::string got = m::attempt( [&] {
                             if ( item < 3 )
                             {
                                e57::BlobNode b( f->root().get( doc.kids[item].name ) );
                                std::vector<uint8_t> v( 2040 );
                                b.read( v.data(), 0, v.size() );
                                CHECK( v == doc.kids[item].bytes, "wrong bytes in %zu", item );
                             }
                             else
                             {
                                auto cols = m::readRecords( e57::CompressedVectorNode( f->root().get( "v" ) ), cv.kids[0], 50 );
                                for ( size_t i = 0; i < cols.size(); ++i )
                                   CHECK( m::diffCol( cv.cols[i], cols[i] ).empty(), "wrong records" );
                             }
                          } );
                          CHECK( got == ( touches( item ) ? bad : "ok" ), "item %zu: %s", item, got.c_str() );
                          r.transitions();
                       }
                       f->close();
                    } );
   }
}
