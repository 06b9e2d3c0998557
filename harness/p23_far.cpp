// P23: content beyond 2 GiB and 4 GiB is written and read like any other.
//
// Pages of zeros are kept as holes of the file (shim::sparse), so that files of any size take little
// space. Far content comes from the independent writer, and from the library itself, which has to
// get there by extending the file.
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include "refw57.hpp"
#include "shim.hpp"
#include "trees.hpp"

using namespace vh;
using fld::Field;

namespace
{
   constexpr uint64_t G2 = uint64_t( 1 ) << 31, G4 = uint64_t( 1 ) << 32;

   const std::vector<e57::ReadChecksumPolicy> policies = { e57::ChecksumPolicy::ChecksumNone, 50,
                                                           e57::ChecksumPolicy::ChecksumAll };

   void place( const std::string &path, const std::vector<char> &bytes, uint64_t from, uint64_t farPages )
   {
      const int fd = open( path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 );
      CHECK( fd >= 0, "cannot create %s", path.c_str() );
      bool ok = pwrite( fd, bytes.data(), from * 1024, 0 ) == static_cast<ssize_t>( from * 1024 );
      const size_t rest = bytes.size() - from * 1024;
      ok = ok && pwrite( fd, bytes.data() + from * 1024, rest, static_cast<off_t>( ( from + farPages ) * 1024 ) ) ==
                    static_cast<ssize_t>( rest );
      ok = ok && ftruncate( fd, static_cast<off_t>( bytes.size() + farPages * 1024 ) ) == 0;
      close( fd );
      CHECK( ok, "cannot write %s", path.c_str() );
   }

   uint64_t toLogical( uint64_t physical )
   {
      return physical / 1024 * 1020 + std::min<uint64_t>( physical % 1024, 1020 );
   }

   // A file given by some of its logical bytes
   struct Sparse
   {
      std::map<uint64_t, std::vector<uint8_t>> pages;
      void put( uint64_t at, const void *data, size_t n )
      {
         auto p = static_cast<const uint8_t *>( data );
         for ( size_t i = 0; i < n; ++i, ++at )
         {
            auto &page = pages[at / 1020];
            page.resize( 1020, 0 );
            page[at % 1020] = p[i];
         }
      }
      void put( uint64_t at, const std::vector<uint8_t> &v )
      {
         put( at, v.data(), v.size() );
      }
      void header( uint64_t total, uint64_t xmlAt, uint64_t xmlLength )
      {
         std::vector<uint8_t> h( 48, 0 );
         memcpy( h.data(), "ASTM-E57", 8 );
         refw::put32( h, 8, 1 );
         refw::put64( h, 16, total * 1024 );
         refw::put64( h, 24, ref::toPhysical( xmlAt ) );
         refw::put64( h, 32, xmlLength );
         refw::put64( h, 40, 1024 );
         put( 0, h );
      }
      void write( const std::string &path, uint64_t total )
      {
         const int fd = open( path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 );
         CHECK( fd >= 0 && ftruncate( fd, static_cast<off_t>( total * 1024 ) ) == 0, "cannot create %s", path.c_str() );
         for ( auto &p : pages )
         {
            const auto v = ref::pack( p.second );
            CHECK( pwrite( fd, v.data(), 1024, static_cast<off_t>( p.first * 1024 ) ) == 1024, "cannot write" );
         }
         close( fd );
      }
   };

   const char *const xmlHead = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<e57Root type=\"Structure\" "
                               "xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\">\n";

   // Number of pages such that the next page starts at or just before the offset
   uint64_t pagesTo( uint64_t physical, uint64_t from, uint64_t before )
   {
      return physical / 1024 - from - before;
   }

   void farMemory( Run &r, const m::N &doc, const std::string &p );

   void farDocument( Run &r, const m::N &doc, const refw::Layout &layout )
   {
      refw::Marks marks;
      const auto bytes = refw::write( doc, layout, &marks );
      const std::string p = r.path( "far.e57" );
      place( p, bytes, marks.farFrom, layout.farPages );
      for ( auto policy : policies )
      {
         e57::ImageFile f( p, "r", policy );
         const std::string d = m::diff( doc, m::observeFile( f, true, 100 ) );
         CHECK( d.empty(), "policy %d: written vs read: %s", policy, d.c_str() );
         f.close();
         r.count( "far documents read" );
      }
      farMemory( r, doc, p );
      r.transitions();
   }

   // The same from memory
   void farMemory( Run &r, const m::N &doc, const std::string &p )
   {
      const int fd = open( p.c_str(), O_RDONLY );
      const auto size = static_cast<size_t>( lseek( fd, 0, SEEK_END ) );
      void *at = mmap( nullptr, size, PROT_READ, MAP_SHARED | MAP_NORESERVE, fd, 0 );
      close( fd );
      CHECK( at != MAP_FAILED, "cannot map %zu bytes", size );
      std::string d;
      std::string res = m::attempt( [&] {
         e57::ImageFile f( static_cast<const char *>( at ), size );
         d = m::diff( doc, m::observeFile( f, true, 100 ) );
         f.close();
      } );
      munmap( at, size );
      CHECK( res == "ok", "from memory: %s", res.c_str() );
      CHECK( d.empty(), "from memory: written vs read: %s", d.c_str() );
      r.count( "far documents read from memory" );
   }

   // A blob with some bytes that are not zero
   void farBlob( Run &r, uint64_t size )
   {
      const uint64_t section = 1020 * 2 + 8; // logical
      Sparse s;
      const std::string xml = std::string( xmlHead ) +
                              fmt( "<b type=\"Blob\" fileOffset=\"%llu\" length=\"%llu\"/>\n</e57Root>\n",
                                   (unsigned long long)ref::toPhysical( section ), (unsigned long long)size );
      s.put( 48, xml.data(), xml.size() );
      std::vector<uint8_t> h( 16, 0 );
      const uint64_t length = ( 16 + size + 3 ) / 4 * 4;
      refw::put64( h, 8, length );
      s.put( section, h );
      std::vector<std::pair<uint64_t, std::vector<uint8_t>>> parts;
      std::vector<uint64_t> starts = { 0, size - 50 };
      // around the limits of the position in the blob and in the file
      for ( uint64_t limit : { G2, G4 } )
         for ( uint64_t edge : { limit, limit - section - 16, toLogical( limit ) - section - 16 } )
            if ( edge > 2000 && edge + 2000 < size )
               starts.push_back( edge - 1000 );
      std::sort( starts.begin(), starts.end() );
      unsigned seed = 1;
      for ( size_t i = 0; i < starts.size(); ++i )
      {
         const uint64_t at = starts[i];
         const size_t n = static_cast<size_t>( std::min<uint64_t>( at == size - 50 ? 50 : 2000, size - at ) );
         if ( i && at < parts.back().first + parts.back().second.size() )
            continue;
         parts.emplace_back( at, m::pattern( n, seed++ ) );
         s.put( section + 16 + at, parts.back().second );
      }
      const uint64_t total = ( section + length + 1019 ) / 1020;
      s.header( total, 48, xml.size() );
      const std::string p = r.path( "far.e57" );
      s.write( p, total );
      for ( auto policy : policies )
      {
         e57::ImageFile f( p, "r", policy );
         e57::BlobNode b( f.root().get( "b" ) );
         CHECK( static_cast<uint64_t>( b.byteCount() ) == size, "byteCount() is %lld", (long long)b.byteCount() );
         for ( auto &part : parts )
         {
            // from before to behind the part
            const uint64_t from = part.first >= 100 ? part.first - 100 : part.first;
            const uint64_t to = std::min( size, part.first + part.second.size() + 100 );
            std::vector<uint8_t> got( static_cast<size_t>( to - from ), 0xEE );
            b.read( got.data(), static_cast<int64_t>( from ), got.size() );
            for ( size_t i = 0; i < got.size(); ++i )
            {
               const uint64_t at = from + i;
               uint8_t want = 0;
               for ( auto &q : parts )
                  if ( at >= q.first && at - q.first < q.second.size() )
                     want = q.second[static_cast<size_t>( at - q.first )];
               CHECK( got[i] == want, "policy %d: byte %llu is %d, not %d", policy, (unsigned long long)at, got[i], want );
            }
            r.transitions();
         }
         std::vector<uint8_t> got( 100 );
         for ( int64_t start : { static_cast<int64_t>( size ) - 99, static_cast<int64_t>( size ), static_cast<int64_t>( size + G4 ) - 150 } )
            CHECK( m::attempt( [&] { b.read( got.data(), start, 100 ); } ) == "14", "a read of 100 bytes at %lld is not refused",
                   (long long)start );
         f.close();
      }
      r.count( "far blobs read" );
   }

   // More records than 32 bits can count, all the same
   void manyRecords( Run &r, uint64_t records, size_t capacity )
   {
      const uint64_t section = 1020 * 2;
      Sparse s;
      const std::string xml =
         std::string( xmlHead ) +
         fmt( "<v type=\"CompressedVector\" fileOffset=\"%llu\" recordCount=\"%llu\">\n<prototype type=\"Structure\">"
              "<i type=\"Integer\" minimum=\"-7\" maximum=\"-7\">-7</i><s type=\"ScaledInteger\" minimum=\"5\" maximum=\"5\" "
              "scale=\"0.5\" offset=\"1\">5</s></prototype>\n<codecs type=\"Vector\" allowHeterogeneousChildren=\"1\"/></v>\n"
              "</e57Root>\n",
              (unsigned long long)ref::toPhysical( section ), (unsigned long long)records );
      s.put( 48, xml.data(), xml.size() );
      std::vector<uint8_t> h( 32 + 12, 0 );
      h[0] = 1;
      refw::put64( h, 8, h.size() );
      refw::put64( h, 16, ref::toPhysical( section + 32 ) );
      h[32] = 1;
      refw::put16( h, 34, 11 );
      refw::put16( h, 36, 2 );
      s.put( section, h );
      s.header( 3, 48, xml.size() );
      const std::string p = r.path( "far.e57" );
      s.write( p, 3 );
      e57::ImageFile f( p, "r" );
      e57::CompressedVectorNode v( f.root().get( "v" ) );
      CHECK( static_cast<uint64_t>( v.childCount() ) == records, "childCount() is %lld", (long long)v.childCount() );
      std::vector<int64_t> i( capacity );
      std::vector<double> d( capacity );
      std::vector<e57::SourceDestBuffer> b;
      b.emplace_back( f, "i", i.data(), capacity );
      b.emplace_back( f, "s", d.data(), capacity, true, true );
      e57::CompressedVectorReader rd = v.reader( b );
      for ( int round = 0; round < 20; ++round )
      {
         std::fill( i.begin(), i.end(), 99 );
         std::fill( d.begin(), d.end(), 99 );
         const unsigned n = rd.read();
         CHECK( n == capacity, "read() number %d returned %u, capacity %zu", round, n, capacity );
         for ( size_t k = 0; k < capacity; ++k )
            CHECK( i[k] == -7 && d[k] == 3.5, "record %zu of read() number %d is %lld, %g", k, round, (long long)i[k], d[k] );
         r.transitions();
      }
      rd.close();
      f.close();
   }

   struct WrittenOnly
   {
      WrittenOnly()
      {
         shim::sparseWrittenOnly( true );
      }
      ~WrittenOnly()
      {
         shim::sparseWrittenOnly( false );
      }
   };

   // The library itself writes across the limits: big blobs lead up to each of them
   void written( Run &r, const std::vector<uint64_t> &limits )
   {
      const std::string p = r.path( "far.e57" );
      std::vector<m::N> vectors, blobs;
      std::vector<uint64_t> sizes;
      WrittenOnly only;
      const std::vector<Field> fs = { fld::Int( 0, 511 ), fld::Str(), fld::F64() };
      {
         e57::ImageFile f( p, "w" );
         e57::StructureNode root = f.root();
         uint64_t used = 48; // logical, kept low
         for ( size_t k = 0; k < limits.size(); ++k )
         {
            CHECK( limits[k] > used + 4000, "limits too close" );
            const uint64_t size = limits[k] - used - 3 * 1020;
            e57::BlobNode big( f, static_cast<int64_t>( size ) );
            root.set( fmt( "big%zu", k ), big );
            sizes.push_back( size );
            auto a = m::pattern( 700, static_cast<unsigned>( 10 + k ) ), z = m::pattern( 900, static_cast<unsigned>( 20 + k ) );
            big.write( a.data(), 0, a.size() );
            big.write( z.data(), static_cast<int64_t>( size - z.size() ), z.size() );
            // records on both sides of the limit
            m::N v = fld::doc( fs, 400, static_cast<unsigned>( k ) ).kids[0];
            v.name = fmt( "v%zu", k );
            vectors.push_back( v );
            e57::Node n = m::create( f, v );
            root.set( v.name, n );
            m::writeRecords( e57::CompressedVectorNode( n ), f, v, 90 );
            m::N b = m::blob( fmt( "b%zu", k ), m::pattern( 2500, static_cast<unsigned>( 30 + k ) ) );
            blobs.push_back( b );
            e57::BlobNode small( f, 2500 );
            root.set( b.name, small );
            small.write( b.bytes.data(), 0, 2500 );
            // at most this much is in use now: headers, padding, records, small blob
            used = limits[k] + 40 * 1020;
            r.transitions( 8 );
         }
         f.close();
      }
      for ( auto policy : policies )
      {
         e57::ImageFile f( p, "r", policy );
         for ( size_t k = 0; k < limits.size(); ++k )
         {
            e57::BlobNode big( f.root().get( fmt( "big%zu", k ) ) );
            CHECK( static_cast<uint64_t>( big.byteCount() ) == sizes[k], "byteCount() of big%zu is %lld", k, (long long)big.byteCount() );
            auto a = m::pattern( 700, static_cast<unsigned>( 10 + k ) ), z = m::pattern( 900, static_cast<unsigned>( 20 + k ) );
            a.resize( 1000, 0 );
            z.insert( z.begin(), 100, 0 );
            std::vector<uint8_t> g( 1000 );
            big.read( g.data(), 0, 1000 );
            CHECK( g == a, "policy %d: the start of big%zu differs", policy, k );
            big.read( g.data(), static_cast<int64_t>( sizes[k] - 1000 ), 1000 );
            CHECK( g == z, "policy %d: the end of big%zu differs", policy, k );
            for ( uint64_t at = sizes[k] / 16; at + 1000 < sizes[k] - 1000; at += sizes[k] / 16 )
            {
               std::fill( g.begin(), g.end(), 0xEE );
               big.read( g.data(), static_cast<int64_t>( at ), 1000 );
               CHECK( g == std::vector<uint8_t>( 1000, 0 ), "policy %d: big%zu has other bytes than zeros at %llu", policy, k,
                      (unsigned long long)at );
            }
            for ( auto *n : { &vectors[k], &blobs[k] } )
            {
               const std::string d = m::diff( *n, m::observe( f.root().get( n->name ), true, 64 ) );
               CHECK( d.empty(), "policy %d: %s written vs read: %s", policy, n->name.c_str(), d.c_str() );
            }
            r.transitions( 4 );
         }
         f.close();
      }
      // The header tells the truth
      const int fd = open( p.c_str(), O_RDONLY );
      uint64_t h[6];
      CHECK( fd >= 0 && pread( fd, h, 48, 0 ) == 48, "cannot read the header" );
      const uint64_t end = static_cast<uint64_t>( lseek( fd, 0, SEEK_END ) );
      char start[6] = {};
      const bool ok = pread( fd, start, 5, static_cast<off_t>( h[3] ) ) == 5;
      close( fd );
      CHECK( h[2] == end, "the file has %llu bytes, the header says %llu", (unsigned long long)end, (unsigned long long)h[2] );
      CHECK( ok && std::string( start ) == "<?xml", "no XML where the header says" );
      r.count( "far documents written" );
      unlink( p.c_str() );
   }
}

namespace
{
   // Records that take more than the limit: long strings of zeros
   void longSection( Run &r, uint64_t limit )
   {
      WrittenOnly only;
      const std::string p = r.path( "far.e57" );
      const size_t length = size_t( 1 ) << 24, n = static_cast<size_t>( limit / length + 2 );
      {
         e57::ImageFile f( p, "w" );
         e57::StructureNode proto( f );
         proto.set( "s", e57::StringNode( f ) );
         proto.set( "i", e57::IntegerNode( f, 0, 0, 1000 ) );
         e57::CompressedVectorNode v( f, proto, e57::VectorNode( f, true ) );
         f.root().set( "v", v );
         std::vector<e57::ustring> s( 1, e57::ustring( length, 0 ) );
         int64_t i = 0;
         std::vector<e57::SourceDestBuffer> b;
         b.emplace_back( f, "s", &s );
         b.emplace_back( f, "i", &i, 1 );
         e57::CompressedVectorWriter w = v.writer( b );
         for ( ; i < static_cast<int64_t>( n ); ++i )
            w.write( 1 );
         w.close();
         e57::BlobNode mark( f, 10 );
         f.root().set( "mark", mark );
         std::vector<uint8_t> m = m::pattern( 10, 3 );
         mark.write( m.data(), 0, 10 );
         f.close();
      }
      e57::ImageFile f( p, "r" );
      e57::CompressedVectorNode v( f.root().get( "v" ) );
      CHECK( v.childCount() == static_cast<int64_t>( n ), "childCount() is %lld", (long long)v.childCount() );
      std::vector<uint8_t> m( 10 );
      e57::BlobNode( f.root().get( "mark" ) ).read( m.data(), 0, 10 );
      CHECK( m == m::pattern( 10, 3 ), "the blob behind the records differs" );
      std::vector<e57::ustring> s( 1 );
      int64_t i = 0;
      std::vector<e57::SourceDestBuffer> b;
      b.emplace_back( f, "s", &s );
      b.emplace_back( f, "i", &i, 1 );
      const e57::ustring zeros( length, 0 );
      e57::CompressedVectorReader rd = v.reader( b );
      for ( size_t k = 0; k < n; ++k )
      {
         i = -1;
         CHECK( rd.read() == 1, "no record %zu", k );
         CHECK( i == static_cast<int64_t>( k ) && s[0] == zeros, "record %zu differs", k );
         r.transitions();
      }
      CHECK( rd.read() == 0, "too many records" );
      rd.close();
      f.close();
      unlink( p.c_str() );
   }
}

void vh::enumerate( Run &r )
{
   r.caseLimit = 400;
   const std::vector<uint8_t> zeros( 1020, 0 );
   shim::sparse( true, ref::crc32c( zeros.data(), zeros.size() ) );

   // The long cases first
   const auto L = []( uint64_t physical ) { return toLogical( physical ); };
   r.test( "written to 2^31 and 2^32", [&] { written( r, { L( G2 ), G2, L( G4 ), G4 } ); } );
   r.test( "one blob written to 2^32", [&] { written( r, { G4 + 10000 } ); } );
   r.test( "records written to 2^32", [&] { longSection( r, G4 ); } );
   if ( r.thorough )
   {
      r.test( "written to 2^33", [&] { written( r, { L( 2 * G4 ), 2 * G4 } ); } );
      r.test( "written to 3 * 2^31 and 2^34", [&] { written( r, { L( G2 * 3 ), 3 * G2, L( 4 * G4 ), 4 * G4 } ); } );
   }

   std::vector<uint64_t> limits = { G2, G4, 2 * G4, uint64_t( 1 ) << 40 };
   if ( r.thorough )
      for ( int b = 34; b < 43; ++b )
         limits.push_back( uint64_t( 1 ) << b );
   std::vector<uint64_t> edges;
   for ( auto l : limits )
   {
      edges.push_back( l );
      edges.push_back( ref::toPhysical( l ) / 1024 * 1024 ); // where the logical offset gets there
   }

   // Documents behind a gap that ends around each limit
   const std::vector<Field> fs = { fld::Int( 0, 511 ), fld::Str(), fld::F64(), fld::Int( -3, 3 ) };
   const std::vector<std::pair<const char *, m::N>> docs = {
      { "records", fld::doc( fs, 300, 2 ) },
      { "blob", m::structure( "", { m::blob( "b", m::pattern( 4000, 3 ) ) } ) },
      { "mixed", m::structure( "", { m::blob( "b", m::pattern( 1500, 3 ) ), fld::doc( fs, 70, 1 ).kids[0],
                                     m::str( "s", std::string( 1500, 'x' ) ), m::blob( "c", m::pattern( 1100, 4 ) ) } ) },
      { "tree", m::structure( "", { m::integer( "i", 7 ), m::str( "s", std::string( 2500, 'y' ) ) } ) },
   };
   for ( auto edge : edges )
      for ( uint64_t before = 0; before < 8; ++before )
         for ( bool xmlFirst : { false, true } )
            for ( auto &d : docs )
               for ( size_t packet : { 0, 200 } )
                  r.test( fmt( "far %s edge=%llu before=%llu xmlFirst=%d packet=%zu", d.first, (unsigned long long)edge,
                               (unsigned long long)before, xmlFirst, packet ),
                          [&] {
                             refw::Layout l;
                             l.xmlFirst = xmlFirst;
                             l.farPages = pagesTo( edge, 1, before );
                             l.gap = 12;
                             if ( packet )
                                l.cut = [&]( const std::vector<size_t> &n ) {
                                   auto v = refw::fixedCut( n, packet );
                                   refw::Packet index;
                                   index.type = 0;
                                   index.entries.emplace_back( 0, 0 );
                                   v.push_back( index );
                                   return v;
                                };
                             farDocument( r, d.second, l );
                             r.outcome( fmt( "far %s %llu", d.first, (unsigned long long)edge ) );
                          } );

   // Blobs of more than 4 GiB
   for ( auto l : limits )
      for ( int64_t delta = -5; delta <= 5; ++delta )
         r.test( fmt( "blob %llu%+lld", (unsigned long long)l, (long long)delta ), [&] {
            farBlob( r, l + static_cast<uint64_t>( delta ) );
            farBlob( r, l + static_cast<uint64_t>( delta ) + 100000 );
            r.outcome( fmt( "blob %llu", (unsigned long long)l ) );
         } );

   // Many records
   for ( int bits = 15; bits < 63; ++bits )
      for ( int64_t delta = -2; delta <= 2; ++delta )
         for ( size_t capacity : { 1, 100, 1500 } )
            r.test( fmt( "records 2^%d%+lld capacity=%zu", bits, (long long)delta, capacity ), [&] {
               manyRecords( r, ( uint64_t( 1 ) << bits ) + static_cast<uint64_t>( delta ), capacity );
               r.outcome( fmt( "records %d", bits ) );
            } );
}
