// P06: a blob behaves as a fixed-size array of bytes.
//
// The model is a vector of zero bytes. Every case runs a script of writes, reads and refused
// accesses against blobs of a real file, compares each step with the model, and compares the
// content again after the file was closed, with the library and with the independent decoder.
#include "ref57.hpp"
#include "trees.hpp"

using namespace vh;

namespace
{
   struct Iv
   {
      size_t at, n;
   };
   std::string id( const Iv &v )
   {
      return fmt( "%zu+%zu", v.at, v.n );
   }
   // All intervals between two of the points
   std::vector<Iv> intervals( const std::vector<size_t> &points )
   {
      std::vector<Iv> out;
      for ( size_t a = 0; a < points.size(); ++a )
         for ( size_t b = a + 1; b < points.size(); ++b )
            out.push_back( { points[a], points[b] - points[a] } );
      return out;
   }

   const std::string badArg = std::to_string( e57::ErrorBadAPIArgument );

   struct Blob
   {
      e57::BlobNode node;
      std::vector<uint8_t> model;
      unsigned writes = 0;

      Blob( e57::ImageFile &f, size_t n ) : node( f, static_cast<int64_t>( n ) ), model( n, 0 )
      {
      }
      void write( Iv v, unsigned seed )
      {
         auto b = m::pattern( v.n, seed + 17 * ++writes );
         auto copy = b;
         node.write( b.data(), static_cast<int64_t>( v.at ), v.n );
         CHECK( b == copy, "write changed the caller's buffer" );
         std::copy( b.begin(), b.end(), model.begin() + static_cast<long>( v.at ) );
      }
      void read( Iv v ) const
      {
         readFrom( node, model, v );
      }
      static void readFrom( e57::BlobNode node, const std::vector<uint8_t> &model, Iv v )
      {
         std::vector<uint8_t> got( v.n + 32, 0xA5 );
         node.read( got.data() + 16, static_cast<int64_t>( v.at ), v.n );
         for ( size_t i = 0; i < v.n; ++i )
            CHECK( got[16 + i] == model[v.at + i], "byte %zu is %02x instead of %02x", v.at + i, got[16 + i], model[v.at + i] );
         for ( size_t i = 0; i < 16; ++i )
            CHECK( got[i] == 0xA5 && got[16 + v.n + i] == 0xA5, "read wrote outside the buffer" );
      }
      void all() const
      {
         CHECK( node.byteCount() == static_cast<int64_t>( model.size() ), "byteCount %lld", (long long)node.byteCount() );
         read( { 0, model.size() } );
      }
   };

   // Compare the closed file with the models of its blobs b0, b1, ...
   void verify( const std::string &p, const std::vector<std::vector<uint8_t>> &want, const std::vector<std::string> &paths )
   {
      {
         e57::ImageFile f( p, "r" );
         for ( size_t i = 0; i < want.size(); ++i )
         {
            e57::BlobNode b( f.root().get( paths[i] ) );
            CHECK( b.byteCount() == static_cast<int64_t>( want[i].size() ), "%s: byteCount %lld after reopening",
                   paths[i].c_str(), (long long)b.byteCount() );
            Blob::readFrom( b, want[i], { 0, want[i].size() } );
         }
         f.close();
      }
      try
      {
         auto d = ref::decode( m::slurp( p ) );
         for ( size_t i = 0; i < want.size(); ++i )
            for ( auto &k : d.root.kids )
               if ( k.name == paths[i] )
                  CHECK( k.bytes == want[i], "%s: other bytes in the file", paths[i].c_str() );
      }
      catch ( const ref::Bad &b )
      {
         fail( "the file is not well formed: %s", b.msg.c_str() );
      }
   }

   std::string content( const std::vector<Blob> &bs )
   {
      std::string s;
      for ( auto &b : bs )
         s += fmt( "%016llx ", (unsigned long long)hash( b.model.data(), b.model.size() ) );
      return s;
   }
}

void vh::enumerate( Run &r )
{
   // 1. every size, behind padding of several lengths: zeros at first, then written in one piece
   for ( size_t n = 0; n <= ( r.thorough ? 4200u : 2100u ); n += 4 )
      for ( size_t pad : { size_t( 0 ), size_t( 900 ), size_t( 945 ) } )
         r.test( [&] { return fmt( "size %zu..%zu pad=%zu", n, n + 3, pad ); },
                 [&] {
                    const std::string p = r.path( "a.e57" );
                    for ( size_t k = n; k < n + 4; ++k )
                    {
                       e57::ImageFile f( p, "w" );
                       std::vector<Blob> bs;
                       std::vector<std::string> names;
                       std::vector<std::vector<uint8_t>> want;
                       for ( size_t size : { pad, k, size_t( 7 ) } )
                       {
                          names.push_back( "b" + std::to_string( bs.size() ) );
                          bs.emplace_back( f, size );
                          f.root().set( names.back(), bs.back().node );
                       }
                       for ( auto &b : bs )
                          b.all();
                       for ( size_t i : { 2, 1, 0 } )
                       {
                          bs[i].write( { 0, bs[i].model.size() }, static_cast<unsigned>( i + k ) );
                          for ( auto &b : bs )
                             b.all();
                       }
                       for ( auto &b : bs )
                          want.push_back( b.model );
                       f.close();
                       verify( p, want, names );
                       r.state( fmt( "size %zu %s", pad, content( bs ).c_str() ) );
                       r.transitions( 12 );
                    }
                    r.outcome( fmt( "sizes %zu.. pad %zu", n, pad ) );
                 } );

   // 2. every offset of a small write and of a small read
   for ( size_t len : { size_t( 1 ), size_t( 3 ), size_t( 1020 ), size_t( 1021 ) } )
      for ( size_t at = 0; at < 2200; at += 20 )
         r.test( [&] { return fmt( "offset len=%zu at=%zu..%zu", len, at, at + 19 ); },
                 [&] {
                    const std::string p = r.path( "a.e57" );
                    e57::ImageFile f( p, "w" );
                    Blob b( f, 3300 );
                    f.root().set( "b", b.node );
                    b.write( { 0, 3300 }, 1 );
                    for ( size_t i = at; i < at + 20; ++i )
                    {
                       b.write( { i, len }, static_cast<unsigned>( i ) );
                       b.read( { i, len } );
                       b.read( { i ? i - 1 : 0, std::min<size_t>( len + 2, 3300 - i ) } );
                       b.all();
                       r.state( fmt( "offset %016llx", (unsigned long long)hash( b.model.data(), b.model.size() ) ) );
                       r.transitions( 4 );
                    }
                    f.close();
                    verify( p, { b.model }, { "b" } );
                    r.outcome( fmt( "writes of %zu at %zu", len, at ) );
                 } );

   // 3. all triples of writes over intervals around the page boundary, each triple on its own blob,
   //    the blobs of one file lying side by side; read in between
   {
      // a blob of 1100 bytes always contains a page boundary; where, depends on the padding
      const std::vector<size_t> points = r.thorough ? std::vector<size_t>{ 0, 1, 500, 955, 956, 957, 1099, 1100 }
                                                    : std::vector<size_t>{ 0, 1, 955, 956, 957, 1100 };
      const auto ivs = intervals( points );
      for ( auto &a : ivs )
         for ( auto &b : ivs )
            r.test( [&] { return fmt( "triple %s %s", id( a ).c_str(), id( b ).c_str() ); },
                    [&] {
                       const std::string p = r.path( "a.e57" );
                       e57::ImageFile f( p, "w" );
                       std::vector<Blob> bs;
                       std::vector<std::string> names;
                       std::vector<std::vector<uint8_t>> want;
                       // sections of 1116 bytes and padding of 920 repeat every 2036 = 2 pages - 4
                       for ( size_t k = 0; k < ivs.size(); ++k )
                       {
                          names.push_back( "b" + std::to_string( k ) );
                          bs.emplace_back( f, 1100 );
                          f.root().set( names.back(), bs.back().node );
                          e57::BlobNode fill( f, 904 + 4 );
                          f.root().set( "x" + std::to_string( k ), fill );
                       }
                       for ( auto &x : bs )
                          x.write( a, 3 );
                       for ( auto &x : bs )
                          x.write( b, 4 );
                       for ( size_t k = 0; k < ivs.size(); ++k )
                       {
                          bs[k].read( { 0, 1100 } );
                          bs[k].write( ivs[k], 5 );
                          bs[k].read( a );
                          bs[k].read( b );
                          bs[k].all();
                          r.state( fmt( "triple %016llx", (unsigned long long)hash( bs[k].model.data(), 1100 ) ) );
                          r.transitions( 7 );
                       }
                       for ( auto &x : bs )
                          want.push_back( x.model );
                       f.close();
                       verify( p, want, names );
                       r.outcome( fmt( "%s %s", id( a ).c_str(), id( b ).c_str() ) );
                    } );
   }

   // 4. all scripts over two adjacent blobs, a third one created on the way, and a compressed vector
   //    and an element added on the way
   {
      enum
      {
         W0,
         W0b,
         W1,
         W1b,
         New,
         W2,
         Records,
         Refused,
         NOps
      };
      const int depth = r.thorough ? 6 : 5;
      int total = 1;
      for ( int i = 0; i < depth; ++i )
         total *= NOps;
      for ( int script = 0; script < total; ++script )
         r.test( [&] {
            std::string s = "script ";
            for ( int i = 0, k = script; i < depth; ++i, k /= NOps )
               s += static_cast<char>( 'a' + k % NOps );
            return s; },
                 [&] {
                    const std::string p = r.path( "a.e57" );
                    e57::ImageFile f( p, "w" );
                    std::vector<Blob> bs;
                    std::vector<std::string> names;
                    auto add = [&]( size_t n ) {
                       names.push_back( "b" + std::to_string( bs.size() ) );
                       bs.emplace_back( f, n );
                       f.root().set( names.back(), bs.back().node );
                    };
                    add( 941 ); // ends 4 bytes from a page boundary with its padding
                    add( 1030 );
                    int cvs = 0;
                    for ( int i = 0, k = script; i < depth; ++i, k /= NOps )
                    {
                       switch ( k % NOps )
                       {
                          case W0:
                             bs[0].write( { 0, 941 }, 7 );
                             break;
                          case W0b:
                             bs[0].write( { 930, 11 }, 8 );
                             break;
                          case W1:
                             bs[1].write( { 0, 1 }, 9 );
                             break;
                          case W1b:
                             bs[1].write( { 990, 40 }, 10 );
                             break;
                          case New:
                             add( 13 );
                             break;
                          case W2:
                             bs.back().write( { 1, 11 }, 11 );
                             break;
                          case Records:
                          {
                             m::N cv = tree::smallCv( "v" + std::to_string( cvs++ ), 40 );
                             e57::Node n = m::create( f, cv );
                             f.root().set( cv.name, n );
                             m::writeRecords( e57::CompressedVectorNode( n ), f, cv, 7 );
                             break;
                          }
                          case Refused:
                          {
                             std::vector<uint8_t> junk( 64, 0xEE );
                             for ( auto &b : bs )
                             {
                                CHECK( m::attempt( [&] { b.node.write( junk.data(), -1, 5 ); } ) == badArg, "write at -1" );
                                CHECK( m::attempt( [&] { b.node.write( junk.data(), -16, 16 ); } ) == badArg, "write at -16" );
                                CHECK( m::attempt( [&] { b.node.write( junk.data(), static_cast<int64_t>( b.model.size() ) - 3, 4 ); } ) == badArg,
                                       "write behind the end" );
                                CHECK( m::attempt( [&] { b.node.write( junk.data(), static_cast<int64_t>( b.model.size() ), 1 ); } ) == badArg,
                                       "write at the end" );
                             }
                             break;
                          }
                       }
                       for ( auto &b : bs )
                          b.all();
                       r.transitions();
                       r.state( fmt( "script %d %s", cvs, content( bs ).c_str() ) );
                    }
                    std::vector<std::vector<uint8_t>> want;
                    for ( auto &b : bs )
                       want.push_back( b.model );
                    f.close();
                    verify( p, want, names );
                    r.outcome( fmt( "%zu blobs %d vectors", bs.size(), cvs ) );
                 } );
   }

   // 5. all (start, count) pairs at the limits, read and write
   {
      const size_t size = 1500;
      const int64_t n = size;
      const int64_t starts[] = { INT64_MIN, INT64_MIN + 1, INT64_MIN + n, -4096, -n - 1, -n, -1040, -17, -16, -15, -1, 0, 1, n - 1, n, n + 1,
                                 1024, 1020, 4096, INT32_MAX, static_cast<int64_t>( UINT32_MAX ), static_cast<int64_t>( UINT32_MAX ) + 1,
                                 INT64_MAX - n, INT64_MAX - 1, INT64_MAX };
      const size_t counts[] = { 0, 1, 2, 15, 16, 17, size - 1, size, size + 1, 1040, 4096, size_t( 1 ) << 32, ( size_t( 1 ) << 32 ) + 1,
                                SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX - size, SIZE_MAX - size + 1, SIZE_MAX - 15, SIZE_MAX - 1, SIZE_MAX };
      for ( int where = 0; where < 3; ++where ) // being written, unattached, reopened
         for ( int64_t s : starts )
            r.test( [&] { return fmt( "limits %d start=%lld", where, (long long)s ); },
                    [&] {
                       const std::string p = r.path( "a.e57" );
                       std::vector<uint8_t> model = m::pattern( size, 5 );
                       auto make = [&] {
                          e57::ImageFile f( p, "w" );
                          Blob before( f, 50 ), b( f, size ), after( f, 50 );
                          f.root().set( "x", before.node );
                          if ( where != 1 )
                             f.root().set( "b", b.node );
                          f.root().set( "y", after.node );
                          before.write( { 0, 50 }, 2 );
                          after.write( { 0, 50 }, 3 );
                          if ( where != 1 )
                          {
                             auto bytes = model;
                             b.node.write( bytes.data(), 0, size );
                             b.model = model;
                          }
                          else
                             model.assign( size, 0 );
                          std::vector<uint8_t> buf( 4200, 0x5A );
                          if ( where != 2 )
                             for ( size_t c : counts )
                             {
                                const bool inside = s >= 0 && s <= n && c <= size && static_cast<size_t>( s ) <= size - c;
                                const bool lenient = c == 0 && s == n;
                                const std::string rd = m::attempt( [&] { b.node.read( buf.data(), s, c ); } );
                                if ( !lenient )
                                   CHECK( rd == ( inside ? "ok" : badArg ), "read start=%lld count=%zu: %s", (long long)s, c, rd.c_str() );
                                const std::string wr = m::attempt( [&] {
                                   std::vector<uint8_t> w( 4200, 0xC3 );
                                   if ( inside )
                                      std::copy( model.begin() + s, model.begin() + s + static_cast<long>( c ), w.begin() );
                                   b.node.write( w.data(), s, c );
                                } );
                                if ( where == 1 )
                                   CHECK( wr == std::to_string( e57::ErrorNodeUnattached ) || ( !inside && wr == badArg ),
                                          "write to an unattached blob: %s", wr.c_str() );
                                else if ( !lenient )
                                   CHECK( wr == ( inside ? "ok" : badArg ), "write start=%lld count=%zu: %s", (long long)s, c, wr.c_str() );
                                r.transitions( 2 );
                                r.outcome( fmt( "%d read %s write %s", where, rd.c_str(), wr.c_str() ) );
                             }
                          before.all();
                          b.all();
                          after.all();
                          f.close();
                          verify( p, { before.model, after.model }, { "x", "y" } );
                          if ( where != 1 )
                             verify( p, { b.model }, { "b" } );
                       };
                       make();
                       if ( where == 2 )
                       {
                          e57::ImageFile f( p, "r" );
                          e57::BlobNode b( f.root().get( "b" ) );
                          for ( size_t c : counts )
                          {
                             const bool inside = s >= 0 && s <= n && c <= size && static_cast<size_t>( s ) <= size - c;
                             std::vector<uint8_t> buf( 4200, 0x5A );
                             const std::string rd = m::attempt( [&] { b.read( buf.data(), s, c ); } );
                             if ( !( c == 0 && s == n ) )
                                CHECK( rd == ( inside ? "ok" : badArg ), "read start=%lld count=%zu: %s", (long long)s, c, rd.c_str() );
                             if ( inside )
                                CHECK( std::equal( model.begin() + s, model.begin() + s + static_cast<long>( c ), buf.begin() ), "wrong bytes" );
                             const std::string wr = m::attempt( [&] { b.write( buf.data(), s, c ); } );
                             CHECK( wr == std::to_string( e57::ErrorFileReadOnly ), "write to a file opened for reading: %s", wr.c_str() );
                             r.transitions( 2 );
                             r.outcome( fmt( "%d read %s write %s", where, rd.c_str(), wr.c_str() ) );
                          }
                          f.close();
                          verify( p, { model }, { "b" } );
                       }
                       r.state( fmt( "limits %d %lld", where, (long long)s ) );
                    } );
      // sizes that no blob can have
      for ( int64_t bad : { int64_t( -1 ), int64_t( -15 ), int64_t( -16 ), int64_t( -17 ), int64_t( -1000 ), int64_t( INT64_MIN ),
                            static_cast<int64_t>( INT64_MIN + 1 ) } )
         r.test( [&] { return fmt( "badsize %lld", (long long)bad ); },
                 [&] {
                    const std::string p = r.path( "a.e57" );
                    e57::ImageFile f( p, "w" );
                    Blob a( f, 2000 );
                    f.root().set( "a", a.node );
                    a.write( { 0, 2000 }, 1 );
                    const std::string got = m::attempt( [&] { e57::BlobNode b( f, bad ); } );
                    CHECK( got == badArg, "a blob of %lld bytes: %s", (long long)bad, got.c_str() );
                    Blob c( f, 100 );
                    f.root().set( "c", c.node );
                    c.all();
                    c.write( { 0, 100 }, 2 );
                    a.all();
                    f.close();
                    verify( p, { a.model, c.model }, { "a", "c" } );
                    r.state( fmt( "badsize %lld", (long long)bad ) );
                 } );
   }

   // 6. reading scripts on a reopened file: all pairs of intervals, two blobs, all named policies
   {
      const auto ivs = intervals( { 0, 1, 955, 956, 957, 1975, 1976, 2100 } );
      for ( int policy : { 0, 25, 50, 100 } )
         for ( auto &a : ivs )
            r.test( [&] { return fmt( "reads policy=%d %s", policy, id( a ).c_str() ); },
                    [&] {
                       const std::string p = r.path( "a.e57" );
                       std::vector<std::vector<uint8_t>> want;
                       {
                          e57::ImageFile f( p, "w" );
                          for ( unsigned i = 0; i < 2; ++i )
                          {
                             Blob b( f, 2100 );
                             f.root().set( "b" + std::to_string( i ), b.node );
                             b.write( { 0, 2100 }, i );
                             want.push_back( b.model );
                          }
                          f.close();
                       }
                       e57::ImageFile f( p, "r", policy );
                       e57::BlobNode b0( f.root().get( "b0" ) ), b1( f.root().get( "b1" ) );
                       for ( auto &b : ivs )
                       {
                          Blob::readFrom( b0, want[0], a );
                          Blob::readFrom( b1, want[1], b );
                          Blob::readFrom( b0, want[0], b );
                          Blob::readFrom( b0, want[0], a );
                          r.transitions( 4 );
                          r.state( fmt( "reads %d %s %s", policy, id( a ).c_str(), id( b ).c_str() ) );
                       }
                       f.close();
                       r.outcome( fmt( "reads %s", id( a ).c_str() ) );
                    } );
   }

   // 7. blobs at every kind of place in the tree, several of each
   for ( int place = 0; place < 4; ++place )
      for ( size_t n : { size_t( 0 ), size_t( 1 ), size_t( 1019 ), size_t( 1020 ), size_t( 3000 ) } )
         r.test( [&] { return fmt( "place %d size=%zu", place, n ); },
                 [&] {
                    const std::string p = r.path( "a.e57" );
                    e57::ImageFile f( p, "w" );
                    std::vector<Blob> bs;
                    for ( int i = 0; i < 4; ++i )
                       bs.emplace_back( f, n );
                    e57::StructureNode s( f ), s2( f );
                    e57::VectorNode v( f, place == 2 );
                    std::vector<std::string> paths;
                    for ( int i = 0; i < 4; ++i )
                    {
                       const std::string nm = "q" + std::to_string( i );
                       if ( place == 0 )
                       {
                          s2.set( nm, bs[static_cast<size_t>( i )].node );
                          paths.push_back( "s/t/" + nm );
                       }
                       else if ( place < 3 )
                       {
                          v.append( bs[static_cast<size_t>( i )].node );
                          paths.push_back( "v/" + std::to_string( i ) );
                       }
                       else
                       {
                          e57::StructureNode x( f );
                          x.set( nm, bs[static_cast<size_t>( i )].node );
                          v = e57::VectorNode( f, true );
                          v.append( x );
                          s.set( "w" + std::to_string( i ), v );
                          paths.push_back( "s/w" + std::to_string( i ) + "/0/" + nm );
                       }
                    }
                    if ( place == 0 )
                       s.set( "t", s2 );
                    if ( place == 0 || place == 3 )
                       f.root().set( "s", s );
                    else
                       f.root().set( "v", v );
                    for ( unsigned i = 4; i-- > 0; )
                    {
                       bs[i].all();
                       bs[i].write( { 0, n }, i * 5 );
                       for ( auto &b : bs )
                          b.all();
                       r.transitions( 6 );
                    }
                    std::vector<std::vector<uint8_t>> want;
                    for ( auto &b : bs )
                       want.push_back( b.model );
                    f.close();
                    verify( p, want, paths );
                    r.state( fmt( "place %d %zu", place, n ) );
                    r.outcome( fmt( "place %d size %zu", place, n ) );
                 } );
}
