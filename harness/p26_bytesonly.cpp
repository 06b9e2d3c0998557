// P26: what is read depends on nothing but the bytes of the file.
//
// Every file, as it is and with systematic changes, is read several times: while new memory is filled
// with zeros, with ones, and after other files. All that is delivered
// and every error must be the same, and no more records than the file has room for.
#include <algorithm>
#include <xercesc/util/PlatformUtils.hpp>

#include "fields.hpp"
#include "heapfill.hpp"
#include "refw57.hpp"
#include "scenes.hpp"
#include "transcript.hpp"
#include "trees.hpp"

using namespace vh;

namespace
{
   uint64_t get( const std::vector<uint8_t> &v, size_t at, size_t n )
   {
      uint64_t x = 0;
      for ( size_t i = 0; i < n; ++i )
         x |= uint64_t( v[at + i] ) << ( 8 * i );
      return x;
   }
   void put( std::vector<uint8_t> &v, size_t at, size_t n, uint64_t x )
   {
      for ( size_t i = 0; i < n; ++i )
         v[at + i] = static_cast<uint8_t>( x >> ( 8 * i ) );
   }

   // The number of records delivered in a row, taken from the transcript
   uint64_t delivered( const std::string &log )
   {
      uint64_t most = 0, sum = 0;
      for ( size_t at = log.find( '<' ); at != std::string::npos; at = log.find( '<', at + 1 ) )
      {
         if ( at + 1 >= log.size() || !isdigit( log[at + 1] ) )
            continue;
         const uint64_t n = strtoull( log.c_str() + at + 1, nullptr, 10 );
         sum = n ? sum + n : 0;
         most = std::max( most, sum );
      }
      return most;
   }

   // Read with different contents of memory. No field of the files takes less than a bit, except in
   // files where room is 0.
   void same( Run &r, const std::vector<char> &bytes, const std::string &what, int policy, size_t block, uint64_t room )
   {
      const std::string path = r.path( "f.e57" );
      m::spit( path, bytes );
      Source file;
      file.path = path;
      std::string first;
      for ( int fill : { 0x00, 0xFF } )
      {
         heapFill = fill;
         std::string log;
         try
         {
            log = transcript( file, policy, block );
         }
         catch ( ... )
         {
            heapFill = -1;
            throw;
         }
         heapFill = -1;
         r.count( "readings" );
         if ( fill == 0 )
         {
            first = log;
            if ( room )
               CHECK( delivered( log ) <= room, "%s: %llu records from a file of %zu bytes", what.c_str(),
                      (unsigned long long)delivered( log ), bytes.size() );
            continue;
         }
         if ( log != first )
         {
            size_t at = 0;
            while ( at < log.size() && at < first.size() && log[at] == first[at] )
               ++at;
            at = at > 30 ? at - 30 : 0;
            fail( "%s: ...%s or ...%s, depending on the content of memory", what.c_str(), first.substr( at, 80 ).c_str(),
                  log.substr( at, 80 ).c_str() );
         }
      }
      r.outcome( first.size() > 40 ? fmt( "%zx", hash( first ) ) : first );
   }

   struct Field
   {
      std::string name;
      size_t at, n;
   };
   std::vector<Field> fieldsOf( const std::vector<uint8_t> &logical, const refw::Marks &mk, bool all )
   {
      std::vector<Field> f = { { "length", 16, 8 }, { "xml offset", 24, 8 }, { "xml length", 32, 8 } };
      for ( auto &s : mk.sections )
      {
         f.push_back( { s.what + " id", s.start, 1 } );
         f.push_back( { s.what + " section length", s.start + 8, 8 } );
         if ( logical[s.start] == 1 )
         {
            f.push_back( { s.what + " data offset", s.start + 16, 8 } );
            f.push_back( { s.what + " index offset", s.start + 24, 8 } );
         }
      }
      int k = 0;
      for ( auto &p : mk.packets )
      {
         if ( k > 2 && !all )
            break;
         const std::string n = fmt( "packet %d ", k++ );
         f.push_back( { n + "type", p.start, 1 } );
         f.push_back( { n + "length", p.start + 2, 2 } );
         if ( p.type != 2 )
            f.push_back( { n + "count", p.start + 4, 2 } );
         for ( size_t i = 0; i < p.streams.size(); ++i )
            f.push_back( { n + fmt( "stream %zu", i ), p.start + 6 + 2 * i, 2 } );
      }
      return f;
   }
   std::vector<uint64_t> values( uint64_t old, size_t n, uint64_t size )
   {
      std::vector<uint64_t> v = { 0, 1, 3, 4, 8, 48, 255, 256, 1019, 1020, 1023, 1024, size, size - 4, size + 1024, 2 * old, 32767, 32768, 49152, 60000, 65532, 65535 };
      for ( int64_t d : { -1024, -64, -32, -16, -8, -4, -3, -2, -1, 1, 2, 3, 4, 8, 16, 32, 64, 200, 1024, 4096, 16384 } )
         v.push_back( old + static_cast<uint64_t>( d ) );
      v.push_back( uint64_t( 1 ) << 63 );
      v.push_back( ~uint64_t( 0 ) );
      for ( auto &x : v )
         if ( n < 8 )
            x &= ( uint64_t( 1 ) << ( 8 * n ) ) - 1;
      std::sort( v.begin(), v.end() );
      v.erase( std::unique( v.begin(), v.end() ), v.end() );
      return v;
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();

   // files as the library writes them
   tree::all( r.thorough ? 3 : 2, [&]( const m::N &doc, const std::string &id ) {
      r.test( [&] { return "tree " + id; },
              [&] {
                 const std::string path = r.path( "t.e57" );
                 {
                    e57::ImageFile f( path, "w" );
                    m::writeDoc( f, doc );
                    f.close();
                 }
                 for ( int policy : { 0, 100 } )
                    same( r, m::slurp( path ), "as it is", policy, 0, 0 );
              } );
   } );
   for ( auto &scene : scene::names() )
   {
      std::vector<char> bytes;
      {
         const std::string path = r.path( "scene.e57" );
         {
            scene::Play p;
            p.path = path;
            scene::set( p, scene );
            for ( auto &s : p.steps )
               s.run();
         }
         bytes = m::slurp( path );
      }
      for ( int policy : { 0, 25, 50, 100 } )
         for ( size_t block : { 0, 1, 7 } )
            r.test( fmt( "%s policy=%d block=%zu", scene, policy, block ), [&] { same( r, bytes, "as it is", policy, block, 0 ); } );
      // cut at every page, with a header that agrees
      for ( size_t n = 1; n < bytes.size() / 1024; n += bytes.size() / 1024 > 100 && !r.thorough ? 13 : 1 )
         r.test( fmt( "%s cut to %zu pages", scene, n ), [&] {
            auto b = bytes;
            b.resize( n * 1024 );
            const uint64_t length = b.size();
            memcpy( &b[16], &length, 8 );
            same( r, b, "cut", 0, 0, 0 );
         } );
   }

   // changes of all kinds to small files, with as many records as there are, and with more
   const std::vector<fld::Field> sets[] = { { fld::Int( 0, 255 ) }, { fld::Str() }, { fld::F64() }, { fld::Int( 0, 7 ), fld::Str(), fld::F32() } };
   for ( size_t set = 0; set < 4; ++set )
      for ( int cut : { 0, 1 } )
         for ( int64_t more : { 0, 1, 9000 } )
         {
            if ( more == 1 && !r.thorough )
               continue;
            m::N doc = fld::doc( sets[set], 24, 3 );
            doc.kids.push_back( m::blob( "b", m::pattern( 30 ) ) );
            doc.kids[0].records += more;
            refw::Layout l;
            refw::Marks mk;
            if ( cut )
               l.cut = []( const std::vector<size_t> &lengths ) { return refw::fixedCut( lengths, 20 ); };
            auto logical = refw::writeLogical( doc, l, &mk );
            const uint64_t room = ref::pack( logical ).size() * 8;
            const std::string id = fmt( "set=%zu cut=%d more=%lld ", set, cut, (long long)more );
            r.test( id + "as it is", [&] { same( r, ref::pack( logical ), "as it is", 100, 0, room ); } );
            for ( auto &f : fieldsOf( logical, mk, r.thorough ) )
               r.test( id + f.name, [&] {
                  for ( uint64_t v : values( get( logical, f.at, f.n ), f.n, logical.size() ) )
                  {
                     auto c = logical;
                     put( c, f.at, f.n, v );
                     for ( size_t block = 0; block <= ( r.thorough ? 5 : 0 ); block += 5 )
                        same( r, ref::pack( c ), fmt( "%s=%llu", f.name.c_str(), (unsigned long long)v ), 100, block, room );
                  }
               } );
            // every byte between the header and the XML
            const size_t step = 32;
            for ( size_t from = 48; from < mk.xmlStart; from += step )
               if ( more == 0 || r.thorough )
                  r.test( id + fmt( "byte %zu", from ), [&] {
                     for ( size_t at = from; at < std::min( from + step, mk.xmlStart ); ++at )
                        for ( int v : { 255, logical[at] ^ 1, logical[at] ^ 128, 0 } )
                        {
                           if ( v == logical[at] || ( v == 0 && !r.thorough ) )
                              continue;
                           auto c = logical;
                           c[at] = static_cast<uint8_t>( v );
                           same( r, ref::pack( c ), fmt( "byte %zu=%d", at, v ), 100, 0, room );
                        }
                  } );
         }

   // every attribute and every text of the XML missing, or nearly
   {
      std::vector<m::N> kids = { m::integer( "i", 5, 1, 9 ), m::scaled( "q", 4, 1, 9, 0.5, 3 ), m::real( "f", 1.5, true, 1, 2 ),
                                 m::str( "t", "text" ), m::blob( "b", m::pattern( 30 ) ),
                                 m::vec( "v", true, { m::integer( "", 3 ), m::str( "", "x" ) } ),
                                 m::vec( "w", false, { m::integer( "", 3 ), m::integer( "", 4 ) } ) };
      kids.push_back( fld::doc( { fld::Int( 0, 7 ), fld::Str(), fld::F32() }, 5, 3 ).kids[0] );
      const m::N doc = m::structure( "", kids );
      for ( int defaults = 0; defaults < 2; ++defaults )
      {
         refw::Layout l;
         l.explicitDefaults = defaults;
         refw::Marks mk;
         const auto logical = refw::writeLogical( doc, l, &mk );
         const std::string xml( logical.begin() + static_cast<long>( mk.xmlStart ), logical.begin() + static_cast<long>( mk.xmlStart + mk.xmlLength ) );
         auto with = [&]( const std::string &x ) {
            auto c = logical;
            c.resize( mk.xmlStart );
            c.insert( c.end(), x.begin(), x.end() );
            while ( c.size() % 1020 )
               c.push_back( 0 );
            put( c, 16, 8, c.size() / 1020 * 1024 );
            put( c, 32, 8, x.size() );
            return ref::pack( c );
         };
         for ( size_t at = xml.find( "=\"" ); at != std::string::npos; at = xml.find( "=\"", at + 1 ) )
         {
            const size_t from = xml.rfind( ' ', at ), to = xml.find( '"', at + 2 );
            r.test( fmt( "attribute at %zu defaults=%d", from, defaults ), [&] {
               std::string x = xml;
               x.erase( from, to + 1 - from );
               same( r, with( x ), "removed", 100, 0, 0 );
               for ( const char *value : { "", "0", "-1", "1", "99999999999999999999", "x", " ", "Integer", "Float", "String", "Structure", "Vector", "Blob", "CompressedVector", "ScaledInteger", "single", "double", "1e400" } )
               {
                  x = xml;
                  x.replace( at + 2, to - at - 2, value );
                  same( r, with( x ), value, 100, 0, 0 );
               }
            } );
         }
         for ( size_t at = xml.find( '>' ); at != std::string::npos && at + 1 < xml.size(); at = xml.find( '>', at + 1 ) )
            r.test( fmt( "text at %zu defaults=%d", at, defaults ), [&] {
               const size_t to = xml.find( '<', at );
               if ( to == std::string::npos )
                  return;
               for ( const char *value : { "", "0", "-1", "x", " ", "<a/>", "<a type=\"Integer\"/>", "99999999999999999999", "1e400" } )
               {
                  std::string x = xml;
                  x.replace( at + 1, to - at - 1, value );
                  same( r, with( x ), value, 100, 0, 0 );
               }
            } );
      }
   }

   // a file read after another one, and after a damaged one
   for ( auto &first : scene::names() )
      for ( auto &second : scene::names() )
         r.test( fmt( "%s after %s", second, first ), [&] {
            std::string logs[2];
            std::vector<char> bytes[2];
            for ( int k = 0; k < 2; ++k )
            {
               const std::string path = r.path( fmt( "s%d.e57", k ) );
               {
                  scene::Play p;
                  p.path = path;
                  scene::set( p, k ? second : first );
                  for ( auto &s : p.steps )
                     s.run();
               }
               bytes[k] = m::slurp( path );
            }
            Source a, b, c;
            a.path = r.path( "s0.e57" ), b.path = r.path( "s1.e57" ), c.path = r.path( "s2.e57" );
            const std::string alone = transcript( b, 100, 0 );
            transcript( a, 100, 0 );
            CHECK( transcript( b, 100, 0 ) == alone, "another result after reading another file" );
            auto damaged = bytes[0];
            damaged[damaged.size() / 2] ^= 4;
            m::spit( c.path, damaged );
            transcript( c, 100, 0 );
            CHECK( transcript( b, 100, 0 ) == alone, "another result after reading a damaged file" );
            damaged.resize( 1024 );
            m::spit( c.path, damaged );
            transcript( c, 100, 0 );
            CHECK( transcript( b, 100, 0 ) == alone, "another result after reading an incomplete file" );
            r.outcome( fmt( "%s after %s", second, first ) );
         } );
}
