// P08: the element tree read back equals the tree that was written.
#include <algorithm>
#include <cfloat>
#include <set>

#include "trees.hpp"

using namespace vh;

namespace
{
   std::string vecName( size_t i, const m::N &parent )
   {
      return parent.type == m::T::Vector ? std::to_string( i ) : parent.kids[i].name;
   }

   // Every way to get at an element agrees
   void checkPaths( const e57::ImageFile &file, const e57::Node &node, const m::N &n, const std::string &path, const e57::Node &parent )
   {
      CHECK( node.pathName() == ( path.empty() ? "/" : path ), "pathName() is '%s' for '%s'", node.pathName().c_str(), path.c_str() );
      CHECK( node.isAttached(), "'%s' is not attached", path.c_str() );
      CHECK( node.parent() == parent, "parent of '%s'", path.c_str() );
      CHECK( node.isRoot() == path.empty(), "isRoot() of '%s'", path.c_str() );
      CHECK( node.destImageFile() == file, "destImageFile() of '%s'", path.c_str() );
      const size_t slash = path.rfind( '/' );
      CHECK( node.elementName() == ( path.empty() ? "" : path.substr( slash + 1 ) ), "elementName() of '%s' is '%s'", path.c_str(), node.elementName().c_str() );
      e57::StructureNode root = file.root();
      if ( !path.empty() )
      {
         CHECK( root.isDefined( path ), "isDefined('%s')", path.c_str() );
         CHECK( root.get( path ) == node, "get('%s') is another element", path.c_str() );
         CHECK( root.isDefined( path.substr( 1 ) ) && root.get( path.substr( 1 ) ) == node, "get('%s') is another element", path.c_str() + 1 );
      }
      CHECK( !root.isDefined( path + "/zzz" ), "isDefined('%s/zzz')", path.c_str() );
      if ( n.type == m::T::Structure || n.type == m::T::Vector )
      {
         const int64_t count = n.type == m::T::Structure ? e57::StructureNode( node ).childCount() : e57::VectorNode( node ).childCount();
         CHECK( count == static_cast<int64_t>( n.kids.size() ), "'%s' has %lld children", path.c_str(), (long long)count );
         for ( size_t i = 0; i < n.kids.size(); ++i )
         {
            const std::string nm = vecName( i, n );
            e57::Node kid = n.type == m::T::Structure ? e57::StructureNode( node ).get( static_cast<int64_t>( i ) )
                                                      : e57::VectorNode( node ).get( static_cast<int64_t>( i ) );
            e57::Node byName = n.type == m::T::Structure ? e57::StructureNode( node ).get( nm ) : e57::VectorNode( node ).get( nm );
            CHECK( kid == byName, "child %zu of '%s' by name", i, path.c_str() );
            checkPaths( file, kid, n.kids[i], path + "/" + nm, node );
         }
      }
   }

   void compare( const std::string &path, const m::N &doc, bool binary, const char *when )
   {
      e57::ImageFile file( path, "r" );
      const std::string d = m::diff( doc, m::observeFile( file, binary ), binary );
      CHECK( d.empty(), "%s: %s", when, d.c_str() );
      checkPaths( file, file.root(), doc, "", file.root() );
      file.root().checkInvariant();
      file.close();
   }

   // Write, read, and copy what was read by writing it again
   void roundTrip( Run &r, const m::N &doc, bool binary = true )
   {
      const std::string p = r.path( "a.e57" );
      {
         e57::ImageFile file( p, "w" );
         m::writeDoc( file, doc );
         // the tree is the same before and after
         const std::string d = m::diff( doc, m::observeFile( file, false ), false );
         CHECK( d.empty(), "before closing: %s", d.c_str() );
         file.close();
      }
      compare( p, doc, binary, "reopened" );
   }

   std::string hex( const std::string &s )
   {
      std::string h;
      for ( unsigned char c : s )
         h += fmt( "%02x", c );
      return h;
   }
   const std::vector<int64_t> &ints()
   {
      static const std::vector<int64_t> v = { INT64_MIN, INT64_MIN + 1, -1, 0, 1, 1000, INT64_MAX - 1, INT64_MAX };
      return v;
   }

   void single( const m::N &n, m::N &doc )
   {
      m::N k = n;
      k.name = fmt( "e%zu", doc.kids.size() );
      doc.kids.push_back( k );
   }
   void inBatches( Run &r, const char *group, const std::vector<m::N> &all, size_t per )
   {
      for ( size_t at = 0; at < all.size(); at += per )
         r.test( [&] { return fmt( "%s %zu..%zu", group, at, std::min( all.size(), at + per ) ); },
                 [&] {
                    m::N doc = m::structure( "" );
                    m::N v = m::vec( "v", true );
                    for ( size_t i = at; i < std::min( all.size(), at + per ); ++i )
                    {
                       single( all[i], doc );
                       v.kids.push_back( all[i] );
                    }
                    doc.kids.push_back( v );
                    roundTrip( r, doc );
                    r.count( "elements", 2 * ( std::min( all.size(), at + per ) - at ) );
                    r.outcome( fmt( "%s %zu", group, at ) );
                 } );
   }

   // ---- all trees ----
   void trees( Run &r )
   {
      for ( int n = 0; n <= ( r.thorough ? 4 : 3 ); ++n )
      {
         // several trees per case, to save on files: each tree is a structure of its own
         m::N batch = m::structure( "" );
         std::string ids;
         int first = 0, count = 0;
         auto flush = [&] {
            if ( batch.kids.empty() )
               return;
            r.test( [&] { return fmt( "trees of %d, %d..%d", n, first, count ); },
                    [&] {
                       roundTrip( r, batch );
                       r.count( "trees", batch.kids.size() );
                       r.outcome( ids );
                    } );
            batch = m::structure( "" );
            ids.clear();
            first = count;
         };
         tree::all( n, [&]( const m::N &doc, const std::string &id ) {
            m::N s = doc;
            s.name = fmt( "t%d", count );
            batch.kids.push_back( s );
            ids += id + " ";
            ++count;
            if ( batch.kids.size() == 20 )
               flush();
         } );
         flush();
      }
      // and each small tree alone, with the binary content at the start of the file
      for ( int n = 0; n <= 2; ++n )
         tree::all( n, [&]( const m::N &doc, const std::string &id ) {
            r.test( [&] { return "tree " + id; },
                    [&] {
                       roundTrip( r, doc );
                       r.count( "trees" );
                       r.outcome( id );
                    } );
         } );
   }

   // ---- attributes ----
   void integers( Run &r )
   {
      std::vector<m::N> all;
      for ( auto lo : ints() )
         for ( auto hi : ints() )
            for ( auto v : ints() )
               if ( lo <= v && v <= hi )
                  all.push_back( m::integer( "", v, lo, hi ) );
      inBatches( r, "integer", all, 40 );
   }
   void scaledIntegers( Run &r )
   {
      std::vector<m::N> all;
      for ( auto lo : { INT64_MIN, int64_t( -1 ), int64_t( 0 ), int64_t( 5 ) } )
         for ( auto hi : { int64_t( 0 ), int64_t( 5 ), int64_t( 100 ), INT64_MAX } )
            for ( auto v : { INT64_MIN, int64_t( -1 ), int64_t( 0 ), int64_t( 5 ), int64_t( 77 ), INT64_MAX } )
               for ( double s : { 1.0, 0.001, -1.0, -2.0, 5.0, 100.0, 1e300, 5e-324, 1.0 / 3 } )
                  for ( double o : { 0.0, 1.0, 0.001, -1.0, -2.0, 5.0, 100.0, 1e300, 1.0 / 3, -0.1, DBL_MAX } )
                     if ( lo <= v && v <= hi )
                        all.push_back( m::scaled( "", v, lo, hi, s, o ) );
      inBatches( r, "scaled", all, 60 );
   }
   void floats( Run &r )
   {
      std::vector<m::N> all;
      for ( bool single : { false, true } )
      {
         const double big = single ? FLT_MAX : DBL_MAX, tiny = single ? 1.401298464324817e-45 : 4.9406564584124654e-324;
         const double below = single ? std::nextafterf( FLT_MAX, 0.0f ) : std::nextafter( DBL_MAX, 0.0 );
         std::vector<double> vs = { -big, -below, -1.5, -tiny, 0, tiny, single ? static_cast<double>( 0.1f ) : 0.1, 1e10, below, big };
         for ( double lo : vs )
            for ( double hi : vs )
               for ( double v : vs )
                  if ( lo <= v && v <= hi )
                     all.push_back( m::real( "", v, single, lo, hi ) );
      }
      inBatches( r, "float", all, 60 );
   }
   // values a file cannot represent must be refused, not stored as something else
   void notNumbers( Run &r )
   {
      for ( bool single : { false, true } )
         for ( int mask = 1; mask < 64; ++mask )
            r.test( fmt( "not a number %s %d", single ? "single" : "double", mask ),
                    [&] {
                       const double inf = INFINITY, nan = NAN;
                       const int a = mask & 3, b = mask >> 2 & 3, c = mask >> 4 & 3;
                       const double v = a == 0 ? 1.0 : a == 1 ? inf : a == 2 ? -inf : nan;
                       const double lo = b == 0 ? 0.5 : b == 1 ? inf : b == 2 ? -inf : nan;
                       const double hi = c == 0 ? 1.5 : c == 1 ? inf : c == 2 ? -inf : nan;
                       const std::string p = r.path( "a.e57" );
                       m::N doc = m::structure( "" );
                       {
                          e57::ImageFile file( p, "w" );
                          const std::string got = m::attempt( [&] {
                             e57::FloatNode f( file, v, single ? e57::PrecisionSingle : e57::PrecisionDouble, lo, hi );
                             file.root().set( "f", f );
                          } );
                          if ( got != "ok" )
                             CHECK( got == std::to_string( e57::ErrorValueOutOfBounds ) || got == std::to_string( e57::ErrorBadAPIArgument ),
                                    "refused with %s", got.c_str() );
                          // whatever is in the tree comes back
                          doc = m::observeFile( file, false );
                          r.outcome( got );
                          file.close();
                       }
                       compare( p, doc, false, "reopened" );
                    } );
   }

   // ---- strings ----
   const std::vector<std::string> &letters()
   {
      static const std::vector<std::string> v = { "a",  " ",  "\n", "\t",       "\r",           "&",  "<",          ">",
                                                  "]",  "\"", "'",  "\xC3\xA9", "\xE2\x82\xAC", "-",  "\xF0\x9F\x98\x80", "&amp;" };
      return v;
   }
   void strings( Run &r )
   {
      std::vector<m::N> all;
      std::function<void( const std::string &, int )> grow = [&]( const std::string &s, int left ) {
         all.push_back( m::str( "", s ) );
         if ( left )
            for ( auto &l : letters() )
               grow( s + l, left - 1 );
      };
      grow( "", r.thorough ? 4 : 3 );
      // longer ones over the characters that end a CDATA section and line ends
      std::function<void( const std::string &, const std::vector<std::string> &, int )> more = [&]( const std::string &s, const std::vector<std::string> &al, int left ) {
         if ( left == 0 )
         {
            all.push_back( m::str( "", s ) );
            return;
         }
         for ( auto &l : al )
            more( s + l, al, left - 1 );
      };
      for ( int n = 4; n <= ( r.thorough ? 9 : 7 ); ++n )
         more( "", { "]", ">", "x" }, n );
      for ( int n = 4; n <= ( r.thorough ? 8 : 6 ); ++n )
         more( "", { "\r", "\n", "]]>", "x" }, n );
      inBatches( r, "string", all, 200 );
      // every single character of the basic plane and some beyond
      for ( uint32_t block = 0; block < 0x110000; block += 0x400 )
      {
         if ( block >= 0x20000 && block < 0xE0000 && !r.thorough && block % 0x8000 != 0x7C00 )
            continue;
         r.test( [&] { return fmt( "characters %x", block ); },
                 [&] {
                    m::N doc = m::structure( "" );
                    std::string whole, mixed;
                    for ( uint32_t c = block; c < block + 0x400; ++c )
                    {
                       if ( ( c < 0x20 && c != 9 && c != 10 && c != 13 ) || ( c >= 0xD800 && c < 0xE000 ) || c == 0xFFFE || c == 0xFFFF )
                          continue;
                       std::string s;
                       if ( c < 0x80 )
                          s = static_cast<char>( c );
                       else if ( c < 0x800 )
                          s = { static_cast<char>( 0xC0 | c >> 6 ), static_cast<char>( 0x80 | ( c & 63 ) ) };
                       else if ( c < 0x10000 )
                          s = { static_cast<char>( 0xE0 | c >> 12 ), static_cast<char>( 0x80 | ( c >> 6 & 63 ) ), static_cast<char>( 0x80 | ( c & 63 ) ) };
                       else
                          s = { static_cast<char>( 0xF0 | c >> 18 ), static_cast<char>( 0x80 | ( c >> 12 & 63 ) ), static_cast<char>( 0x80 | ( c >> 6 & 63 ) ),
                                static_cast<char>( 0x80 | ( c & 63 ) ) };
                       whole += s;
                       mixed += s + "x";
                    }
                    doc.kids.push_back( m::str( "whole", whole ) );
                    doc.kids.push_back( m::str( "mixed", mixed ) );
                    roundTrip( r, doc );
                    r.outcome( fmt( "characters %x", block ) );
                 } );
      }
   }
   // bytes XML cannot carry: refused or kept
   void illegalStrings( Run &r )
   {
      std::vector<std::string> bad;
      for ( int c = 0; c < 0x20; ++c )
         if ( c != 9 && c != 10 && c != 13 )
            bad.push_back( std::string( 1, static_cast<char>( c ) ) );
      for ( int c = 0x80; c < 0x100; ++c )
         bad.push_back( std::string( 1, static_cast<char>( c ) ) );
      for ( const char *s : { "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xEF\xBF\xBE",
                              "\xEF\xBF\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF8\x88\x80\x80\x80", "\xC3\x28",
                              "\xE2\x28\xAC", "\xE2\x82\x28", "\xF0\x28\x98\x80", "\xF0\x9F\x28\x80", "\xF0\x9F\x98\x28" } )
         bad.push_back( s );
      for ( size_t i = 0; i < bad.size(); ++i )
         for ( int where = 0; where < 4; ++where )
            r.test( [&] { return fmt( "illegal string %zu place %d", i, where ); },
                    [&] {
                       const std::string s = ( where & 1 ? "x" : "" ) + bad[i] + ( where & 2 ? "y" : "" );
                       const std::string p = r.path( "a.e57" );
                       m::N doc = m::structure( "" );
                       {
                          e57::ImageFile file( p, "w" );
                          const std::string got = m::attempt( [&] { file.root().set( "s", e57::StringNode( file, s ) ); } );
                          if ( got == "ok" )
                             doc.kids.push_back( m::str( "s", s ) );
                          else
                             CHECK( got == std::to_string( e57::ErrorBadAPIArgument ), "refused with %s", got.c_str() );
                          file.root().set( "t", e57::StringNode( file, "after" ) );
                          doc.kids.push_back( m::str( "t", "after" ) );
                          r.outcome( got );
                          file.close();
                       }
                       compare( p, doc, false, "reopened" );
                    } );
   }
   void longStrings( Run &r )
   {
      std::vector<size_t> sizes;
      for ( size_t k : { 64u, 256u, 1020u, 1024u, 2048u, 4096u, 8192u, 16384u, 32768u, 49152u, 65536u, 131072u } )
         for ( int d = -6; d <= 6; ++d )
            sizes.push_back( k + static_cast<size_t>( d ) );
      if ( r.thorough )
         for ( size_t n = 0; n < 20000; n += 7 )
            sizes.push_back( n );
      const std::vector<std::string> fills = { "a", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "&", "]", "\n", "\r", " " };
      for ( size_t n : sizes )
         r.test( [&] { return fmt( "long strings %zu", n ); },
                 [&] {
                    m::N doc = m::structure( "" );
                    for ( auto &f : fills )
                    {
                       std::string s;
                       // one-byte characters first so that the multi-byte ones straddle every boundary
                       while ( ( n - s.size() ) % f.size() )
                          s += 'x';
                       while ( s.size() < n )
                          s += f;
                       single( m::str( "", s ), doc );
                       single( m::str( "", std::string( n, 'a' ) + f + "]]>" + f ), doc );
                    }
                    roundTrip( r, doc );
                    r.count( "strings", 2 * fills.size() );
                    r.outcome( fmt( "long %zu", n ) );
                 } );
   }

   // ---- shape ----
   void shapes( Run &r )
   {
      // deep
      for ( int depth = 1; depth <= ( r.thorough ? 400 : 120 ); depth += depth < 20 ? 1 : 9 )
         for ( int kind = 0; kind < 3; ++kind )
            r.test( [&] { return fmt( "depth %d kind %d", depth, kind ); },
                    [&] {
                       m::N n = m::integer( "i", depth, 0, 1000 );
                       for ( int i = 0; i < depth; ++i )
                       {
                          const bool s = kind == 0 || ( kind == 2 && i % 2 );
                          n = s ? m::structure( "s", { n } ) : m::vec( "s", true, { n } );
                       }
                       roundTrip( r, m::structure( "", { n } ) );
                       r.outcome( fmt( "depth %d %d", depth, kind ) );
                    } );
      // wide
      for ( size_t width : { 1u, 2u, 9u, 10u, 11u, 12u, 20u, 99u, 100u, 101u, 102u, 257u, 1000u, 1001u } )
         for ( int kind = 0; kind < 3; ++kind )
            r.test( [&] { return fmt( "width %zu kind %d", width, kind ); },
                    [&] {
                       if ( width > 300 && kind == 0 && !r.thorough )
                          return;
                       m::N v = kind == 0 ? m::structure( "v" ) : m::vec( "v", kind == 1 );
                       for ( size_t i = 0; i < width; ++i )
                          v.kids.push_back( m::integer( fmt( "n%zu", i * 7 % width ), static_cast<int64_t>( i ), 0, 2000 ) );
                       roundTrip( r, m::structure( "", { v, m::integer( "w", 1 ) } ) );
                       r.outcome( fmt( "width %zu %d", width, kind ) );
                    } );
      // names
      std::vector<std::string> names = { "a", "_", "A9", "a-b", "a.b", "_-.", "Z_z", "type", "e57Root", "prototype", "codecs", "vectorChild", "xmlns1",
                                         "\xC3\xA9", "a\xC3\xA9", "minimum", "a0123456789" };
      for ( size_t n : { 10u, 63u, 64u, 127u, 128u, 255u, 256u, 1000u } )
         names.push_back( std::string( n, 'q' ) );
      for ( auto &nm : names )
         r.test( "name " + nm.substr( 0, 20 ) + std::to_string( nm.size() ),
                 [&] {
                    const std::string p = r.path( "a.e57" );
                    m::N doc = m::structure( "" );
                    {
                       e57::ImageFile file( p, "w" );
                       doc.kids.push_back( m::integer( nm, 1 ) );
                       doc.kids.push_back( m::structure( "s", { m::str( nm, nm ), m::structure( "b", { m::real( nm, 2 ) } ) } ) );
                       m::writeDoc( file, doc );
                       r.outcome( "legal " + nm );
                       file.close();
                    }
                    compare( p, doc, true, "reopened" );
                 } );
      // names with characters outside ASCII that XML does not allow in names: refused, or usable
      for ( const char *nm : { "\xE2\x82\xAC", "a\xE2\x82\xAC", "\xC3\x97", "\xF0\x9F\x98\x80", "\xFF", "a\xC3" } )
         r.test( std::string( "name not for XML " ) + hex( nm ),
                 [&] {
                    const std::string p = r.path( "a.e57" );
                    m::N doc = m::structure( "" );
                    {
                       e57::ImageFile file( p, "w" );
                       const std::string got = m::attempt( [&] { file.root().set( nm, e57::IntegerNode( file, 1 ) ); } );
                       if ( got == "ok" )
                          doc.kids.push_back( m::integer( nm, 1 ) );
                       else
                          CHECK( got == std::to_string( e57::ErrorPathNameMalformed ), "illegal name gives %s", got.c_str() );
                       r.outcome( "not for XML " + got );
                       file.close();
                    }
                    compare( p, doc, true, "reopened" );
                 } );
      // nested homogeneous vectors of structures
      for ( int a = 0; a <= 4; ++a )
         for ( int b = 0; b <= 4; ++b )
            for ( int kind = 0; kind < 3; ++kind )
               r.test( [&] { return fmt( "homogeneous %d x %d kind %d", a, b, kind ); },
                       [&] {
                          m::N v = m::vec( "v", false );
                          for ( int i = 0; i < a; ++i )
                          {
                             m::N in = kind == 0 ? m::structure( "" ) : m::vec( "", kind == 1 );
                             for ( int j = 0; j < b; ++j )
                                in.kids.push_back( m::integer( fmt( "x%d", j ), 10 * i + j, 0, 100 ) );
                             v.kids.push_back( in );
                          }
                          roundTrip( r, m::structure( "", { v } ) );
                          r.outcome( fmt( "hom %d %d %d", a, b, kind ) );
                       } );
   }

   // ---- compressed vectors: prototypes and codecs ----
   void vectors( Run &r )
   {
      const std::vector<fld::Field> kinds = { fld::Int( 0, 0 ), fld::Int( -8, 7 ), fld::Int( INT64_MIN, INT64_MAX ), fld::Sca( 0, 255 ), fld::Sca( -5, 5, -0.25, 1e9 ), fld::F32(), fld::F64(), fld::Str() };
      // prototypes: every pair of field kinds in every of 6 shapes, with 0..3 records
      for ( size_t x = 0; x < kinds.size(); ++x )
         for ( size_t y = 0; y < kinds.size(); ++y )
            r.test( [&] { return fmt( "prototype %s %s", kinds[x].id.c_str(), kinds[y].id.c_str() ); },
                    [&] {
                       m::N doc = m::structure( "" );
                       for ( int shape = 0; shape < 6; ++shape )
                          for ( size_t records = 0; records < 4; ++records )
                          {
                             m::N a = kinds[x].node, b = kinds[y].node;
                             a.name = "a";
                             b.name = "b";
                             m::N proto = m::structure( "prototype" );
                             switch ( shape )
                             {
                                case 0:
                                   proto.kids = { a, b };
                                   break;
                                case 1:
                                   proto.kids = { m::structure( "s", { a, b } ) };
                                   break;
                                case 2:
                                   proto.kids = { m::structure( "s", { a } ), m::structure( "t", { b } ) };
                                   break;
                                case 3:
                                   proto.kids = { m::vec( "v", true, { a, b } ) };
                                   break;
                                case 4:
                                   proto.kids = { b, m::vec( "v", false, { a } ) };
                                   break;
                                case 5:
                                   proto = m::vec( "prototype", true, { a, b } );
                                   break;
                             }
                             std::vector<std::pair<std::string, const m::N *>> lv;
                             m::leaves( proto, "", lv );
                             std::vector<m::Col> cols;
                             for ( size_t k = 0; k < lv.size(); ++k )
                                cols.push_back( fld::column( lv[k].first, *lv[k].second, records, k ) );
                             single( m::cv( "", proto, cols ), doc );
                          }
                       // a vector without a writer has no section to read records from
                       roundTrip( r, doc );
                       r.count( "vectors", doc.kids.size() );
                       r.outcome( kinds[x].id + kinds[y].id );
                    } );
      // codecs: the trees that the format describes
      for ( int entries = 0; entries <= 3; ++entries )
         for ( int inputs = 0; inputs <= 3; ++inputs )
            for ( int where = 0; where < 2; ++where )
               r.test( [&] { return fmt( "codecs %d x %d place %d", entries, inputs, where ); },
                       [&] {
                          m::N c = tree::smallCv( "c", 3 );
                          for ( int i = 0; i < entries; ++i )
                          {
                             m::N in = m::vec( "inputs", false );
                             for ( int j = 0; j < inputs; ++j )
                                in.kids.push_back( m::str( "", fmt( "f%d/%d", i, j ) ) );
                             c.kids[1].kids.push_back( m::structure( "", { in, m::structure( "bitPackCodec", i ? std::vector<m::N>{ m::integer( "x", i ) } : std::vector<m::N>{} ) } ) );
                          }
                          m::N doc = where ? m::structure( "", { m::vec( "v", true, { c } ) } ) : m::structure( "", { c } );
                          roundTrip( r, doc );
                          r.outcome( fmt( "codecs %d %d", entries, inputs ) );
                       } );
      // prototypes keep the values and bounds of their elements
      for ( auto lo : ints() )
         for ( auto hi : ints() )
            if ( lo <= hi )
               r.test( [&] { return fmt( "prototype bounds %lld..%lld", (long long)lo, (long long)hi ); },
                       [&] {
                          m::N proto = m::structure( "prototype" );
                          for ( auto v : ints() )
                             if ( lo <= v && v <= hi )
                             {
                                proto.kids.push_back( m::integer( fmt( "i%zu", proto.kids.size() ), v, lo, hi ) );
                                proto.kids.push_back( m::scaled( fmt( "s%zu", proto.kids.size() ), v, lo, hi, 0.1, -1 ) );
                             }
                          std::vector<std::pair<std::string, const m::N *>> lv;
                          m::leaves( proto, "", lv );
                          std::vector<m::Col> cols;
                          for ( size_t k = 0; k < lv.size(); ++k )
                             cols.push_back( fld::column( lv[k].first, *lv[k].second, 3, k ) );
                          roundTrip( r, m::structure( "", { m::cv( "c", proto, cols ) } ) );
                          r.outcome( fmt( "bounds %lld %lld", (long long)lo, (long long)hi ) );
                       } );
   }
   void blobs( Run &r )
   {
      for ( size_t n : { 0u, 1u, 3u, 4u, 1003u, 1004u, 1020u, 3000u } )
         for ( int depth = 0; depth < 3; ++depth )
            r.test( [&] { return fmt( "blob %zu depth %d", n, depth ); },
                    [&] {
                       m::N b = m::blob( "b", m::pattern( n, 9 ) );
                       for ( int i = 0; i < depth; ++i )
                          b = m::structure( "b", { m::blob( "a", m::pattern( i + 1 ) ), b } );
                       roundTrip( r, m::structure( "", { b } ) );
                       r.outcome( fmt( "blob %zu", n ) );
                    } );
   }
}

void vh::enumerate( Run &r )
{
   trees( r );
   integers( r );
   scaledIntegers( r );
   floats( r );
   notNumbers( r );
   strings( r );
   illegalStrings( r );
   longStrings( r );
   shapes( r );
   vectors( r );
   blobs( r );
}
