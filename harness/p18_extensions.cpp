// P18: extension prefixes form a consistent one-to-one registry.
//
// All sequences of registrations over small sets of prefixes and URIs against a list as the model,
// with every look-up after every step; all short prefixes, URIs and element names over alphabets of
// character classes; every Unicode character in a name.
#include <xercesc/util/PlatformUtils.hpp>

#include "model.hpp"
#include "refw57.hpp"
#include "vh.hpp"

using namespace vh;

namespace
{
   const char *const STANDARD = "http://www.astm.org/COMMIT/E57/2010-e57-v1.0";
   using Registry = std::vector<std::pair<std::string, std::string>>;

   std::string quoted( const std::string &s )
   {
      std::string out;
      for ( unsigned char c : s )
         out += c > 32 && c < 127 && c != '%' ? std::string( 1, static_cast<char>( c ) ) : fmt( "%%%02X", c );
      return "'" + out + "'";
   }
   std::string utf8( uint32_t c )
   {
      std::string s;
      if ( c < 0x80 )
         s += static_cast<char>( c );
      else if ( c < 0x800 )
         s += static_cast<char>( 0xC0 | c >> 6 ), s += static_cast<char>( 0x80 | ( c & 63 ) );
      else if ( c < 0x10000 )
         s += static_cast<char>( 0xE0 | c >> 12 ), s += static_cast<char>( 0x80 | ( c >> 6 & 63 ) ),
            s += static_cast<char>( 0x80 | ( c & 63 ) );
      else
         s += static_cast<char>( 0xF0 | c >> 18 ), s += static_cast<char>( 0x80 | ( c >> 12 & 63 ) ),
            s += static_cast<char>( 0x80 | ( c >> 6 & 63 ) ), s += static_cast<char>( 0x80 | ( c & 63 ) );
      return s;
   }

   // ---- names: 1 legal, 0 illegal, -1 not decided here (characters beyond Latin-1) ----
   int legalPart( const std::string &s )
   {
      if ( s.empty() )
         return 0;
      int result = 1;
      for ( size_t i = 0; i < s.size(); ++i )
      {
         uint32_t c = static_cast<unsigned char>( s[i] );
         const bool first = i == 0;
         if ( c >= 0x80 )
         {
            if ( c != 0xC2 && c != 0xC3 )
               return c < 0xC2 || c > 0xF4 ? 0 : -1;
            if ( i + 1 >= s.size() || ( static_cast<unsigned char>( s[i + 1] ) & 0xC0 ) != 0x80 )
               return 0;
            c = ( c & 0x1F ) << 6 | ( static_cast<unsigned char>( s[++i] ) & 63 );
         }
         const bool start = ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) || c == '_' ||
                            ( c >= 0xC0 && c != 0xD7 && c != 0xF7 );
         const bool follow = start || ( c >= '0' && c <= '9' ) || c == '-' || c == '.' || c == 0xB7;
         if ( !( first ? start : follow ) )
            return 0;
      }
      return result;
   }
   int legalName( const std::string &s, std::string &prefix, std::string &local )
   {
      const size_t colon = s.find( ':' );
      prefix = colon == std::string::npos ? "" : s.substr( 0, colon );
      local = colon == std::string::npos ? s : s.substr( colon + 1 );
      const int a = colon == std::string::npos ? 1 : legalPart( prefix ), b = legalPart( local );
      return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1;
   }

   // ---- the registry ----
   void checkRegistry( const e57::ImageFile &f, const Registry &want, const std::vector<std::string> &prefixes,
                       const std::vector<std::string> &uris )
   {
      const size_t n = f.extensionsCount();
      CHECK( n == want.size(), "%zu extensions instead of %zu", n, want.size() );
      for ( size_t i = 0; i < n; ++i )
      {
         CHECK( f.extensionsPrefix( i ) == want[i].first, "prefix %zu is %s instead of %s", i,
                quoted( f.extensionsPrefix( i ) ).c_str(), quoted( want[i].first ).c_str() );
         CHECK( f.extensionsUri( i ) == want[i].second, "URI %zu is %s instead of %s", i,
                quoted( f.extensionsUri( i ) ).c_str(), quoted( want[i].second ).c_str() );
      }
      for ( size_t bad : { n, n + 1, n + 1000, SIZE_MAX } )
      {
         const auto a = m::attempt( [&] { f.extensionsPrefix( bad ); } ), b = m::attempt( [&] { f.extensionsUri( bad ); } );
         CHECK( a == "14" && b == "14", "extension %zu of %zu: %s, %s", bad, n, a.c_str(), b.c_str() );
      }
      const auto lookUp = [&]( const std::string &prefix, const std::string &uri ) {
         const std::pair<std::string, std::string> *byPrefix = nullptr, *byUri = nullptr;
         for ( auto &e : want )
         {
            byPrefix = e.first == prefix ? &e : byPrefix;
            byUri = e.second == uri ? &e : byUri;
         }
         std::string s = "before";
         // the default namespace may be known without registration
         if ( !prefix.empty() || byPrefix )
         {
            CHECK( f.extensionsLookupPrefix( prefix ) == ( byPrefix != nullptr ), "look-up of prefix %s",
                   quoted( prefix ).c_str() );
            CHECK( f.extensionsLookupPrefix( prefix, s ) == ( byPrefix != nullptr ), "look-up of prefix %s",
                   quoted( prefix ).c_str() );
            if ( byPrefix )
               CHECK( s == byPrefix->second, "URI of %s is %s", quoted( prefix ).c_str(), quoted( s ).c_str() );
         }
         s = "before";
         if ( uri != STANDARD || byUri )
         {
            CHECK( f.extensionsLookupUri( uri, s ) == ( byUri != nullptr ), "look-up of URI %s", quoted( uri ).c_str() );
            if ( byUri )
               CHECK( s == byUri->first, "prefix of %s is %s", quoted( uri ).c_str(), quoted( s ).c_str() );
         }
      };
      for ( auto &e : want )
         lookUp( e.first, e.second );
      for ( auto &p : prefixes )
         for ( auto &u : uris )
            lookUp( p, u );
   }
   // The registry of the file read again: with the default namespace if it was not registered
   Registry reopened( Registry r )
   {
      for ( auto &e : r )
         if ( e.first.empty() )
            return r;
      r.emplace_back( "", STANDARD );
      return r;
   }

   struct Op
   {
      std::string prefix, uri;
   };
   void sequence( Run &r, const std::vector<Op> &ops, const std::vector<std::string> &prefixes,
                  const std::vector<std::string> &uris )
   {
      const std::string file = r.path( "x.e57" );
      Registry model;
      std::vector<std::string> names;
      {
         e57::ImageFile f( file, "w" );
         checkRegistry( f, model, prefixes, uris );
         size_t step = 0;
         for ( auto &op : ops )
         {
            bool samePrefix = false, sameUri = false;
            for ( auto &e : model )
               samePrefix |= e.first == op.prefix, sameUri |= e.second == op.uri;
            const auto got = m::attempt( [&] { f.extensionsAdd( op.prefix, op.uri ); } );
            // the standard's URI belongs to the default namespace, registered or not
            sameUri |= !op.prefix.empty() && op.uri == STANDARD;
            if ( samePrefix || sameUri )
               CHECK( ( samePrefix && got == "31" ) || ( sameUri && got == "32" ), "registering %s for %s: %s",
                      quoted( op.prefix ).c_str(), quoted( op.uri ).c_str(), got.c_str() );
            else
            {
               CHECK( got == "ok", "registering %s for %s: %s", quoted( op.prefix ).c_str(), quoted( op.uri ).c_str(),
                      got.c_str() );
               model.emplace_back( op.prefix, op.uri );
            }
            checkRegistry( f, model, prefixes, uris );
            // every prefix is tried as part of a name after every step
            for ( auto p : prefixes )
               for ( const char *local : { "x", "e57Root" } )
               {
                  if ( p.empty() )
                     continue;
                  bool known = false;
                  for ( auto &e : model )
                     known |= e.first == p;
                  const std::string name = p + ":" + local + std::to_string( step );
                  CHECK( f.root().isDefined( name ) == false, "%s is defined", name.c_str() );
                  CHECK( f.isElementNameExtended( name ), "%s is not extended", name.c_str() );
                  const auto res =
                     m::attempt( [&] { f.root().set( name, e57::StringNode( f, name ) ); } );
                  CHECK( res == ( known ? "ok" : "56" ), "using %s: %s", name.c_str(), res.c_str() );
                  if ( known )
                  {
                     names.push_back( name );
                     CHECK( f.root().isDefined( name ), "%s is not defined", name.c_str() );
                  }
               }
            ++step;
            r.transitions( 1 );
            std::string state;
            for ( auto &e : model )
               state += e.first + "=" + e.second + ";";
            r.state( state );
         }
         f.close();
      }
      e57::ImageFile f( file, "r" );
      checkRegistry( f, reopened( model ), prefixes, uris );
      CHECK( f.root().childCount() == static_cast<int64_t>( names.size() ), "%lld elements instead of %zu",
             (long long)f.root().childCount(), names.size() );
      for ( size_t i = 0; i < names.size(); ++i )
      {
         CHECK( f.root().get( static_cast<int64_t>( i ) ).elementName() == names[i], "%s instead of %s",
                f.root().get( static_cast<int64_t>( i ) ).elementName().c_str(), names[i].c_str() );
         CHECK( e57::StringNode( f.root().get( names[i] ) ).value() == names[i], "value of %s", names[i].c_str() );
      }
      f.close();
      r.outcome( fmt( "%zu extensions, %zu elements", model.size(), names.size() ) );
   }

   // One prefix and one URI. Returns whether they were accepted.
   bool pair( const std::string &file, const std::string &prefix, const std::string &uri )
   {
      {
         e57::ImageFile f( file, "w" );
         const auto got = m::attempt( [&] { f.extensionsAdd( prefix, uri ); } );
         if ( got != "ok" )
         {
            CHECK( got == "14" || ( uri == STANDARD && got == "32" ), "registering %s for %s: %s", quoted( prefix ).c_str(), quoted( uri ).c_str(), got.c_str() );
            checkRegistry( f, {}, {}, {} );
            f.close();
            e57::ImageFile g( file, "r" );
            checkRegistry( g, reopened( {} ), {}, {} );
            g.close();
            return false;
         }
         checkRegistry( f, { { prefix, uri } }, { "zz" }, { "http://zz" } );
         if ( !prefix.empty() )
            f.root().set( prefix + ":x", e57::IntegerNode( f, 5 ) );
         f.close();
      }
      e57::ImageFile f( file, "r" );
      checkRegistry( f, reopened( { { prefix, uri } } ), { "zz" }, { "http://zz" } );
      if ( !prefix.empty() )
      {
         CHECK( f.root().get( 0 ).elementName() == prefix + ":x", "the element is called %s",
                quoted( f.root().get( 0 ).elementName() ).c_str() );
         CHECK( f.root().isDefined( prefix + ":x" ), "the element is not defined" );
      }
      f.close();
      return true;
   }

   // A set of element names in one file: as children of a structure and as fields of records
   size_t elementNames( const std::string &file, const std::vector<std::string> &names, bool strict )
   {
      std::vector<std::string> kept;
      {
         e57::ImageFile f( file, "w" );
         f.extensionsAdd( "p", "http://p" );
         e57::StructureNode s( f );
         f.root().set( "s", s );
         e57::StructureNode proto( f );
         for ( auto &n : names )
         {
            std::string prefix, local;
            const int legal = legalName( n, prefix, local );
            const auto got = m::attempt( [&] { s.set( n, e57::IntegerNode( f, 1 ) ); } );
            {
               const bool number = !n.empty() && n.find_first_not_of( "0123456789" ) == std::string::npos;
               const bool known = prefix.empty() || prefix == "p";
               if ( legal == 0 )
                  CHECK( got != "ok", "illegal name %s is accepted", quoted( n ).c_str() );
               if ( legal == 0 && !number )
                  CHECK( got == ( n.empty() ? "54" : "55" ), "illegal name %s: %s", quoted( n ).c_str(), got.c_str() );
               if ( legal == 1 && known )
                  CHECK( got == "ok", "legal name %s is refused: %s", quoted( n ).c_str(), got.c_str() );
               if ( legal == 1 && !known )
                  CHECK( got == "56", "name %s: %s", quoted( n ).c_str(), got.c_str() );
               if ( legal >= 0 && strict && !number )
               {
                  CHECK( f.isElementNameExtended( n ) == ( legal == 1 && !prefix.empty() ), "isElementNameExtended of %s",
                         quoted( n ).c_str() );
                  std::string a = "1", b = "2";
                  const auto parsed = m::attempt( [&] { f.elementNameParse( n, a, b ); } );
                  if ( legal )
                     CHECK( parsed == "ok" && a == prefix && b == local, "elementNameParse of %s: %s, %s, %s",
                            quoted( n ).c_str(), parsed.c_str(), quoted( a ).c_str(), quoted( b ).c_str() );
                  else
                     CHECK( parsed == ( n.empty() ? "54" : "55" ), "elementNameParse of %s: %s", quoted( n ).c_str(),
                            parsed.c_str() );
               }
               bool defined = false;
               m::attempt( [&] { defined = s.isDefined( n ); } ); // refuses illegal names
               CHECK( defined == ( got == "ok" ), "isDefined of %s", quoted( n ).c_str() );
            }
            if ( got != "ok" )
               continue;
            kept.push_back( n );
            proto.set( n, e57::IntegerNode( f, 0, 0, 1 ) );
         }
         if ( !kept.empty() )
            f.root().set( "records", e57::CompressedVectorNode( f, proto, e57::VectorNode( f, true ) ) );
         f.close();
      }
      e57::ImageFile f( file, "r" );
      e57::StructureNode s( f.root().get( "s" ) );
      CHECK( s.childCount() == static_cast<int64_t>( kept.size() ), "%lld elements instead of %zu", (long long)s.childCount(),
             kept.size() );
      for ( size_t i = 0; i < kept.size(); ++i )
      {
         CHECK( s.get( static_cast<int64_t>( i ) ).elementName() == kept[i], "element %s instead of %s",
                quoted( s.get( static_cast<int64_t>( i ) ).elementName() ).c_str(), quoted( kept[i] ).c_str() );
         CHECK( s.isDefined( kept[i] ), "%s is not defined", quoted( kept[i] ).c_str() );
      }
      if ( !kept.empty() )
      {
         e57::StructureNode p( e57::CompressedVectorNode( f.root().get( "records" ) ).prototype() );
         for ( size_t i = 0; i < kept.size(); ++i )
            CHECK( p.get( static_cast<int64_t>( i ) ).elementName() == kept[i], "field %s instead of %s",
                   quoted( p.get( static_cast<int64_t>( i ) ).elementName() ).c_str(), quoted( kept[i] ).c_str() );
      }
      f.close();
      return kept.size();
   }

   // All strings of a length over an alphabet, in batches with the same beginning
   template <class F> void strings( const std::vector<std::string> &alphabet, size_t length, size_t batched, F f )
   {
      std::vector<size_t> at( length, 0 );
      std::vector<std::string> batch;
      const size_t fixed = length > batched ? length - batched : 0;
      for ( ;; )
      {
         std::string s;
         for ( size_t i : at )
            s += alphabet[i];
         batch.push_back( s );
         size_t k = length;
         while ( k > 0 && ++at[k - 1] == alphabet.size() )
            at[--k] = 0;
         if ( k == 0 || k <= fixed )
         {
            f( batch );
            batch.clear();
         }
         if ( k == 0 )
            break;
      }
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();

   // sequences of registrations
   {
      const std::vector<std::string> prefixes = { "", "a", "b", "ab" };
      const std::vector<std::string> uris = { "u", "http://a?b&amp;<\"'>", "a", STANDARD };
      std::vector<Op> all;
      for ( auto &p : prefixes )
         for ( auto &u : uris )
            all.push_back( { p, u } );
      // the default namespace is the standard's: others are tried only where they have to be refused
      const auto refused = []( const std::vector<Op> &ops, const Op &o ) {
         Registry model;
         for ( auto &x : ops )
         {
            bool known = !x.prefix.empty() && x.uri == STANDARD;
            for ( auto &e : model )
               known |= e.first == x.prefix || e.second == x.uri;
            if ( !known )
               model.emplace_back( x.prefix, x.uri );
         }
         for ( auto &e : model )
            if ( e.first == o.prefix || e.second == o.uri )
               return true;
         return false;
      };
      const size_t depth = r.thorough ? 5 : 3;
      std::vector<Op> ops;
      std::function<void()> extend = [&] {
         r.test( [&] {
            std::string key = "registry";
            for ( auto &o : ops )
               key += " " + quoted( o.prefix ) + "=" + quoted( o.uri );
            return key;
         },
                 [&] { sequence( r, ops, prefixes, uris ); } );
         if ( ops.size() == depth )
            return;
         for ( auto &o : all )
         {
            if ( o.prefix.empty() && o.uri != STANDARD && !refused( ops, o ) )
               continue;
            ops.push_back( o );
            extend();
            ops.pop_back();
         }
      };
      extend();
   }

   // many extensions
   for ( size_t n : { 10, 100, 1000 } )
      r.test( fmt( "many %zu", n ), [&] {
         Registry want;
         {
            e57::ImageFile f( r.path( "x.e57" ), "w" );
            for ( size_t i = 0; i < n; ++i )
            {
               want.emplace_back( fmt( "p%zu", i ), fmt( "http://x/%zu", n - i ) );
               f.extensionsAdd( want.back().first, want.back().second );
               if ( i % 7 == 0 )
                  f.root().set( want.back().first + ":x", e57::IntegerNode( f, static_cast<int64_t>( i ) ) );
            }
            f.close();
         }
         e57::ImageFile f( r.path( "x.e57" ), "r" );
         checkRegistry( f, reopened( want ), { "p", "P0" }, { "http://x/0", "http://x/" } );
         f.close();
         r.outcome( fmt( "many %zu", n ) );
      } );

   // prefixes
   {
      const std::vector<std::string> alphabet = { "a", "Z", "_", "0", "-", ".", ":", " ", "<", "\"", "/", utf8( 0xE9 ), utf8( 0xB7 ),
                                                  utf8( 0xD7 ), "\xFF", "\x01", "\n" };
      std::vector<std::string> list = { "", "xml", "xmlns", "XML", "xmlfoo", "e57Root", "type", utf8( 0x10000 ), utf8( 0x3B1 ) };
      for ( size_t length = 1; length <= ( r.thorough ? 3 : 2 ); ++length )
         strings( alphabet, length, 1, [&]( const std::vector<std::string> &b ) { list.insert( list.end(), b.begin(), b.end() ); } );
      for ( auto &p : list )
         r.test( "prefix " + quoted( p ), [&] {
            const bool ok = pair( r.path( "x.e57" ), p, p.empty() ? STANDARD : "http://u" );
            // xml and xmlns cannot be declared
            if ( legalPart( p ) == 1 && p != "xml" && p != "xmlns" )
               CHECK( ok, "the prefix is refused" );
            r.outcome( "prefix " + std::to_string( ok ) );
         } );
   }

   // URIs
   {
      const std::vector<std::string> alphabet = { "a", "<", ">", "&", "\"", "'", " ", "\t", "\n", "\r", "]", ";", "#", "%",
                                                  utf8( 0xE9 ), utf8( 0x2028 ), utf8( 0x85 ), utf8( 0x1F600 ), utf8( 0xFFFE ),
                                                  "\xFF", "\x01", "\x7F" };
      std::vector<std::string> list = { "", "&amp;", "&lt;", "&#65;", "&#x41;", "&quot;", "]]>", "<![CDATA[", "<!--", "http://a/b?c=d&e=f#g",
                                        "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/", STANDARD,
                                        std::string( 5000, 'u' ), std::string( 3000, '&' ) };
      for ( size_t length = 1; length <= ( r.thorough ? 3 : 2 ); ++length )
         strings( alphabet, length, 1, [&]( const std::vector<std::string> &b ) { list.insert( list.end(), b.begin(), b.end() ); } );
      for ( auto &u : list )
         r.test( "uri " + quoted( u.substr( 0, 60 ) ) + std::to_string( u.size() ), [&] {
            const bool ok = pair( r.path( "x.e57" ), "p", u );
            bool plain = !u.empty() && u.find( "www.w3.org" ) == std::string::npos && u != STANDARD;
            for ( unsigned char c : u )
               plain = plain && c > 32 && c < 127;
            if ( plain )
               CHECK( ok, "the URI is refused" );
            r.outcome( "uri " + std::to_string( ok ) );
         } );
   }

   // element names
   {
      const std::vector<std::string> alphabet = { "p", ":", "_", "0", "-", ".", " ", "<", utf8( 0xE9 ), utf8( 0xB7 ),
                                                  utf8( 0xD7 ), "\xC3", "\xFF", "\x01" };
      for ( size_t length = 1; length <= ( r.thorough ? 5 : 4 ); ++length )
         strings( alphabet, length, 2, [&]( const std::vector<std::string> &batch ) {
            r.test( fmt( "names from %s", quoted( batch[0] ).c_str() ), [&] {
               std::vector<std::string> list;
               for ( auto &s : batch )
                  if ( s.find( '/' ) == std::string::npos ) // with a slash it is a path
                     list.push_back( s );
               const size_t n = elementNames( r.path( "x.e57" ), list, true );
               r.count( "names", list.size() );
               r.outcome( fmt( "%zu names kept", n ) );
            } );
         } );
      r.test( "special names", [&] {
         elementNames( r.path( "x.e57" ),
                       { "", "e57Root", "p:e57Root", "vectorChild", "p:vectorChild", "prototype", "codecs", "xml", "xmlns", "xmlfoo",
                         "type", "Structure", "p:type", "p", "p:p", "data3D", "Type" },
                       true );
         r.outcome( "special names" );
      } );
      for ( const char *name : { "e57Root", "p:e57Root", "vectorChild", "prototype", "codecs", "type" } )
         for ( int where = 0; where < 4; ++where )
            r.test( fmt( "element %s %d", name, where ), [&] {
               // structures, vectors, blobs and records with special names, at the top and below
               const m::N inner = m::integer( "x", 7 );
               m::N n = where == 0   ? m::structure( name, { inner } )
                        : where == 1 ? m::vec( name, true, { inner } )
                        : where == 2 ? m::blob( name, m::pattern( 5 ) )
                                     : m::structure( name, { m::structure( name, { inner } ) } );
               if ( where == 1 )
                  n.kids[0].name = "";
               const m::N doc = m::structure( "", { n, m::structure( "s", { n } ), inner } );
               {
                  e57::ImageFile f( r.path( "x.e57" ), "w" );
                  f.extensionsAdd( "p", "http://p" );
                  m::writeDoc( f, doc );
                  f.close();
               }
               e57::ImageFile f( r.path( "x.e57" ), "r" );
               const std::string d = m::diff( doc, m::observeFile( f ) );
               CHECK( d.empty(), "%s", d.c_str() );
               checkRegistry( f, { { "p", "http://p" }, { "", STANDARD } }, {}, {} );
               f.close();
               r.outcome( fmt( "element %d", where ) );
            } );
   }

   // every character, as the first and as a following one, with and without prefix
   const uint32_t step = 512;
   for ( uint32_t from = 0x80; from < 0x110000; from += from < 0x11000 || r.thorough ? step : step * 16 )
      for ( int how = 0; how < 2; ++how )
         r.test( fmt( "characters from %X %d", from, how ), [&] {
            std::vector<std::string> list;
            for ( uint32_t c = from; c < std::min<uint32_t>( 0x110000, from + step ); ++c )
               if ( c < 0xD800 || c > 0xDFFF )
               {
                  list.push_back( ( how ? "p:" : "" ) + utf8( c ) );
                  list.push_back( ( how ? "p:" : "" ) + std::string( "a" ) + utf8( c ) );
               }
            const size_t n = elementNames( r.path( "x.e57" ), list, false );
            r.count( "names", list.size() );
            r.outcome( fmt( "%zu characters kept", n ) );
         } );

   // files by others
   {
      struct Foreign
      {
         const char *what, *attributes;
         Registry want;
      };
      const std::string s = STANDARD;
      const std::vector<Foreign> all = {
         { "default first", "xmlns=\"S\" xmlns:a=\"http://a\" xmlns:b=\"http://b\"", { { "", s }, { "a", "http://a" }, { "b", "http://b" } } },
         { "default last", "xmlns:b=\"http://b\" xmlns:a=\"http://a\" xmlns=\"S\"", { { "b", "http://b" }, { "a", "http://a" }, { "", s } } },
         { "default between", "xmlns:b='http://b' xmlns='S' xmlns:a='http://a'", { { "b", "http://b" }, { "", s }, { "a", "http://a" } } },
         { "references", "xmlns='S' xmlns:a='x&amp;y&lt;&#65;&#x42;&quot;&apos;&#9;&#10;'", { { "", s }, { "a", "x&y<AB\"'\t\n" } } },
         { "white space", "xmlns='S' xmlns:a='x\ny'", { { "", s }, { "a", "x y" } } },
         { "prefixed other attribute", "xmlns='S' xmlns:a='http://a' a:note='http://n'", { { "", s }, { "a", "http://a" } } },
      };
      for ( auto &x : all )
         r.test( std::string( "foreign " ) + x.what, [&] {
            std::string attributes = x.attributes;
            attributes.replace( attributes.find( 'S' ), 1, s );
            const std::string xml = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<e57Root " + attributes +
                                    " type=\"Structure\"><x type=\"Integer\">3</x>" +
                                    ( x.want.size() > 1 ? "<a:y type=\"Integer\">4</a:y>" : "" ) + "</e57Root>\n";
            m::spit( r.path( "x.e57" ), refw::withXml( xml, {} ) );
            e57::ImageFile f( r.path( "x.e57" ), "r" );
            checkRegistry( f, x.want, { "a", "b", "c" }, { "http://a", "http://c" } );
            CHECK( e57::IntegerNode( f.root().get( "a:y" ) ).value() == 4, "value of a:y" );
            CHECK( !f.root().isDefined( "c:y" ), "c:y is defined" );
            f.close();
            r.outcome( x.what );
         } );
   }
}
