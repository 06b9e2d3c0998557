#include "ref57.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <locale.h>

using vh::fmt;

namespace ref
{
   namespace
   {
      [[noreturn]] void bad( const char *f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
      void bad( const char *f, ... )
      {
         char b[1024];
         va_list ap;
         va_start( ap, f );
         vsnprintf( b, sizeof b, f, ap );
         va_end( ap );
         throw Bad{ b };
      }
   }
#define NEED( c, ... )                                                                             \
   do                                                                                              \
   {                                                                                               \
      if ( !( c ) )                                                                                \
         bad( __VA_ARGS__ );                                                                       \
   } while ( 0 )

   uint32_t crc32c( const uint8_t *p, size_t n )
   {
      // one bit at a time, reflected polynomial; table built from the same definition
      static uint32_t table[256];
      static bool ready = false;
      if ( !ready )
      {
         for ( uint32_t i = 0; i < 256; ++i )
         {
            uint32_t c = i;
            for ( int k = 0; k < 8; ++k )
               c = ( c & 1 ) ? ( c >> 1 ) ^ 0x82F63B78u : c >> 1;
            table[i] = c;
         }
         ready = true;
      }
      uint32_t c = 0xFFFFFFFFu;
      for ( size_t i = 0; i < n; ++i )
         c = table[( c ^ p[i] ) & 0xFF] ^ ( c >> 8 );
      return ~c;
   }

   std::vector<char> pack( const std::vector<uint8_t> &logical )
   {
      std::vector<char> out;
      for ( size_t at = 0; at < logical.size() || at == 0; at += 1020 )
      {
         uint8_t page[1024] = {};
         const size_t n = std::min<size_t>( 1020, logical.size() - at );
         memcpy( page, logical.data() + at, n );
         const uint32_t c = crc32c( page, 1020 );
         page[1020] = static_cast<uint8_t>( c >> 24 );
         page[1021] = static_cast<uint8_t>( c >> 16 );
         page[1022] = static_cast<uint8_t>( c >> 8 );
         page[1023] = static_cast<uint8_t>( c );
         out.insert( out.end(), page, page + 1024 );
      }
      return out;
   }

   unsigned bitsFor( int64_t lo, int64_t hi )
   {
      uint64_t span = static_cast<uint64_t>( hi ) - static_cast<uint64_t>( lo );
      unsigned b = 0;
      while ( span )
      {
         ++b;
         span >>= 1;
      }
      return b;
   }

   // ---------------------------------------------------------------- XML
   namespace
   {
      struct P
      {
         const std::string &s;
         size_t i = 0;
         explicit P( const std::string &t ) : s( t )
         {
         }
         bool at( const char *t ) const
         {
            return s.compare( i, strlen( t ), t ) == 0;
         }
         void skipSpace()
         {
            while ( i < s.size() && strchr( " \t\r\n", s[i] ) )
               ++i;
         }
         std::string name()
         {
            size_t b = i;
            while ( i < s.size() && !strchr( " \t\r\n=/><\"'&", s[i] ) )
               ++i;
            NEED( i > b, "XML: name expected at byte %zu", b );
            return s.substr( b, i - b );
         }
         std::string entity()
         {
            const size_t e = s.find( ';', i );
            NEED( e != std::string::npos && e - i < 12, "XML: unterminated reference" );
            const std::string n = s.substr( i + 1, e - i - 1 );
            i = e + 1;
            if ( n == "lt" )
               return "<";
            if ( n == "gt" )
               return ">";
            if ( n == "amp" )
               return "&";
            if ( n == "quot" )
               return "\"";
            if ( n == "apos" )
               return "'";
            NEED( n.size() > 1 && n[0] == '#', "XML: unknown entity %s", n.c_str() );
            unsigned long c = n[1] == 'x' ? strtoul( n.c_str() + 2, nullptr, 16 )
                                          : strtoul( n.c_str() + 1, nullptr, 10 );
            std::string o;
            if ( c < 0x80 )
               o += static_cast<char>( c );
            else if ( c < 0x800 )
            {
               o += static_cast<char>( 0xC0 | ( c >> 6 ) );
               o += static_cast<char>( 0x80 | ( c & 63 ) );
            }
            else if ( c < 0x10000 )
            {
               o += static_cast<char>( 0xE0 | ( c >> 12 ) );
               o += static_cast<char>( 0x80 | ( ( c >> 6 ) & 63 ) );
               o += static_cast<char>( 0x80 | ( c & 63 ) );
            }
            else
            {
               o += static_cast<char>( 0xF0 | ( c >> 18 ) );
               o += static_cast<char>( 0x80 | ( ( c >> 12 ) & 63 ) );
               o += static_cast<char>( 0x80 | ( ( c >> 6 ) & 63 ) );
               o += static_cast<char>( 0x80 | ( c & 63 ) );
            }
            return o;
         }
         // A character of the text, with line ends normalised as the standard asks
         void take( std::string &out )
         {
            const unsigned char c = static_cast<unsigned char>( s[i] );
            NEED( c >= 0x20 || c == 9 || c == 10 || c == 13, "XML: control character %d", c );
            if ( c == 13 )
            {
               ++i;
               if ( i < s.size() && s[i] == '\n' )
                  ++i;
               out += '\n';
               return;
            }
            out += static_cast<char>( c );
            ++i;
         }
         void misc()
         {
            for ( ;; )
            {
               skipSpace();
               if ( at( "<!--" ) )
               {
                  const size_t e = s.find( "-->", i );
                  NEED( e != std::string::npos, "XML: unterminated comment" );
                  i = e + 3;
               }
               else if ( at( "<?" ) )
               {
                  const size_t e = s.find( "?>", i );
                  NEED( e != std::string::npos, "XML: unterminated instruction" );
                  i = e + 2;
               }
               else
                  return;
            }
         }
         Xml element( int depth )
         {
            NEED( depth < 200, "XML: too deep" );
            NEED( i < s.size() && s[i] == '<', "XML: element expected at byte %zu", i );
            ++i;
            Xml x;
            x.name = name();
            for ( ;; )
            {
               const size_t before = i;
               skipSpace();
               NEED( i < s.size(), "XML: unterminated tag" );
               if ( at( "/>" ) )
               {
                  i += 2;
                  return x;
               }
               if ( s[i] == '>' )
               {
                  ++i;
                  break;
               }
               NEED( i > before, "XML: space expected before attribute" );
               std::string n = name();
               skipSpace();
               NEED( i < s.size() && s[i] == '=', "XML: = expected" );
               ++i;
               skipSpace();
               NEED( i < s.size() && ( s[i] == '"' || s[i] == '\'' ), "XML: quote expected" );
               const char q = s[i++];
               std::string v;
               while ( i < s.size() && s[i] != q )
               {
                  NEED( s[i] != '<', "XML: < in attribute value" );
                  if ( s[i] == '&' )
                     v += entity();
                  else
                     take( v );
               }
               NEED( i < s.size(), "XML: unterminated attribute" );
               ++i;
               NEED( !x.attr( n ), "XML: attribute %s given twice", n.c_str() );
               x.attrs.emplace_back( n, v );
            }
            for ( ;; )
            {
               NEED( i < s.size(), "XML: element %s not closed", x.name.c_str() );
               if ( at( "<![CDATA[" ) )
               {
                  i += 9;
                  while ( i < s.size() && !at( "]]>" ) )
                     take( x.text );
                  NEED( i < s.size(), "XML: unterminated CDATA" );
                  i += 3;
               }
               else if ( at( "<!--" ) || at( "<?" ) )
                  misc();
               else if ( at( "</" ) )
               {
                  i += 2;
                  const std::string n = name();
                  NEED( n == x.name, "XML: </%s> closes <%s>", n.c_str(), x.name.c_str() );
                  skipSpace();
                  NEED( i < s.size() && s[i] == '>', "XML: > expected" );
                  ++i;
                  return x;
               }
               else if ( s[i] == '<' )
                  x.kids.push_back( element( depth + 1 ) );
               else if ( s[i] == '&' )
                  x.text += entity();
               else
               {
                  NEED( !at( "]]>" ), "XML: ]]> in text" );
                  take( x.text );
               }
            }
         }
      };

      bool validUtf8( const std::string &s )
      {
         for ( size_t i = 0; i < s.size(); )
         {
            const unsigned char c = static_cast<unsigned char>( s[i] );
            int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1;
            if ( n < 0 || i + n >= s.size() + ( n == 0 ? 1 : 0 ) )
               return false;
            for ( int k = 1; k <= n; ++k )
               if ( i + k >= s.size() || ( static_cast<unsigned char>( s[i + k] ) & 0xC0 ) != 0x80 )
                  return false;
            i += n + 1;
         }
         return true;
      }

      uint16_t u16( const uint8_t *p )
      {
         return static_cast<uint16_t>( p[0] | ( p[1] << 8 ) );
      }
      uint32_t u32( const uint8_t *p )
      {
         return p[0] | ( p[1] << 8 ) | ( p[2] << 16 ) | ( static_cast<uint32_t>( p[3] ) << 24 );
      }
      uint64_t u64( const uint8_t *p )
      {
         return u32( p ) | ( static_cast<uint64_t>( u32( p + 4 ) ) << 32 );
      }

      int64_t parseInt( const std::string &t, const char *what )
      {
         size_t i = 0;
         bool neg = false;
         if ( i < t.size() && ( t[i] == '-' || t[i] == '+' ) )
            neg = t[i++] == '-';
         NEED( i < t.size(), "%s: '%s' is not an integer", what, t.c_str() );
         uint64_t v = 0;
         for ( ; i < t.size(); ++i )
         {
            NEED( t[i] >= '0' && t[i] <= '9', "%s: '%s' is not an integer", what, t.c_str() );
            const uint64_t d = static_cast<uint64_t>( t[i] - '0' );
            NEED( v <= ( UINT64_MAX - d ) / 10, "%s: '%s' out of range", what, t.c_str() );
            v = v * 10 + d;
         }
         NEED( v <= ( neg ? 9223372036854775808ULL : 9223372036854775807ULL ), "%s: '%s' out of range",
               what, t.c_str() );
         return neg ? static_cast<int64_t>( 0 - v ) : static_cast<int64_t>( v );
      }
      double parseReal( const std::string &t, const char *what )
      {
         static locale_t c = newlocale( LC_ALL_MASK, "C", nullptr );
         // xsd:double lexical form
         size_t i = 0;
         if ( i < t.size() && ( t[i] == '-' || t[i] == '+' ) )
            ++i;
         size_t digits = 0;
         while ( i < t.size() && isdigit( static_cast<unsigned char>( t[i] ) ) )
            ++i, ++digits;
         if ( i < t.size() && t[i] == '.' )
         {
            ++i;
            while ( i < t.size() && isdigit( static_cast<unsigned char>( t[i] ) ) )
               ++i, ++digits;
         }
         NEED( digits > 0, "%s: '%s' is not a number", what, t.c_str() );
         if ( i < t.size() && ( t[i] == 'e' || t[i] == 'E' ) )
         {
            ++i;
            if ( i < t.size() && ( t[i] == '-' || t[i] == '+' ) )
               ++i;
            size_t ex = 0;
            while ( i < t.size() && isdigit( static_cast<unsigned char>( t[i] ) ) )
               ++i, ++ex;
            NEED( ex > 0, "%s: '%s' is not a number", what, t.c_str() );
         }
         NEED( i == t.size(), "%s: '%s' is not a number", what, t.c_str() );
         return strtod_l( t.c_str(), nullptr, c );
      }

      struct Decoder
      {
         Decoded d;
         uint64_t fileLogical = 0;

         uint64_t logicalOf( uint64_t phys, const char *what )
         {
            NEED( phys % 1024 < 1020, "%s: physical offset %llu points into a checksum", what,
                  static_cast<unsigned long long>( phys ) );
            return phys / 1024 * 1020 + phys % 1024;
         }
         const uint8_t *bytes( uint64_t at, uint64_t n, const char *what )
         {
            NEED( at <= fileLogical && n <= fileLogical - at, "%s: bytes %llu+%llu outside the file", what,
                  static_cast<unsigned long long>( at ), static_cast<unsigned long long>( n ) );
            return d.logical.data() + at;
         }
         void blob( const Xml &x, m::N &n, const std::string &path )
         {
            NEED( x.attr( "fileOffset" ) && x.attr( "length" ), "%s: blob attributes", path.c_str() );
            const int64_t len = parseInt( *x.attr( "length" ), "length" );
            const int64_t off = parseInt( *x.attr( "fileOffset" ), "fileOffset" );
            NEED( len >= 0 && off > 0, "%s: blob attributes", path.c_str() );
            const uint64_t start = logicalOf( static_cast<uint64_t>( off ), "blob" );
            const uint8_t *h = bytes( start, 16, "blob header" );
            NEED( h[0] == 0, "%s: section id %d", path.c_str(), h[0] );
            for ( int i = 1; i < 8; ++i )
               NEED( h[i] == 0, "%s: reserved bytes", path.c_str() );
            const uint64_t sec = u64( h + 8 );
            NEED( sec >= 16 + static_cast<uint64_t>( len ), "%s: blob section of %llu bytes for %lld", path.c_str(),
                  static_cast<unsigned long long>( sec ), static_cast<long long>( len ) );
            NEED( sec < 16 + static_cast<uint64_t>( len ) + 8, "%s: blob section of %llu bytes for %lld", path.c_str(),
                  static_cast<unsigned long long>( sec ), static_cast<long long>( len ) );
            NEED( sec % 4 == 0, "%s: blob section length %llu", path.c_str(),
                  static_cast<unsigned long long>( sec ) );
            const uint8_t *b = bytes( start, sec, "blob" );
            n.bytes.assign( b + 16, b + 16 + len );
            for ( uint64_t i = 16 + static_cast<uint64_t>( len ); i < sec; ++i )
               NEED( b[i] == 0, "%s: blob padding not zero", path.c_str() );
            d.sections.push_back( { path, start, sec } );
         }
         void cv( const Xml &x, m::N &n, const std::string &path )
         {
            NEED( x.attr( "fileOffset" ) && x.attr( "recordCount" ), "%s: attributes", path.c_str() );
            n.records = parseInt( *x.attr( "recordCount" ), "recordCount" );
            const int64_t off = parseInt( *x.attr( "fileOffset" ), "fileOffset" );
            NEED( n.records >= 0 && off >= 0, "%s: attributes", path.c_str() );
            const Xml *proto = nullptr, *codecs = nullptr;
            for ( auto &k : x.kids )
            {
               if ( k.name == "prototype" )
                  proto = &k;
               else if ( k.name == "codecs" )
                  codecs = &k;
               else
                  bad( "%s: unknown child %s", path.c_str(), k.name.c_str() );
            }
            NEED( proto && codecs && x.kids.size() == 2, "%s: prototype and codecs", path.c_str() );
            n.kids.push_back( node( *proto, path + "/prototype" ) );
            n.kids.push_back( node( *codecs, path + "/codecs" ) );
            NEED( n.kids[1].type == m::T::Vector && n.kids[1].hetero, "%s: codecs", path.c_str() );
            std::vector<std::pair<std::string, const m::N *>> lv;
            m::leaves( n.kids[0], "", lv );
            if ( off == 0 )
            {
               NEED( n.records == 0, "%s: %lld records without a section", path.c_str(),
                     static_cast<long long>( n.records ) );
               return;
            }
            const uint64_t start = logicalOf( static_cast<uint64_t>( off ), "compressed vector" );
            const uint8_t *h = bytes( start, 32, "section header" );
            NEED( h[0] == 1, "%s: section id %d", path.c_str(), h[0] );
            for ( int i = 1; i < 8; ++i )
               NEED( h[i] == 0, "%s: reserved bytes", path.c_str() );
            const uint64_t sec = u64( h + 8 ), dataPhys = u64( h + 16 ), indexPhys = u64( h + 24 );
            NEED( sec >= 32 && sec % 4 == 0, "%s: section length %llu", path.c_str(),
                  static_cast<unsigned long long>( sec ) );
            bytes( start, sec, "section" );
            d.sections.push_back( { path, start, sec } );
            std::vector<std::vector<uint8_t>> streams( lv.size() );
            std::vector<uint64_t> dataStarts;
            uint64_t firstData = 0, firstIndex = 0;
            if ( sec > 32 )
            {
               const uint64_t end = start + sec;
               uint64_t p = start + 32;
               while ( p < end )
               {
                  NEED( end - p >= 4, "%s: packet header", path.c_str() );
                  const uint8_t *b = bytes( p, 4, "packet" );
                  const uint64_t len = u16( b + 2 ) + 1ULL;
                  NEED( len % 4 == 0, "%s: packet length %llu", path.c_str(),
                        static_cast<unsigned long long>( len ) );
                  NEED( p + len <= end, "%s: packet beyond the section", path.c_str() );
                  b = bytes( p, len, "packet" );
                  PacketInfo pi;
                  pi.cv = path;
                  pi.type = b[0];
                  pi.start = p;
                  pi.length = len;
                  NEED( b[0] <= 2, "%s: packet type %d", path.c_str(), b[0] );
                  if ( b[0] == 1 )
                  {
                     NEED( b[1] == 0, "%s: packet flags %d", path.c_str(), b[1] );
                     const unsigned nb = u16( b + 4 );
                     NEED( nb == lv.size(), "%s: %u bytestreams for %zu fields", path.c_str(), nb, lv.size() );
                     uint64_t q = 6 + 2ULL * nb;
                     NEED( q <= len, "%s: packet too short", path.c_str() );
                     for ( unsigned k = 0; k < nb; ++k )
                     {
                        const unsigned bl = u16( b + 6 + 2 * k );
                        NEED( q + bl <= len, "%s: bytestream beyond the packet", path.c_str() );
                        streams[k].insert( streams[k].end(), b + q, b + q + bl );
                        pi.streams.push_back( bl );
                        q += bl;
                     }
                     NEED( len - q < 4, "%s: %llu unused bytes in packet", path.c_str(),
                           static_cast<unsigned long long>( len - q ) );
                     for ( ; q < len; ++q )
                        NEED( b[q] == 0, "%s: packet padding not zero", path.c_str() );
                     if ( !firstData )
                        firstData = p;
                     dataStarts.push_back( p );
                  }
                  else if ( b[0] == 0 )
                  {
                     NEED( len >= 16, "%s: index packet length", path.c_str() );
                     const unsigned ne = u16( b + 4 );
                     NEED( b[1] == 0 && b[6] <= 5, "%s: index packet header", path.c_str() );
                     for ( int i = 7; i < 16; ++i )
                        NEED( b[i] == 0, "%s: index packet reserved bytes", path.c_str() );
                     NEED( len == 16 + 16ULL * ne, "%s: index packet of %llu bytes with %u entries",
                           path.c_str(), static_cast<unsigned long long>( len ), ne );
                     if ( !firstIndex )
                        firstIndex = p;
                     uint64_t last = 0;
                     for ( unsigned k = 0; k < ne; ++k )
                     {
                        const uint64_t rec = u64( b + 16 + 16 * k ), po = u64( b + 24 + 16 * k );
                        NEED( rec < static_cast<uint64_t>( n.records ) || rec == 0, "%s: index entry record %llu",
                              path.c_str(), static_cast<unsigned long long>( rec ) );
                        NEED( k == 0 ? rec == 0 : rec > last, "%s: index entries not increasing", path.c_str() );
                        last = rec;
                        const uint64_t lo = logicalOf( po, "index entry" );
                        NEED( b[6] != 0 ||
                                 std::find( dataStarts.begin(), dataStarts.end(), lo ) != dataStarts.end(),
                              "%s: index entry does not point to a data packet before it", path.c_str() );
                     }
                  }
                  d.packets.push_back( pi );
                  p += len;
               }
            }
            if ( dataPhys )
               NEED( logicalOf( dataPhys, "dataPhysicalOffset" ) == firstData, "%s: dataPhysicalOffset",
                     path.c_str() );
            else
               NEED( firstData == 0, "%s: dataPhysicalOffset missing", path.c_str() );
            if ( indexPhys )
               NEED( logicalOf( indexPhys, "indexPhysicalOffset" ) == firstIndex, "%s: indexPhysicalOffset",
                     path.c_str() );
            else
               NEED( firstIndex == 0, "%s: indexPhysicalOffset missing", path.c_str() );

            for ( size_t k = 0; k < lv.size(); ++k )
            {
               m::Col c;
               c.path = lv[k].first;
               c.type = lv[k].second->type;
               c.single = lv[k].second->single;
               decodeStream( *lv[k].second, streams[k], static_cast<uint64_t>( n.records ), c,
                             path + " field " + c.path );
               n.cols.push_back( c );
            }
         }
         void decodeStream( const m::N &f, const std::vector<uint8_t> &s, uint64_t records, m::Col &c,
                            const std::string &what )
         {
            if ( f.type == m::T::Integer || f.type == m::T::Scaled )
            {
               const unsigned bits = bitsFor( f.min, f.max );
               const uint64_t need = bits * records;
               NEED( s.size() * 8 >= need, "%s: %zu bytes for %llu records", what.c_str(), s.size(),
                     static_cast<unsigned long long>( records ) );
               uint64_t pos = 0;
               for ( uint64_t r = 0; r < records; ++r )
               {
                  uint64_t v = 0;
                  for ( unsigned b = 0; b < bits; ++b, ++pos )
                     v |= static_cast<uint64_t>( ( s[pos / 8] >> ( pos % 8 ) ) & 1 ) << b;
                  v += static_cast<uint64_t>( f.min );
                  const int64_t x = static_cast<int64_t>( v );
                  NEED( x >= f.min && x <= f.max, "%s: record %llu is %lld", what.c_str(),
                        static_cast<unsigned long long>( r ), static_cast<long long>( x ) );
                  c.i.push_back( x );
               }
               // the rest is padding of the last partial register
               NEED( s.size() * 8 - pos < 64, "%s: %llu unused bits", what.c_str(),
                     static_cast<unsigned long long>( s.size() * 8 - pos ) );
               for ( ; pos < s.size() * 8; ++pos )
                  NEED( ( ( s[pos / 8] >> ( pos % 8 ) ) & 1 ) == 0, "%s: unused bits not zero", what.c_str() );
            }
            else if ( f.type == m::T::Float )
            {
               const size_t w = f.single ? 4 : 8;
               NEED( s.size() == w * records, "%s: %zu bytes for %llu records", what.c_str(), s.size(),
                     static_cast<unsigned long long>( records ) );
               for ( uint64_t r = 0; r < records; ++r )
               {
                  if ( f.single )
                  {
                     float x;
                     memcpy( &x, &s[r * 4], 4 );
                     c.d.push_back( x );
                  }
                  else
                  {
                     double x;
                     memcpy( &x, &s[r * 8], 8 );
                     c.d.push_back( x );
                  }
               }
            }
            else if ( f.type == m::T::String )
            {
               size_t p = 0;
               for ( uint64_t r = 0; r < records; ++r )
               {
                  NEED( p < s.size(), "%s: string %llu missing", what.c_str(),
                        static_cast<unsigned long long>( r ) );
                  uint64_t len;
                  if ( s[p] & 1 )
                  {
                     NEED( p + 8 <= s.size(), "%s: string length", what.c_str() );
                     len = u64( &s[p] ) >> 1;
                     NEED( len > 127, "%s: long form used for a string of %llu bytes", what.c_str(),
                           static_cast<unsigned long long>( len ) );
                     p += 8;
                  }
                  else
                     len = s[p++] >> 1;
                  NEED( len <= s.size() - p, "%s: string %llu too long", what.c_str(),
                        static_cast<unsigned long long>( r ) );
                  c.s.emplace_back( s.begin() + p, s.begin() + p + len );
                  p += len;
               }
               NEED( p == s.size(), "%s: %zu bytes left over", what.c_str(), s.size() - p );
            }
            else
               bad( "%s: type not allowed in a prototype", what.c_str() );
         }
         static void onlyAttrs( const Xml &x, const std::string &path, std::vector<std::string> ok, bool root )
         {
            ok.push_back( "type" );
            for ( auto &a : x.attrs )
            {
               if ( root && ( a.first == "xmlns" || a.first.compare( 0, 6, "xmlns:" ) == 0 ) )
                  continue;
               NEED( std::find( ok.begin(), ok.end(), a.first ) != ok.end(), "%s: unexpected attribute %s",
                     path.c_str(), a.first.c_str() );
            }
         }
         static bool blank( const std::string &t )
         {
            return t.find_first_not_of( " \t\r\n" ) == std::string::npos;
         }
         m::N node( const Xml &x, const std::string &path, bool root = false )
         {
            m::N n;
            n.name = x.name;
            const auto colon = x.name.find( ':' );
            if ( colon != std::string::npos )
            {
               bool known = false;
               for ( auto &e : d.extensions )
                  known |= e.first == x.name.substr( 0, colon );
               NEED( known, "%s: prefix not declared", path.c_str() );
            }
            const std::string *t = x.attr( "type" );
            NEED( t, "%s: no type", path.c_str() );
            auto I = [&]( const char *a, int64_t def ) {
               return x.attr( a ) ? parseInt( *x.attr( a ), ( path + " " + a ).c_str() ) : def;
            };
            auto R = [&]( const char *a, double def ) {
               return x.attr( a ) ? parseReal( *x.attr( a ), ( path + " " + a ).c_str() ) : def;
            };
            if ( *t == "Structure" )
            {
               onlyAttrs( x, path, {}, root );
               n.type = m::T::Structure;
               NEED( blank( x.text ), "%s: text in structure", path.c_str() );
               for ( auto &k : x.kids )
               {
                  for ( auto &o : n.kids )
                     NEED( o.name != k.name, "%s: two children named %s", path.c_str(), k.name.c_str() );
                  n.kids.push_back( node( k, path + "/" + k.name ) );
               }
               return n;
            }
            if ( *t == "Vector" )
            {
               onlyAttrs( x, path, { "allowHeterogeneousChildren" }, root );
               n.type = m::T::Vector;
               n.hetero = I( "allowHeterogeneousChildren", 0 ) != 0;
               NEED( blank( x.text ), "%s: text in vector", path.c_str() );
               for ( auto &k : x.kids )
               {
                  NEED( k.name == "vectorChild", "%s: vector child named %s", path.c_str(), k.name.c_str() );
                  n.kids.push_back( node( k, path + "/" + std::to_string( n.kids.size() ) ) );
                  n.kids.back().name = std::to_string( n.kids.size() - 1 );
               }
               return n;
            }
            if ( *t == "CompressedVector" )
            {
               onlyAttrs( x, path, { "fileOffset", "recordCount" }, root );
               n.type = m::T::CV;
               NEED( blank( x.text ), "%s: text in compressed vector", path.c_str() );
               cv( x, n, path );
               return n;
            }
            NEED( x.kids.empty(), "%s: children in a terminal element", path.c_str() );
            if ( *t == "Integer" || *t == "ScaledInteger" )
            {
               const bool sc = *t == "ScaledInteger";
               onlyAttrs( x, path,
                          sc ? std::vector<std::string>{ "minimum", "maximum", "scale", "offset" }
                             : std::vector<std::string>{ "minimum", "maximum" },
                          root );
               n.type = sc ? m::T::Scaled : m::T::Integer;
               n.min = I( "minimum", INT64_MIN );
               n.max = I( "maximum", INT64_MAX );
               n.value = blank( x.text ) ? 0 : parseInt( x.text, path.c_str() );
               n.scale = R( "scale", 1 );
               n.offset = R( "offset", 0 );
               NEED( n.min <= n.value && n.value <= n.max, "%s: value outside its range", path.c_str() );
               return n;
            }
            if ( *t == "Float" )
            {
               onlyAttrs( x, path, { "precision", "minimum", "maximum" }, root );
               n.type = m::T::Float;
               n.single = x.attr( "precision" ) && *x.attr( "precision" ) == "single";
               NEED( !x.attr( "precision" ) || n.single || *x.attr( "precision" ) == "double",
                     "%s: precision", path.c_str() );
               const double lim =
                  n.single ? std::numeric_limits<float>::max() : std::numeric_limits<double>::max();
               n.fmin = R( "minimum", -lim );
               n.fmax = R( "maximum", lim );
               n.fvalue = blank( x.text ) ? 0 : parseReal( x.text, path.c_str() );
               if ( n.single )
               {
                  n.fmin = static_cast<float>( n.fmin );
                  n.fmax = static_cast<float>( n.fmax );
                  n.fvalue = static_cast<float>( n.fvalue );
               }
               return n;
            }
            if ( *t == "String" )
            {
               onlyAttrs( x, path, {}, root );
               n.type = m::T::String;
               n.s = x.text;
               return n;
            }
            if ( *t == "Blob" )
            {
               onlyAttrs( x, path, { "fileOffset", "length" }, root );
               n.type = m::T::Blob;
               NEED( blank( x.text ), "%s: text in blob", path.c_str() );
               blob( x, n, path );
               return n;
            }
            bad( "%s: unknown type %s", path.c_str(), t->c_str() );
         }
      };
   }

   Xml parseXml( const std::string &text )
   {
      P p( text );
      if ( p.at( "\xEF\xBB\xBF" ) )
         p.i = 3;
      NEED( p.at( "<?xml" ), "XML: no declaration" );
      p.misc();
      Xml x = p.element( 0 );
      p.misc();
      NEED( p.i == text.size(), "XML: bytes after the root element" );
      return x;
   }

   Decoded decode( const std::vector<char> &file )
   {
      Decoder dec;
      Decoded &d = dec.d;
      NEED( !file.empty() && file.size() % 1024 == 0, "file of %zu bytes", file.size() );
      auto raw = reinterpret_cast<const uint8_t *>( file.data() );
      for ( size_t p = 0; p < file.size() / 1024; ++p )
      {
         const uint8_t *pg = raw + p * 1024;
         const uint32_t c = crc32c( pg, 1020 );
         const uint32_t stored = ( static_cast<uint32_t>( pg[1020] ) << 24 ) | ( pg[1021] << 16 ) |
                                 ( pg[1022] << 8 ) | pg[1023];
         NEED( c == stored, "checksum of page %zu", p );
         d.logical.insert( d.logical.end(), pg, pg + 1020 );
      }
      dec.fileLogical = d.logical.size();
      const uint8_t *h = d.logical.data();
      NEED( memcmp( h, "ASTM-E57", 8 ) == 0, "signature" );
      NEED( u32( h + 8 ) == 1 && u32( h + 12 ) == 0, "version %u.%u", u32( h + 8 ), u32( h + 12 ) );
      NEED( u64( h + 16 ) == file.size(), "file length %llu in the header of a file of %zu bytes",
            static_cast<unsigned long long>( u64( h + 16 ) ), file.size() );
      NEED( u64( h + 40 ) == 1024, "page size" );
      const uint64_t xmlLen = u64( h + 32 );
      d.xmlStart = dec.logicalOf( u64( h + 24 ), "xmlPhysicalOffset" );
      const uint8_t *x = dec.bytes( d.xmlStart, xmlLen, "XML section" );
      d.xml.assign( x, x + xmlLen );
      d.sections.push_back( { "header", 0, 48 } );
      d.sections.push_back( { "XML", d.xmlStart, xmlLen } );
      NEED( validUtf8( d.xml ), "XML is not UTF-8" );
      const Xml root = parseXml( d.xml );
      NEED( root.name == "e57Root", "root element %s", root.name.c_str() );
      for ( auto &a : root.attrs )
      {
         if ( a.first == "xmlns" )
            d.defaultUri = a.second;
         else if ( a.first.compare( 0, 6, "xmlns:" ) == 0 )
            d.extensions.emplace_back( a.first.substr( 6 ), a.second );
      }
      d.root = dec.node( root, "", true );
      NEED( d.root.type == m::T::Structure, "root is not a structure" );
      auto s = d.sections;
      std::sort( s.begin(), s.end(), []( const Section &a, const Section &b ) { return a.start < b.start; } );
      for ( size_t i = 0; i + 1 < s.size(); ++i )
         NEED( s[i].start + s[i].length <= s[i + 1].start, "sections of '%s' and '%s' overlap",
               s[i].what.c_str(), s[i + 1].what.c_str() );
      return d;
   }
}
