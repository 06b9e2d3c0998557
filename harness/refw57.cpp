#include "refw57.hpp"

#include <algorithm>

using vh::fmt;

namespace refw
{
   void put16( std::vector<uint8_t> &v, size_t at, uint64_t x )
   {
      for ( int i = 0; i < 2; ++i )
         v[at + i] = static_cast<uint8_t>( x >> ( 8 * i ) );
   }
   void put32( std::vector<uint8_t> &v, size_t at, uint64_t x )
   {
      for ( int i = 0; i < 4; ++i )
         v[at + i] = static_cast<uint8_t>( x >> ( 8 * i ) );
   }
   void put64( std::vector<uint8_t> &v, size_t at, uint64_t x )
   {
      for ( int i = 0; i < 8; ++i )
         v[at + i] = static_cast<uint8_t>( x >> ( 8 * i ) );
   }

   std::vector<uint8_t> stream( const m::N &f, const m::Col &c, bool longPrefix )
   {
      std::vector<uint8_t> out;
      if ( f.type == m::T::Float )
      {
         for ( double x : c.d )
         {
            uint8_t b[8];
            if ( f.single )
            {
               const float y = static_cast<float>( x );
               memcpy( b, &y, 4 );
            }
            else
               memcpy( b, &x, 8 );
            out.insert( out.end(), b, b + ( f.single ? 4 : 8 ) );
         }
      }
      else if ( f.type == m::T::String )
      {
         for ( auto &s : c.s )
         {
            if ( s.size() <= 127 && !longPrefix )
               out.push_back( static_cast<uint8_t>( s.size() << 1 ) );
            else
            {
               const size_t at = out.size();
               out.resize( at + 8 );
               put64( out, at, ( s.size() << 1 ) | 1 );
            }
            out.insert( out.end(), s.begin(), s.end() );
         }
      }
      else
      {
         const unsigned bits = ref::bitsFor( f.min, f.max );
         uint64_t pos = 0;
         out.assign( ( bits * c.i.size() + 7 ) / 8, 0 );
         for ( int64_t x : c.i )
         {
            const uint64_t v = static_cast<uint64_t>( x ) - static_cast<uint64_t>( f.min );
            for ( unsigned b = 0; b < bits; ++b, ++pos )
               if ( ( v >> b ) & 1 )
                  out[pos / 8] |= static_cast<uint8_t>( 1 << ( pos % 8 ) );
         }
      }
      return out;
   }

   std::vector<Packet> onePacket( const std::vector<size_t> &lengths )
   {
      Packet p;
      p.take = lengths;
      return { p };
   }
   std::vector<Packet> fixedCut( const std::vector<size_t> &lengths, size_t bytes )
   {
      std::vector<Packet> out;
      std::vector<size_t> left = lengths;
      do
      {
         Packet p;
         for ( auto &l : left )
         {
            const size_t k = std::min( l, bytes );
            p.take.push_back( k );
            l -= k;
         }
         out.push_back( p );
      } while ( std::any_of( left.begin(), left.end(), []( size_t l ) { return l > 0; } ) );
      return out;
   }

   std::string real( double v, bool single )
   {
      return fmt( single ? "%.9g" : "%.17g", v );
   }

   namespace
   {
      struct W
      {
         const Layout &l;
         std::vector<uint8_t> &out;
         Marks &marks;
         bool dry;
         std::string xml;

         std::string esc( const std::string &s, bool attr )
         {
            std::string o;
            for ( char c : s )
            {
               if ( c == '<' )
                  o += "&lt;";
               else if ( c == '>' )
                  o += "&gt;";
               else if ( c == '&' )
                  o += "&amp;";
               else if ( c == '"' && attr )
                  o += "&quot;";
               else if ( c == '\r' )
                  o += "&#13;";
               else if ( attr && c == '\n' )
                  o += "&#10;";
               else if ( attr && c == '\t' )
                  o += "&#9;";
               else
                  o += c;
            }
            return o;
         }
         uint64_t physical( uint64_t at ) const
         {
            return ref::toPhysical( at ) + ( at >= marks.farFrom * 1020 ? l.farPages * 1024 : 0 );
         }
         void align()
         {
            while ( out.size() % 4 )
               out.push_back( 0 );
            out.resize( out.size() + l.gap, 0 );
         }
         uint64_t putBlob( const m::N &n, const std::string &path )
         {
            align();
            const size_t at = out.size();
            size_t len = 16 + n.bytes.size();
            len = ( len + 3 ) / 4 * 4;
            out.resize( at + len, 0 );
            put64( out, at + 8, len );
            std::copy( n.bytes.begin(), n.bytes.end(), out.begin() + at + 16 );
            marks.sections.push_back( { path, at, len } );
            return physical( at );
         }
         uint64_t putCv( const m::N &n, const std::string &path )
         {
            align();
            const size_t at = out.size();
            out.resize( at + 32, 0 );
            out[at] = 1;
            std::vector<std::pair<std::string, const m::N *>> lv;
            m::leaves( n.kids[0], "", lv );
            std::vector<std::vector<uint8_t>> s;
            std::vector<size_t> lengths;
            for ( size_t i = 0; i < lv.size(); ++i )
            {
               s.push_back( n.cols.empty() ? std::vector<uint8_t>() : stream( *lv[i].second, n.cols[i], l.longPrefix ) );
               lengths.push_back( s.back().size() );
            }
            std::vector<size_t> used( s.size(), 0 ), dataAt;
            size_t firstIndex = 0;
            std::vector<std::pair<size_t, uint64_t>> fix; // where to put which data packet's offset
            for ( auto &p : l.cut ? l.cut( lengths ) : onePacket( lengths ) )
            {
               const size_t q = out.size();
               ref::PacketInfo pi;
               pi.cv = path;
               pi.type = static_cast<uint8_t>( p.type );
               pi.start = q;
               if ( p.type == 1 )
               {
                  size_t len = 6 + 2 * s.size();
                  for ( auto t : p.take )
                     len += t;
                  len = ( len + 3 ) / 4 * 4 + p.length;
                  out.resize( q + len, 0 );
                  out[q] = 1;
                  put16( out, q + 2, len - 1 );
                  put16( out, q + 4, s.size() );
                  size_t w = q + 6 + 2 * s.size();
                  for ( size_t i = 0; i < s.size(); ++i )
                  {
                     put16( out, q + 6 + 2 * i, p.take[i] );
                     std::copy( s[i].begin() + used[i], s[i].begin() + used[i] + p.take[i], out.begin() + w );
                     used[i] += p.take[i];
                     w += p.take[i];
                     pi.streams.push_back( static_cast<unsigned>( p.take[i] ) );
                  }
                  dataAt.push_back( q );
               }
               else if ( p.type == 0 )
               {
                  const size_t len = 16 + 16 * p.entries.size();
                  out.resize( q + len, 0 );
                  put16( out, q + 2, len - 1 );
                  put16( out, q + 4, p.entries.size() );
                  out[q + 6] = static_cast<uint8_t>( p.level );
                  for ( size_t i = 0; i < p.entries.size(); ++i )
                  {
                     put64( out, q + 16 + 16 * i, p.entries[i].first );
                     fix.emplace_back( q + 24 + 16 * i, p.entries[i].second );
                  }
                  if ( !firstIndex )
                     firstIndex = q;
               }
               else
               {
                  out.resize( q + p.length, 0 );
                  out[q] = 2;
                  put16( out, q + 2, p.length - 1 );
               }
               pi.length = out.size() - q;
               marks.packets.push_back( pi );
            }
            for ( auto &f : fix )
               put64( out, f.first, physical( dataAt.at( f.second ) ) );
            put64( out, at + 8, out.size() - at );
            put64( out, at + 16, dataAt.empty() ? 0 : physical( dataAt[0] ) );
            put64( out, at + 24, l.indexOffset && firstIndex ? physical( firstIndex ) : 0 );
            marks.sections.push_back( { path, at, out.size() - at } );
            return physical( at );
         }
         void emit( const m::N &n, const std::string &name, const std::string &path, int depth, bool root )
         {
            std::vector<std::pair<std::string, std::string>> at;
            std::string body;
            bool hasKids = false, close = true;
            const std::string &pad = l.numberPad;
            auto I = [&]( int64_t v ) { return std::to_string( v ); };
            switch ( n.type )
            {
               case m::T::Structure:
                  at.emplace_back( "type", "Structure" );
                  hasKids = true;
                  break;
               case m::T::Vector:
                  at.emplace_back( "type", "Vector" );
                  if ( n.hetero || l.explicitDefaults )
                     at.emplace_back( "allowHeterogeneousChildren", n.hetero ? "1" : "0" );
                  hasKids = true;
                  break;
               case m::T::CV:
                  at.emplace_back( "type", "CompressedVector" );
                  at.emplace_back( "fileOffset", std::to_string( putCv( n, path ) ) );
                  at.emplace_back( "recordCount", I( n.records ) );
                  hasKids = true;
                  break;
               case m::T::Integer:
               case m::T::Scaled:
                  at.emplace_back( "type", n.type == m::T::Integer ? "Integer" : "ScaledInteger" );
                  if ( n.min != INT64_MIN || l.explicitDefaults )
                     at.emplace_back( "minimum", I( n.min ) );
                  if ( n.max != INT64_MAX || l.explicitDefaults )
                     at.emplace_back( "maximum", I( n.max ) );
                  if ( n.type == m::T::Scaled )
                  {
                     if ( n.scale != 1 || l.explicitDefaults )
                        at.emplace_back( "scale", real( n.scale, false ) );
                     if ( n.offset != 0 || l.explicitDefaults )
                        at.emplace_back( "offset", real( n.offset, false ) );
                  }
                  if ( n.value != 0 || l.explicitDefaults )
                     body = pad + I( n.value ) + pad;
                  break;
               case m::T::Float:
               {
                  at.emplace_back( "type", "Float" );
                  if ( n.single || l.explicitDefaults )
                     at.emplace_back( "precision", n.single ? "single" : "double" );
                  const double lim =
                     n.single ? std::numeric_limits<float>::max() : std::numeric_limits<double>::max();
                  if ( n.fmin != -lim || l.explicitDefaults )
                     at.emplace_back( "minimum", real( n.fmin, n.single ) );
                  if ( n.fmax != lim || l.explicitDefaults )
                     at.emplace_back( "maximum", real( n.fmax, n.single ) );
                  if ( n.fvalue != 0 || l.explicitDefaults )
                     body = pad + real( n.fvalue, n.single ) + pad;
                  break;
               }
               case m::T::String:
                  at.emplace_back( "type", "String" );
                  if ( l.cdata && n.s.find( "]]>" ) == std::string::npos && n.s.find( '\r' ) == std::string::npos )
                     body = n.s.empty() ? "" : "<![CDATA[" + n.s + "]]>";
                  else
                     body = esc( n.s, false );
                  break;
               case m::T::Blob:
                  at.emplace_back( "type", "Blob" );
                  at.emplace_back( "fileOffset", std::to_string( putBlob( n, path ) ) );
                  at.emplace_back( "length", std::to_string( n.bytes.size() ) );
                  break;
            }
            if ( root )
            {
               at.emplace_back( "xmlns", "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" );
               for ( auto &e : l.extensions )
                  at.emplace_back( "xmlns:" + e.first, e.second );
            }
            if ( l.reverseAttrs )
               std::reverse( at.begin(), at.end() );
            const std::string nl = l.indent ? "\n" + std::string( depth * 2, ' ' ) : "";
            xml += nl;
            if ( l.comments )
               xml += "<!-- c -->";
            xml += "<" + name;
            for ( auto &a : at )
            {
               const char *quote = l.attrs & 1 ? "'" : "\"";
               std::string value;
               if ( l.attrs & 2 )
                  for ( unsigned char c : a.second )
                     value += "&#" + std::to_string( c ) + ";";
               else
                  value = esc( a.second, true );
               xml += ( l.attrs & 4 ? "\n\t" : " " ) + a.first + ( l.attrs & 4 ? " =\t" : "=" ) + quote + value + quote;
            }
            if ( l.attrs & 4 )
               xml += "\n";
            if ( !hasKids && body.empty() )
            {
               xml += l.comments ? "></" + name + ">" : "/>";
               return;
            }
            xml += ">" + body;
            if ( hasKids )
            {
               for ( size_t i = 0; i < n.kids.size(); ++i )
               {
                  std::string nm = n.kids[i].name;
                  if ( n.type == m::T::Vector )
                     nm = "vectorChild";
                  if ( n.type == m::T::CV )
                     nm = i == 0 ? "prototype" : "codecs";
                  emit( n.kids[i], nm, path + "/" + ( n.type == m::T::Vector ? std::to_string( i ) : nm ),
                        depth + 1, false );
               }
               xml += nl;
            }
            (void)close;
            xml += "</" + name + ">";
         }
      };
   }

   std::vector<uint8_t> writeLogical( const m::N &root, const Layout &layout, Marks *marks )
   {
      auto build = [&]( size_t reserve, Marks &mk, std::string &xml ) {
         std::vector<uint8_t> out( 48, 0 );
         if ( reserve )
         {
            out.resize( 48 + layout.gap + reserve, 0 );
         }
         if ( layout.farPages )
         {
            mk.farFrom = ( out.size() + 1019 ) / 1020;
            out.resize( mk.farFrom * 1020, 0 );
         }
         W w{ layout, out, mk, false, "" };
         w.xml = layout.prolog;
         if ( !layout.indent )
            w.xml += "\n";
         w.emit( root, "e57Root", "", 0, true );
         w.xml += "\n";
         xml = w.xml;
         return out;
      };
      Marks mk;
      std::string xml;
      std::vector<uint8_t> out = build( 0, mk, xml );
      size_t at;
      if ( layout.xmlFirst )
      {
         const size_t reserve = xml.size() + 256;
         mk = Marks();
         out = build( reserve, mk, xml );
         while ( xml.size() < reserve )
            xml += ' ';
         at = 48 + layout.gap;
         std::copy( xml.begin(), xml.end(), out.begin() + at );
      }
      else
      {
         while ( out.size() % 4 )
            out.push_back( 0 );
         out.resize( out.size() + layout.gap, 0 );
         at = out.size();
         out.insert( out.end(), xml.begin(), xml.end() );
      }
      const size_t pages = ( out.size() + 1019 ) / 1020;
      out.resize( pages * 1020, 0 );
      memcpy( out.data(), "ASTM-E57", 8 );
      put32( out, 8, 1 );
      put32( out, 12, 0 );
      put64( out, 16, ( pages + layout.farPages ) * 1024 );
      put64( out, 24, ref::toPhysical( at ) + ( at >= mk.farFrom * 1020 ? layout.farPages * 1024 : 0 ) );
      put64( out, 32, xml.size() );
      put64( out, 40, 1024 );
      mk.xmlStart = at;
      mk.xmlLength = xml.size();
      if ( marks )
         *marks = mk;
      return out;
   }

   std::vector<char> write( const m::N &root, const Layout &layout, Marks *marks )
   {
      return ref::pack( writeLogical( root, layout, marks ) );
   }

   std::string xmlOf( const m::N &root, const Layout &layout )
   {
      Marks mk;
      auto l = writeLogical( root, layout, &mk );
      return std::string( l.begin() + mk.xmlStart, l.begin() + mk.xmlStart + mk.xmlLength );
   }

   std::vector<char> withXml( const std::string &xml, const std::vector<uint8_t> &binary )
   {
      std::vector<uint8_t> out( 48, 0 );
      out.insert( out.end(), binary.begin(), binary.end() );
      while ( out.size() % 4 )
         out.push_back( 0 );
      const size_t at = out.size();
      out.insert( out.end(), xml.begin(), xml.end() );
      const size_t pages = ( out.size() + 1019 ) / 1020;
      out.resize( pages * 1020, 0 );
      memcpy( out.data(), "ASTM-E57", 8 );
      put32( out, 8, 1 );
      put32( out, 12, 0 );
      put64( out, 16, pages * 1024 );
      put64( out, 24, ref::toPhysical( at ) );
      put64( out, 32, xml.size() );
      put64( out, 40, 1024 );
      return ref::pack( out );
   }
}
