// P04: every legal layout of a file decodes to the same content.
//
// Files come from the independent writer, which can cut the bytestreams into packets in any way.
// The library must deliver the values the writer was given.
#include "refw57.hpp"
#include "trees.hpp"

using namespace vh;
using fld::Field;

namespace
{
   using Cut = std::vector<std::vector<size_t>>; // [packet][stream] -> bytes

   std::string show( const std::vector<refw::Packet> &v )
   {
      std::string s;
      for ( auto &p : v )
      {
         s += p.type == 0 ? " index" : p.type == 2 ? fmt( " empty%zu", p.length ) : " data";
         if ( p.type == 1 )
            for ( auto t : p.take )
               s += fmt( ":%zu", t );
      }
      return s;
   }

   void sameColumns( const m::N &cv, const std::vector<m::Col> &got, const std::string &what )
   {
      CHECK( got.size() == cv.cols.size(), "%s: %zu fields", what.c_str(), got.size() );
      for ( size_t i = 0; i < got.size(); ++i )
      {
         const std::string d = m::diffCol( cv.cols[i], got[i] );
         CHECK( d.empty(), "%s: field %s: %s", what.c_str(), cv.cols[i].path.c_str(), d.c_str() );
      }
   }

   // One file holding a copy of the vector for each layout of its packets
   void manyVectors( Run &r, const m::N &doc, const std::vector<std::vector<refw::Packet>> &cuts,
                     const std::vector<size_t> &blocks, bool longPrefix = false )
   {
      m::N d = m::structure( "" );
      for ( size_t i = 0; i < cuts.size(); ++i )
      {
         m::N v = doc.kids[0];
         v.name = "v" + std::to_string( i );
         d.kids.push_back( v );
      }
      size_t at = 0;
      refw::Layout l;
      l.longPrefix = longPrefix;
      l.cut = [&]( const std::vector<size_t> & ) { return cuts[at++ % cuts.size()]; };
      const std::string p = r.path( "a.e57" );
      m::spit( p, refw::write( d, l ) );
      e57::ImageFile f( p, "r" );
      for ( size_t i = 0; i < cuts.size(); ++i )
      {
         e57::CompressedVectorNode n( f.root().get( d.kids[i].name ) );
         for ( size_t b : blocks )
            sameColumns( d.kids[i], m::readRecords( n, d.kids[i].kids[0], b ),
                         fmt( "packets%s, blocks of %zu", show( cuts[i] ).c_str(), b ) );
         r.outcome( show( cuts[i] ) );
         r.count( "layouts" );
         r.transitions();
      }
      f.close();
   }

   // All ways to distribute n bytes over k packets
   void distributions( size_t n, size_t k, const std::function<void( const std::vector<size_t> & )> &f )
   {
      std::vector<size_t> cur;
      std::function<void( size_t, size_t )> rec = [&]( size_t left, size_t packets ) {
         if ( packets == 1 )
         {
            cur.push_back( left );
            f( cur );
            cur.pop_back();
            return;
         }
         for ( size_t x = 0; x <= left; ++x )
         {
            cur.push_back( x );
            rec( left - x, packets - 1 );
            cur.pop_back();
         }
      };
      rec( n, k );
   }
   double binom( size_t n, size_t k )
   {
      double b = 1;
      for ( size_t i = 0; i < k; ++i )
         b = b * static_cast<double>( n - i ) / static_cast<double>( i + 1 );
      return b;
   }
   std::vector<std::vector<refw::Packet>> allCuts( const std::vector<size_t> &lengths, size_t k )
   {
      std::vector<std::vector<std::vector<size_t>>> perStream;
      for ( auto n : lengths )
      {
         std::vector<std::vector<size_t>> v;
         distributions( n, k, [&]( const std::vector<size_t> &d ) { v.push_back( d ); } );
         perStream.push_back( v );
      }
      std::vector<std::vector<refw::Packet>> out;
      std::vector<size_t> pick( lengths.size(), 0 );
      for ( ;; )
      {
         std::vector<refw::Packet> ps( k );
         for ( size_t q = 0; q < k; ++q )
            for ( size_t s = 0; s < lengths.size(); ++s )
               ps[q].take.push_back( perStream[s][pick[s]][q] );
         out.push_back( ps );
         size_t s = 0;
         while ( s < pick.size() && ++pick[s] == perStream[s].size() )
            pick[s++] = 0;
         if ( s == pick.size() )
            return out;
      }
   }
   std::vector<size_t> lengthsOf( const m::N &doc, bool longPrefix = false )
   {
      std::vector<std::pair<std::string, const m::N *>> lv;
      m::leaves( doc.kids[0].kids[0], "", lv );
      std::vector<size_t> v;
      for ( size_t i = 0; i < lv.size(); ++i )
         v.push_back( refw::stream( *lv[i].second, doc.kids[0].cols[i], longPrefix ).size() );
      return v;
   }
   // Cut streams evenly over k packets
   std::vector<refw::Packet> even( const std::vector<size_t> &lengths, size_t k )
   {
      std::vector<refw::Packet> v( k );
      for ( size_t q = 0; q < k; ++q )
         for ( auto n : lengths )
            v[q].take.push_back( n * ( q + 1 ) / k - n * q / k );
      return v;
   }
}

void vh::enumerate( Run &r )
{
   // 1. all cuts of small vectors
   auto kinds = fld::kinds();
   auto group = [&]( const std::string &name, const m::N &doc, const std::vector<std::vector<refw::Packet>> &cuts,
                     const std::vector<size_t> &blocks, bool longPrefix ) {
      const size_t per = 40;
      for ( size_t at = 0; at < cuts.size(); at += per )
         r.test( [&] { return fmt( "%s #%zu", name.c_str(), at ); },
                 [&] {
                    manyVectors( r, doc,
                                 { cuts.begin() + static_cast<long>( at ),
                                   cuts.begin() + static_cast<long>( std::min( at + per, cuts.size() ) ) },
                                 blocks, longPrefix );
                 } );
   };
   const double limit = r.thorough ? 6000 : 350;
   auto cutsOf = [&]( const std::string &name, const std::vector<Field> &fs, size_t n, bool longPrefix ) {
      const m::N doc = fld::doc( fs, n, 5, false );
      const auto len = lengthsOf( doc, longPrefix );
      for ( size_t k = 1; k <= ( r.thorough ? 5u : 4u ); ++k )
      {
         double total = 1;
         for ( auto x : len )
            total *= binom( x + k - 1, k - 1 );
         if ( total > limit )
            break;
         group( fmt( "%s %s n=%zu packets=%zu", name.c_str(), fld::id( fs ).c_str(), n, k ), doc, allCuts( len, k ),
                { n, 1 }, longPrefix );
      }
   };
   for ( auto &a : kinds )
   {
      for ( size_t n : { 1, 2, 3, 5 } )
         cutsOf( "cut", { a }, n, false );
      for ( auto &b : kinds )
         for ( size_t n : { 1, 2 } )
            cutsOf( "cut", { a, b }, n, false );
   }
   for ( size_t n : { 1, 2, 3 } )
      cutsOf( "longprefix", { fld::Str() }, n, true );
   cutsOf( "cut", { fld::Int( 0, 511 ), fld::Str(), fld::Int( -3, 3 ) }, 2, false );
   cutsOf( "cut", { fld::Int( 0, 1 ), fld::Int( -3, 3 ), fld::Int( 0, 200 ), fld::Int( 0, 511 ) }, 2, false );

   // 2. all sequences of packet types
   const size_t maxSeq = r.thorough ? 7 : 5;
   const std::vector<std::vector<Field>> docs = { { fld::Int( 0, 511 ), fld::Str() },
                                                  { fld::F64(), fld::Int( 0, 1 ), fld::Int( -3, 3 ) },
                                                  { fld::Int( 0, 200 ) } };
   for ( size_t d = 0; d < docs.size(); ++d )
   {
      const m::N doc = fld::doc( docs[d], 12, 1 );
      const auto len = lengthsOf( doc );
      for ( size_t n = 1; n <= maxSeq; ++n )
      {
         std::vector<std::vector<refw::Packet>> layouts;
         std::vector<int> kind( n, 0 ); // 0 data, 1 empty of 4, 2 empty of 8, 3 index
         for ( ;; )
         {
            const size_t data = static_cast<size_t>( std::count( kind.begin(), kind.end(), 0 ) );
            if ( data )
            {
               const auto pieces = even( len, data );
               std::vector<refw::Packet> v;
               size_t at = 0;
               for ( int k : kind )
               {
                  if ( k == 0 )
                  {
                     v.push_back( pieces[at++] );
                     continue;
                  }
                  refw::Packet p;
                  p.type = k == 3 ? 0 : 2;
                  p.length = k == 1 ? 4 : 8;
                  if ( k == 3 )
                  {
                     p.entries.emplace_back( 0, 0 );
                     // exact record numbers are known when every record is one byte
                     if ( d == 2 )
                        for ( size_t q = 1; q < data; ++q )
                           p.entries.emplace_back( 12 * q / data, q );
                  }
                  v.push_back( p );
               }
               layouts.push_back( v );
            }
            size_t i = 0;
            while ( i < n && ++kind[i] == 4 )
               kind[i++] = 0;
            if ( i == n )
               break;
         }
         group( fmt( "types doc=%zu length=%zu", d, n ), doc, layouts, { 12, 5 }, false );
      }
   }
   // empty packets of every length up to two pages, then the largest
   {
      const m::N doc = fld::doc( docs[0], 12, 1 );
      const auto len = lengthsOf( doc );
      for ( size_t e = 4; e <= 65536; e += ( e < 2200 ? 4 : 4 * 1321 ) )
      {
         auto v = even( len, 2 );
         refw::Packet p;
         p.type = 2;
         p.length = std::min<size_t>( e, 65536 );
         v.insert( v.begin() + 1, p );
         r.test( fmt( "empty %zu", e ), [&] { manyVectors( r, doc, { v }, { 12 } ); } );
      }
   }

   // 3. every place of the section relative to the pages, XML before or after
   for ( size_t gap = 0; gap < 1024; gap += 4 )
      for ( bool first : { false, true } )
         for ( size_t d = 0; d < docs.size(); ++d )
            r.test( fmt( "place gap=%zu xmlFirst=%d doc=%zu", gap, first, d ), [&] {
               const m::N doc = m::structure( "", { fld::doc( docs[d], 150, 2 ).kids[0], m::blob( "b", m::pattern( 700, 3 ) ) } );
               refw::Layout l;
               l.gap = gap;
               l.xmlFirst = first;
               l.cut = []( const std::vector<size_t> &n ) { return even( n, 3 ); };
               const std::string p = r.path( "a.e57" );
               m::spit( p, refw::write( doc, l ) );
               e57::ImageFile f( p, "r" );
               const std::string df = m::diff( doc, m::observeFile( f, true, 64 ) );
               CHECK( df.empty(), "written vs read: %s", df.c_str() );
               f.close();
               r.outcome( fmt( "gap %zu %d", gap, first ) );
            } );

   // 4. one stream ahead of the other by 0..70 packets (more than the packet cache holds), both ways
   for ( size_t lag = 0; lag <= 70; ++lag )
      for ( int which : { 0, 1 } )
         for ( size_t d : { 0, 1 } )
            r.test( fmt( "lag %zu stream=%d doc=%zu", lag, which, d ), [&] {
               const m::N doc = fld::doc( docs[d], 120, 7 );
               const auto len = lengthsOf( doc );
               const size_t pieces = 80;
               std::vector<refw::Packet> v( pieces + lag );
               for ( auto &p : v )
                  p.take.assign( len.size(), 0 );
               for ( size_t q = 0; q < pieces; ++q )
                  for ( size_t s = 0; s < len.size(); ++s )
                     v[q + ( ( s == 0 ) == ( which == 0 ) ? 0 : lag )].take[s] = len[s] * ( q + 1 ) / pieces - len[s] * q / pieces;
               manyVectors( r, doc, { v }, { 120, 1, 7 } );
            } );

   // 5. packets around the largest size
   for ( size_t total = 65536 - 24; total <= 65536; total += 4 )
      for ( size_t slack = 0; slack < 4; ++slack )
         for ( int rest : { 0, 1, 2 } )
            r.test( fmt( "large packet=%zu slack=%zu split=%d", total, slack, rest ), [&] {
               // one or two streams of single bytes
               const size_t payload = total - slack - 6 - ( rest ? 4 : 2 );
               std::vector<Field> fs = { fld::Int( 0, 255 ) };
               if ( rest )
                  fs.push_back( fld::Int( 0, 255 ) );
               const size_t n = payload; // more records than fit into the first packet when split
               const m::N doc = fld::doc( fs, n, 3 );
               std::vector<refw::Packet> v( rest ? 2 : 1 );
               if ( !rest )
                  v[0].take = { n };
               else
               {
                  const size_t a = rest == 1 ? payload : payload / 2 + 1;
                  v[0].take = { a, payload - a };
                  v[1].take = { n - a, n - ( payload - a ) };
               }
               manyVectors( r, doc, { v }, { n, 5000 } );
            } );

   // 6. equivalent ways to write the XML
   auto styles = [&]( const m::N &doc, const std::string &id ) {
      for ( int s = 0; s < 64; ++s )
         r.test( [&] { return fmt( "xml %s style=%d", id.c_str(), s ); },
                 [&] {
                    refw::Layout l;
                    l.indent = s & 1;
                    l.explicitDefaults = s & 2;
                    l.comments = s & 4;
                    l.cdata = s & 8;
                    l.reverseAttrs = s & 16;
                    l.numberPad = s & 32 ? "\n " : "";
                    const std::string p = r.path( "a.e57" );
                    m::spit( p, refw::write( doc, l ) );
                    e57::ImageFile f( p, "r" );
                    const std::string df = m::diff( doc, m::observeFile( f ) );
                    CHECK( df.empty(), "written vs read: %s", df.c_str() );
                    f.close();
                    r.outcome( fmt( "style %d %zu", s, doc.kids.size() ) );
                 } );
   };
   for ( int n = 0; n <= ( r.thorough ? 3 : 2 ); ++n )
      tree::all( n, styles );

   // 7. the text of an element in pieces: all ways to cut it, with other things between the pieces and
   //    the pieces written in several ways
   auto pieces = [&]( const m::N &leaf, const std::string &text ) {
      const auto special = []( char c ) { return c == '<' || c == '&' || c == '>'; };
      const size_t n = text.size();
      for ( size_t cuts = 0; cuts < ( size_t( 1 ) << ( n - 1 ) ); ++cuts )
         for ( int between = 0; between < 4; ++between )
            for ( int how = 0; how < 5; ++how )
               r.test( [&] { return fmt( "pieces type=%d %s cuts=%zu between=%d how=%d", (int)leaf.type, text.c_str(), cuts, between, how ); },
                       [&] {
                          static const char *sep[] = { "", "<!-- x -->", "<?pi 7?>", "<![CDATA[]]>" };
                          std::string content, piece;
                          size_t k = 0;
                          for ( size_t i = 0; i < n; ++i )
                          {
                             piece += text[i];
                             if ( i + 1 < n && !( ( cuts >> i ) & 1 ) )
                                continue;
                             // 0 plain, 1 CDATA, 2 references, 3 CDATA and plain in turn, 4 references and plain in turn
                             const int kind = how < 3 ? how : k % 2 ? 0 : how == 3 ? 1 : 2;
                             if ( k > 0 )
                                content += sep[between];
                             if ( kind == 1 )
                                content += "<![CDATA[" + piece + "]]>";
                             else
                                for ( char c : piece )
                                   content += kind == 2 || special( c ) ? fmt( k % 2 ? "&#x%X;" : "&#%d;", c ) : std::string( 1, c );
                             piece.clear();
                             ++k;
                          }
                          const m::N doc = m::structure( "", { leaf } );
                          refw::Layout l;
                          std::string xml = refw::xmlOf( doc, l );
                          const size_t tag = xml.find( "<v " ), from = xml.find( '>', tag ) + 1, to = xml.find( "</v>" );
                          CHECK( tag != std::string::npos && to != std::string::npos, "no element" );
                          xml.replace( from, to - from, content );
                          const std::string p = r.path( "a.e57" );
                          m::spit( p, refw::withXml( xml ) );
                          e57::ImageFile f( p, "r" );
                          const std::string df = m::diff( doc, m::observeFile( f ) );
                          CHECK( df.empty(), "%s: %s", content.c_str(), df.c_str() );
                          f.close();
                          r.outcome( fmt( "pieces %d %d %d", (int)leaf.type, between, how ) );
                       } );
   };
   pieces( m::integer( "v", -12345 ), "-12345" );
   pieces( m::integer( "v", 54321, 0, 100000 ), "54321" );
   pieces( m::scaled( "v", -901, -1000, 1000, 0.5, 3 ), "-901" );
   pieces( m::real( "v", 12.25 ), "12.25" );
   pieces( m::real( "v", -2.5e6, true ), "-2.5e6" );
   pieces( m::str( "v", "a&b<c>" ), "a&b<c>" );
   pieces( m::str( "v", " a\t b " ), " a\t b " );

   // 8. numbers spelled in several ways, attributes and prolog
   for ( const char *before : { "", " ", "\n", "\t", "\r\n ", " <!-- x --> " } )
      for ( const char *behind : { "", " ", "\n", "\t", "\r\n ", " <!-- x --> " } )
         for ( const char *zeros : { "", "0", "000000000000000000000000" } )
            for ( const char *sign : { "", "+", "-" } )
               r.test( [&] { return fmt( "spelled before=%s behind=%s zeros=%s sign=%s", before, behind, zeros, sign ); },
                       [&] {
                          m::N doc = m::structure( "" );
                          std::vector<std::string> texts;
                          auto add = [&]( m::N leaf, const char *digits ) {
                             leaf.name = fmt( "v%zu", texts.size() );
                             doc.kids.push_back( leaf );
                             texts.push_back( std::string( before ) + sign + zeros + digits + behind );
                          };
                          const int64_t v = *sign == '-' ? -17 : 17;
                          const double d = *sign == '-' ? -17.5 : 17.5;
                          add( m::integer( "", v ), "17" );
                          add( m::scaled( "", v, -1000, 1000, 0.5, 3 ), "17" );
                          for ( bool single : { false, true } )
                          {
                             add( m::real( "", static_cast<double>( v ), single ), "17" );
                             for ( const char *digits : { "17.5", "1.75e1", "1.75E1", "1.75e+1", "1.75E+01", "175e-1",
                                                          "17.50000000000000000000000000", "0.0175e3" } )
                                add( m::real( "", d, single ), digits );
                          }
                          refw::Layout l;
                          std::string xml = refw::xmlOf( doc, l );
                          for ( size_t i = 0; i < texts.size(); ++i )
                          {
                             const size_t tag = xml.find( fmt( "<v%zu ", i ) ), from = xml.find( '>', tag ) + 1,
                                          to = xml.find( fmt( "</v%zu>", i ) );
                             CHECK( tag != std::string::npos && to != std::string::npos, "no element" );
                             xml.replace( from, to - from, texts[i] );
                          }
                          const std::string p = r.path( "a.e57" );
                          m::spit( p, refw::withXml( xml ) );
                          e57::ImageFile f( p, "r" );
                          const std::string df = m::diff( doc, m::observeFile( f ) );
                          CHECK( df.empty(), "%s", df.c_str() );
                          f.close();
                          r.outcome( fmt( "spelled %s%s", sign, zeros ) );
                       } );

   auto attributes = [&]( const m::N &doc, const std::string &id ) {
      static const char *prologs[] = {
         "<?xml version=\"1.0\" encoding=\"UTF-8\"?>",
         "<?xml version='1.0' encoding='utf-8' standalone='yes'?>",
         "<?xml version=\"1.0\"?>\r\n<!-- comment -->\r\n<?pi x?>",
         "",
         "\xEF\xBB\xBF<?xml version=\"1.0\" encoding=\"UTF-8\"?>",
      };
      for ( int s = 0; s < 8; ++s )
         for ( int p = 0; p < 5; ++p )
            r.test( [&] { return fmt( "attributes %s style=%d prolog=%d", id.c_str(), s, p ); },
                    [&] {
                       refw::Layout l;
                       l.explicitDefaults = true;
                       l.attrs = s;
                       l.prolog = prologs[p];
                       if ( p == 3 )
                          l.indent = false;
                       const std::string path = r.path( "a.e57" );
                       m::spit( path, refw::write( doc, l ) );
                       e57::ImageFile f( path, "r" );
                       const std::string df = m::diff( doc, m::observeFile( f ) );
                       CHECK( df.empty(), "written vs read: %s", df.c_str() );
                       f.close();
                       r.outcome( fmt( "attributes %d %d", s, p ) );
                    } );
   };
   for ( int n = 0; n <= 2; ++n )
      tree::all( n, attributes );

   // 9. streams that go on behind the last record
   auto excess = [&]( const std::vector<Field> &fs, size_t packets ) {
      for ( size_t n : { 6u, 20u } )
         for ( size_t records = 1; records < n; ++records )
            r.test( [&] { return fmt( "excess %s records=%zu of %zu packets=%zu", fld::id( fs ).c_str(), records, n, packets ); },
                    [&] {
                       m::N doc = fld::doc( fs, n, 4 );
                       m::N &cv = doc.kids[0];
                       cv.records = static_cast<int64_t>( records );
                       refw::Layout l;
                       l.cut = [&]( const std::vector<size_t> &len ) { return even( len, packets ); };
                       const std::string p = r.path( "a.e57" );
                       m::spit( p, refw::write( doc, l ) );
                       for ( auto &c : cv.cols )
                       {
                          c.i.resize( std::min( c.i.size(), records ) );
                          c.d.resize( std::min( c.d.size(), records ) );
                          c.s.resize( std::min( c.s.size(), records ) );
                       }
                       e57::ImageFile f( p, "r" );
                       e57::CompressedVectorNode node( f.root().get( cv.name ) );
                       for ( size_t b : { size_t( 1 ), size_t( 4 ), records, n + 3 } )
                          sameColumns( cv, m::readRecords( node, cv.kids[0], b ), fmt( "blocks of %zu", b ) );
                       f.close();
                       r.outcome( fmt( "excess %zu %zu", records, packets ) );
                    } );
   };
   for ( size_t packets : { 1, 2, 3 } )
   {
      for ( auto &a : kinds )
         excess( { a }, packets );
      excess( { fld::Int( 0, 511 ), fld::Str() }, packets );
      excess( { fld::F64(), fld::Int( 0, 1 ), fld::Int( -3, 3 ) }, packets );
   }
}
