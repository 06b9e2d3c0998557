// P01: records written to a compressed vector are the records read back.
//
// Every case writes a document with one compressed vector through the public API, closes the file,
// opens it again and compares what is read with what was written.
#include "fields.hpp"

#include <algorithm>

using namespace vh;
using fld::Field;

namespace
{
   // Write the records in blocks of the given sizes
   void writeBlocks( e57::ImageFile &imf, const m::N &doc, const std::vector<size_t> &blocks )
   {
      const m::N &cv = doc.kids[0];
      imf.root().set( cv.name, m::create( imf, cv ) );
      e57::CompressedVectorNode node( imf.root().get( cv.name ) );
      size_t cap = 1;
      for ( auto b : blocks )
         cap = std::max( cap, b );
      std::vector<std::unique_ptr<m::Buf>> bufs;
      std::vector<e57::SourceDestBuffer> sb;
      for ( auto &c : cv.cols )
      {
         auto rep = c.type == m::T::String ? e57::UString
                    : c.type == m::T::Float ? ( c.single ? e57::Real32 : e57::Real64 )
                                            : e57::Int64;
         bufs.emplace_back( new m::Buf( rep, cap ) );
         sb.push_back( bufs.back()->sdb( imf, c.path, false, false ) );
      }
      e57::CompressedVectorWriter w = node.writer( sb );
      size_t at = 0;
      for ( auto k : blocks )
      {
         for ( size_t f = 0; f < cv.cols.size(); ++f )
            for ( size_t i = 0; i < k; ++i )
            {
               auto &c = cv.cols[f];
               if ( c.type == m::T::String )
                  bufs[f]->setStr( i, c.s[at + i] );
               else if ( c.type == m::T::Float )
                  bufs[f]->setReal( i, c.d[at + i] );
               else
                  bufs[f]->setInt( i, c.i[at + i] );
            }
         w.write( k );
         at += k;
      }
      w.close();
      CHECK( at == static_cast<size_t>( cv.records ), "bad block list" );
      CHECK( node.childCount() == cv.records, "childCount %lld after writing %lld records",
             (long long)node.childCount(), (long long)cv.records );
   }

   void roundTrip( Run &r, const m::N &doc, const std::vector<size_t> &blocks, size_t readBlock )
   {
      const std::string p = r.path( "a.e57" );
      {
         e57::ImageFile f( p, "w" );
         writeBlocks( f, doc, blocks );
         f.close();
      }
      e57::ImageFile f( p, "r" );
      const m::N back = m::observeFile( f, true, readBlock );
      const std::string d = m::diff( doc, back );
      CHECK( d.empty(), "written vs read: %s", d.c_str() );
      f.close();
      r.transitions( blocks.size() + 1 );
      r.count( "records", static_cast<uint64_t>( doc.kids[0].records ) );
      r.outcome( fmt( "%lld records, file of %zu bytes", (long long)doc.kids[0].records,
                      m::slurp( p ).size() ) );
   }

   // Write with the buffers listed in the given order and replaced before every block, the new ones
   // having another capacity and place
   void fresh( Run &r, const m::N &doc, const std::vector<size_t> &order, size_t block, bool replace,
               size_t stride )
   {
      const m::N &cv = doc.kids[0];
      const std::string p = r.path( "a.e57" );
      {
         e57::ImageFile f( p, "w" );
         f.root().set( cv.name, m::create( f, cv ) );
         e57::CompressedVectorNode node( f.root().get( cv.name ) );
         const size_t n = static_cast<size_t>( cv.records );
         std::vector<std::unique_ptr<m::Buf>> keep;
         auto make = [&]( size_t at, size_t k, size_t cap ) {
            std::vector<e57::SourceDestBuffer> sb;
            for ( size_t o : order )
            {
               auto &c = cv.cols[o];
               auto rep = c.type == m::T::String ? e57::UString
                          : c.type == m::T::Float ? ( c.single ? e57::Real32 : e57::Real64 )
                                                  : e57::Int64;
               keep.emplace_back( new m::Buf( rep, cap, rep == e57::UString ? 0 : m::repWidth( rep ) + stride ) );
               for ( size_t i = 0; i < k; ++i )
               {
                  if ( c.type == m::T::String )
                     keep.back()->setStr( i, c.s[at + i] );
                  else if ( c.type == m::T::Float )
                     keep.back()->setReal( i, c.d[at + i] );
                  else
                     keep.back()->setInt( i, c.i[at + i] );
               }
               sb.push_back( keep.back()->sdb( f, c.path, false, false ) );
            }
            return sb;
         };
         auto first = make( 0, std::min( n, block ), block );
         auto w = node.writer( first );
         for ( size_t at = 0, k = 0; at < n; at += k )
         {
            k = std::min( block, n - at );
            if ( at == 0 && !replace )
               w.write( k );
            else
            {
               auto sb = make( at, k, k + ( at / block ) % 3 );
               w.write( sb, k );
            }
            r.transitions();
         }
         w.close();
         f.close();
         for ( auto &b : keep )
            b->checkGuards( b->capacity );
      }
      e57::ImageFile f( p, "r" );
      const std::string d = m::diff( doc, m::observeFile( f, true, 0 ) );
      CHECK( d.empty(), "written vs read: %s", d.c_str() );
      f.close();
      r.outcome( fmt( "%lld records with %zu buffers", (long long)cv.records, order.size() ) );
   }

   std::vector<size_t> even( size_t n, size_t block )
   {
      std::vector<size_t> b;
      while ( n )
      {
         const size_t k = block ? std::min( n, block ) : n;
         b.push_back( k );
         n -= k;
      }
      return b;
   }

   // all ways of writing n as an ordered sum of positive blocks, optionally with empty blocks
   void compositions( size_t n, std::vector<size_t> &cur, const std::function<void()> &f )
   {
      if ( n == 0 )
      {
         f();
         return;
      }
      for ( size_t k = 1; k <= n; ++k )
      {
         cur.push_back( k );
         compositions( n - k, cur, f );
         cur.pop_back();
      }
   }
   std::string show( const std::vector<size_t> &b )
   {
      std::string s;
      for ( auto x : b )
         s += ( s.empty() ? "" : "+" ) + std::to_string( x );
      return s.empty() ? "none" : s;
   }
   size_t estimate( const std::vector<Field> &fs )
   {
      // bits per record, without strings
      size_t bits = 0;
      for ( auto &f : fs )
      {
         if ( f.node.type == m::T::Float )
            bits += f.node.single ? 32 : 64;
         else if ( f.node.type == m::T::String )
            bits += 8 * 72; // mean length of the long strings
         else
         {
            uint64_t span = static_cast<uint64_t>( f.node.max ) - static_cast<uint64_t>( f.node.min );
            while ( span )
               ++bits, span >>= 1;
         }
      }
      return bits;
   }
}

void vh::enumerate( Run &r )
{
   auto rt = [&]( const std::string &group, const std::vector<Field> &fs, size_t n,
                  const std::vector<size_t> &blocks, size_t readBlock, uint64_t salt = 0 ) {
      r.test( [&] { return fmt( "%s fields=%s n=%zu blocks=%s read=%zu salt=%llu", group.c_str(),
                                fld::id( fs ).c_str(), n, blocks.size() > 12 ? fmt( "%zux%zu", blocks.size(), blocks[0] ).c_str() : show( blocks ).c_str(), readBlock,
                                (unsigned long long)salt ); },
              [&] { roundTrip( r, fld::doc( fs, n, salt ), blocks, readBlock ); } );
   };

   // 1. every bit width and range, few records, three ways of writing
   std::vector<Field> all = fld::widths();
   for ( auto &f : fld::shifted() )
      all.push_back( f );
   for ( unsigned w : { 1u, 5u, 8u, 9u, 16u, 17u, 31u, 32u, 33u, 63u } )
      all.push_back( fld::Sca( -2, fld::pow2( w ) - 2, 0.5, -7 ) );
   all.push_back( fld::Sca( INT64_MIN, INT64_MAX, 1e-9, 0 ) );
   all.push_back( fld::F32() );
   all.push_back( fld::F64() );
   all.push_back( fld::Str() );
   for ( int64_t v : { int64_t( 0 ), int64_t( 5 ), int64_t( -1 ), INT64_MIN, INT64_MAX } )
   {
      all.push_back( fld::Int( v, v ) );
      all.push_back( fld::Sca( v, v, 1, 0 ) );
   }
   const std::vector<size_t> counts =
      r.thorough ? std::vector<size_t>{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200 }
                 : std::vector<size_t>{ 0, 1, 2, 7, 8, 9, 33, 65 };
   for ( auto &f : all )
      for ( size_t n : counts )
         for ( size_t block : { size_t( 0 ), size_t( 1 ), size_t( 3 ) } )
         {
            if ( n <= block && block )
               continue;
            rt( "width", { f }, n, even( n, block ), 0 );
            if ( r.thorough )
               rt( "width", { f }, n, even( n, block ), 5, 1 );
         }

   // 2. all pairs of field kinds (order matters), with all ways of cutting a few records
   const auto kinds = fld::kinds();
   const size_t N = r.thorough ? 6 : 4;
   for ( auto &a : kinds )
      for ( auto &b : kinds )
      {
         std::vector<size_t> cur;
         compositions( N, cur, [&] { rt( "pair", { a, b }, N, cur, 0 ); } );
         for ( size_t n : { 9, 41 } )
            rt( "pair", { a, b }, n, even( n, 0 ), 0, 2 );
      }
   if ( r.thorough )
      for ( auto &a : kinds )
         for ( auto &b : kinds )
            for ( auto &c : kinds )
            {
               rt( "triple", { a, b, c }, 10, even( 10, 0 ), 0, 3 );
               rt( "triple", { a, b, c }, 11, even( 11, 4 ), 3, 4 );
            }

   // 3. every way of cutting into blocks, empty blocks included, for mixed records
   const std::vector<std::vector<Field>> mixed = {
      { fld::Int( 0, 1 ), fld::F64(), fld::Str() },
      { fld::Int( 0, 200 ), fld::Int( 0, 0xFFFFFF ), fld::Int( 0, 1 ), fld::F32() },
      { fld::Sca( -1000, 1000 ), fld::Int( 5, 5 ), fld::F32(), fld::F64(), fld::Str() },
      { fld::Int( 5, 5 ), fld::Int( 7, 7 ) },
   };
   for ( auto &fs : mixed )
   {
      const size_t M = r.thorough ? 9 : 7;
      std::vector<size_t> cur;
      compositions( M, cur, [&] { rt( "cut", fs, M, cur, 0 ); } );
      // empty blocks at every position of every cut of 3 records
      compositions( 3, cur, [&] {
         for ( unsigned mask = 1; mask < ( 1u << ( cur.size() + 1 ) ); ++mask )
         {
            std::vector<size_t> b;
            for ( size_t i = 0; i <= cur.size(); ++i )
            {
               if ( mask & ( 1u << i ) )
                  b.push_back( 0 );
               if ( i < cur.size() )
                  b.push_back( cur[i] );
            }
            rt( "emptyblock", fs, 3, b, 0 );
         }
      } );
      for ( size_t z = 1; z <= 3; ++z )
         rt( "emptyblock", fs, 0, std::vector<size_t>( z, 0 ), 0 );
   }

   // 4. every record count in a range, so that sections end at every offset within a page
   const std::vector<std::vector<Field>> sweep = { { fld::Int( 0, 1 ) },
                                                   { fld::Int( 0, 200 ) },
                                                   { fld::F64() },
                                                   { fld::Int( 0, 511 ), fld::Int( -3, 3 ) },
                                                   { fld::Str(), fld::F32() } };
   for ( auto &fs : sweep )
      for ( size_t n = 0; n <= ( r.thorough ? 1100u : 280u ); ++n )
         rt( "count", fs, n, even( n, 0 ), 0 );

   // 5. record counts around the points where data packets fill up
   std::vector<std::vector<Field>> big = { { fld::Int( 0, 1 ) },
                                           { fld::Int( 0, 200 ) },
                                           { fld::Int( 0, 511 ) },
                                           { fld::Int( -40000, 40000 ) },
                                           { fld::Int( 0, 0xFFFFFFFFLL ) },
                                           { fld::Int( -5, 0x3FFFFFFFFFLL ) },
                                           { fld::Int( INT64_MIN, INT64_MAX ) },
                                           { fld::F32() },
                                           { fld::F64() },
                                           { fld::Str() },
                                           { fld::F64(), fld::F64(), fld::F64(), fld::Int( 0, 255 ) },
                                           { fld::Int( 0, 1 ), fld::F64() },
                                           { fld::Int( 0, 1 ), fld::Str() },
                                           { fld::Str(), fld::Str(), fld::Int( 0, 511 ) },
                                           { fld::Int( 5, 5 ), fld::Int( 0, 0xFFFFFF ), fld::F32() },
                                           { fld::Sca( -1000, 1000 ), fld::Int( -3, 3 ), fld::Int( 0, 1 ) } };
   for ( auto &fs : big )
   {
      const size_t perRec = estimate( fs );
      const std::vector<size_t> bytes = r.thorough ? std::vector<size_t>{ 49152, 65536, 98304, 131072, 147456 }
                                                   : std::vector<size_t>{ 49152, 65536 };
      for ( size_t by : bytes )
      {
         const size_t mid = by * 8 / perRec;
         const size_t w = r.thorough ? 12 : 3;
         if ( !r.thorough && perRec < 4 && by > 50000 )
            continue;
         for ( size_t n = mid - w; n <= mid + w; ++n )
         {
            rt( "packet", fs, n, even( n, 0 ), 0 );
            if ( r.thorough || n == mid )
               rt( "packet", fs, n, even( n, 1000 ), 777 );
         }
      }
      const size_t many = 200000 * 8 / perRec;
      rt( "packets", fs, many, even( many, 0 ), 0 );
      rt( "packets", fs, many, even( many, 4001 ), 4096 );
   }

   // 6. strings of every length around the prefix and packet limits
   auto strings = [&]( size_t len, size_t count, bool beside ) {
      r.test( fmt( "string len=%zu count=%zu beside=%d", len, count, beside ), [&] {
         std::vector<Field> fs = { fld::Str() };
         if ( beside )
            fs.push_back( fld::Int( 0, 3 ) );
         m::N doc = fld::doc( fs, count );
         for ( size_t k = 0; k < count; ++k )
         {
            std::string s( len, 'x' );
            for ( size_t i = 0; i < len; ++i )
               s[i] = static_cast<char>( fld::mix( i + k ) );
            doc.kids[0].cols[0].s[k] = s;
         }
         roundTrip( r, doc, even( count, 0 ), 0 );
      } );
   };
   for ( size_t len = 0; len <= ( r.thorough ? 1100u : 300u ); ++len )
      strings( len, 2, len & 1 );
   for ( size_t base : { 16384u, 32768u, 49152u, 65520u, 65536u, 98304u, 131072u } )
      for ( size_t len = base - ( r.thorough ? 24 : 10 ); len <= base + ( r.thorough ? 24 : 10 ); ++len )
         for ( size_t c : { 1u, 2u } )
         {
            strings( len, c, false );
            strings( len, c, true );
         }

   // fields beside long strings, and wide records
   std::vector<Field> besides = kinds;
   for ( unsigned w : { 3u, 7u, 11u, 15u, 17u, 23u, 31u, 33u, 47u, 63u } )
      besides.push_back( fld::Int( -1, fld::pow2( w ) - 1 ) );
   for ( auto &f : besides )
   {
      for ( size_t len : r.thorough ? std::vector<size_t>{ 200, 333, 500, 600, 700, 800, 1000, 1300, 2000, 5000 }
                                    : std::vector<size_t>{ 500, 1000, 1300 } )
         for ( int behind = 0; behind < 2; ++behind )
         {
            const size_t n = 150000 / len + 51;
            r.test( [&] { return fmt( "beside %s len=%zu n=%zu behind=%d", f.id.c_str(), len, n, behind ); },
                    [&] { roundTrip( r, fld::besideStrings( f, len, n, behind ), even( n, behind ? 37 : 0 ), behind ? 20 : 0 ); } );
         }
      for ( size_t wide : { 60u, 130u } )
         r.test( [&] { return fmt( "wide %zu %s", wide, f.id.c_str() ); },
                 [&] { roundTrip( r, fld::wideRecords( f, wide, 220 ), even( 220, 0 ), 0 ); } );
   }

   // 7. nested prototypes
   auto nested = [&]( const std::string &name, const m::N &proto, size_t n ) {
      r.test( fmt( "nested %s n=%zu", name.c_str(), n ), [&] {
         std::vector<std::pair<std::string, const m::N *>> lv;
         m::leaves( proto, "", lv );
         std::vector<m::Col> cols;
         for ( size_t i = 0; i < lv.size(); ++i )
            cols.push_back( fld::column( lv[i].first, *lv[i].second, n, i ) );
         roundTrip( r, m::structure( "", { m::cv( "v", proto, cols ) } ), even( n, 0 ), 0 );
      } );
   };
   for ( size_t n : { 0, 1, 5, 100 } )
   {
      nested( "structs",
              m::structure( "", { m::structure( "a", { m::integer( "x", 0, 0, 9 ), m::structure( "b", { m::real( "y" ) } ) } ),
                                  m::str( "s" ), m::structure( "c", { m::integer( "x", 1, 0, 1 ) } ) } ),
              n );
      nested( "vector", m::structure( "", { m::vec( "a", false, { m::integer( "", 0, 0, 9 ), m::integer( "", 0, 0, 9 ) } ), m::real( "y", 0, true ) } ), n );
      nested( "hetero", m::vec( "", true, { m::integer( "", 0, 0, 9 ), m::real( "" ), m::str( "" ) } ), n );
      m::N deep = m::integer( "z", 0, -4, 9 );
      for ( int i = 0; i < 8; ++i )
         deep = m::structure( "d", { deep } );
      nested( "deep", deep, n );
      m::N wide = m::structure( "" );
      for ( int i = 0; i < 60; ++i )
         wide.kids.push_back( m::integer( "w" + std::to_string( i ), 0, 0, i ) );
      nested( "wide", wide, n );
   }

   // 8. buffers listed in every order, replaced between blocks, with strides
   for ( size_t k = 0; k + 2 < kinds.size(); ++k )
   {
      const std::vector<Field> fs = { kinds[k], kinds[( k + 5 ) % kinds.size()], kinds[( k + 9 ) % kinds.size()] };
      std::vector<size_t> order = { 0, 1, 2 };
      do
         for ( size_t n : { 1u, 2u, 7u, 60u } )
            for ( size_t block : { 1u, 2u, 5u, 60u } )
               for ( int replace = 0; replace < 2; ++replace )
                  for ( size_t stride : { 0u, 8u } )
                     r.test( [&] { return fmt( "fresh fields=%s order=%zu%zu%zu n=%zu block=%zu replace=%d stride=+%zu",
                                               fld::id( fs ).c_str(), order[0], order[1], order[2], n, block, replace, stride ); },
                             [&] { fresh( r, fld::doc( fs, n, k ), order, block, replace, stride ); } );
      while ( std::next_permutation( order.begin(), order.end() ) );
   }

   // 9. special floating-point values, bit for bit
   for ( bool single : { false, true } )
      for ( double v : { HUGE_VAL, -HUGE_VAL, std::nan( "" ), -0.0, 0.0 } )
         for ( size_t n : { 1u, 3u, 600u } )
            r.test( fmt( "special %s %g n=%zu", single ? "F32" : "F64", v, n ), [&] {
               m::N doc = fld::doc( { single ? fld::F32() : fld::F64() }, n );
               for ( auto &d : doc.kids[0].cols[0].d )
                  d = v;
               roundTrip( r, doc, even( n, 0 ), 0 );
            } );
}
