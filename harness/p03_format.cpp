// P03: files written by the library conform to the file format.
//
// Every case writes a document through the public API, twice, and decodes the bytes with the
// independent strict decoder. The decoded document must be the one given to the library, and both
// files must have the same bytes.
#include "heapfill.hpp"
#include "ref57.hpp"
#include "trees.hpp"

using namespace vh;
using fld::Field;

namespace
{
   // Leave other garbage on the stack and in new memory, so that bytes never set by the library differ
   __attribute__( ( noinline ) ) void scribble( unsigned char c )
   {
      volatile unsigned char big[200000];
      for ( size_t i = 0; i < sizeof( big ); ++i )
         big[i] = c;
   }
   std::vector<char> produce( Run &r, const m::N &doc, size_t block, unsigned char c )
   {
      const std::string p = r.path( "a.e57" );
      scribble( c );
      heapFill = c;
      {
         e57::ImageFile f( p, "w" );
         m::writeDoc( f, doc, block );
         f.close();
      }
      return m::slurp( p );
   }
   void conforms( Run &r, const m::N &doc, size_t block = 0 )
   {
      const auto a = produce( r, doc, block, 0x11 );
      const auto b = produce( r, doc, block, 0xEE );
      CHECK( a.size() == b.size(), "the same calls gave %zu and %zu bytes", a.size(), b.size() );
      for ( size_t i = 0; i < a.size(); ++i )
         CHECK( a[i] == b[i], "the same calls gave different bytes at offset %zu: %02x and %02x", i,
                static_cast<unsigned char>( a[i] ), static_cast<unsigned char>( b[i] ) );
      ref::Decoded d;
      try
      {
         d = ref::decode( a );
      }
      catch ( const ref::Bad &e )
      {
         fail( "not a well-formed file: %s", e.msg.c_str() );
      }
      const std::string df = m::diff( doc, d.root );
      CHECK( df.empty(), "given vs decoded from the bytes: %s", df.c_str() );
      r.count( "sections decoded", d.sections.size() );
      r.count( "packets decoded", d.packets.size() );
      r.count( "pages checked", a.size() / 1024 );
      r.transitions( 1 );
      r.outcome( fmt( "%zu pages %zu sections %zu packets xml of %zu bytes", a.size() / 1024,
                      d.sections.size(), d.packets.size(), d.xml.size() ) );
   }
   std::vector<Field> one( const Field &f )
   {
      return { f };
   }
}

void vh::enumerate( Run &r )
{
   // 1. every field description
   std::vector<Field> all = fld::widths();
   for ( auto &f : fld::shifted() )
      all.push_back( f );
   for ( auto &f : fld::kinds() )
      all.push_back( f );
   for ( auto &f : all )
      for ( size_t n : { 1, 2, 9, 66 } )
         for ( size_t block : { 0, 4 } )
            if ( block < n )
               r.test( [&] { return fmt( "field %s n=%zu block=%zu", f.id.c_str(), n, block ); },
                       [&] { conforms( r, fld::doc( one( f ), n ), block ); } );
   // 2. pairs (triples) of field kinds
   const auto kinds = fld::kinds();
   for ( auto &a : kinds )
      for ( auto &b : kinds )
      {
         for ( size_t n : { 1, 10 } )
            r.test( [&] { return fmt( "pair %s,%s n=%zu", a.id.c_str(), b.id.c_str(), n ); },
                    [&] { conforms( r, fld::doc( { a, b }, n, 5 ), 0 ); } );
         if ( r.thorough )
            for ( auto &c : kinds )
               r.test( [&] { return fmt( "triple %s,%s,%s", a.id.c_str(), b.id.c_str(), c.id.c_str() ); },
                       [&] { conforms( r, fld::doc( { a, b, c }, 9, 1 ), 4 ); } );
      }
   // fields beside long strings, and wide records
   for ( auto &f : kinds )
   {
      for ( size_t len : { 500u, 1000u, 1300u } )
         r.test( [&] { return fmt( "beside %s len=%zu", f.id.c_str(), len ); },
                 [&] { conforms( r, fld::besideStrings( f, len, 150000 / len + 51, len == 1000 ), 0 ); } );
      r.test( [&] { return fmt( "wide %s", f.id.c_str() ); }, [&] { conforms( r, fld::wideRecords( f, 60, 220 ), 0 ); } );
   }
   // 3. record counts: every end offset within a page, and packets that fill up
   const std::vector<std::vector<Field>> sweep = { { fld::Int( 0, 200 ) }, { fld::Str(), fld::Int( 0, 1 ) }, { fld::F64(), fld::Int( 0, 511 ) } };
   for ( size_t k = 0; k < sweep.size(); ++k )
      for ( size_t n = 0; n <= ( r.thorough ? 1200u : 300u ); ++n )
         r.test( [&] { return fmt( "count %zu n=%zu", k, n ); }, [&] { conforms( r, fld::doc( sweep[k], n ), 0 ); } );
   const std::vector<std::vector<Field>> big = { { fld::Int( 0, 1 ) },
                                                 { fld::Int( 0, 200 ) },
                                                 { fld::Int( 0, 511 ) },
                                                 { fld::Int( INT64_MIN, INT64_MAX ) },
                                                 { fld::F32() },
                                                 { fld::F64(), fld::F64(), fld::F64(), fld::Int( 0, 255 ) },
                                                 { fld::Str(), fld::Int( 5, 5 ) },
                                                 { fld::Int( 0, 1 ), fld::Str(), fld::F64() } };
   const std::vector<size_t> bits = { 1, 8, 9, 64, 32, 200, 576, 641 };
   for ( size_t k = 0; k < big.size(); ++k )
      for ( size_t bytes : { 49152u, 65536u, 131072u } )
      {
         if ( !r.thorough && bits[k] < 8 && bytes > 50000 )
            continue;
         const size_t mid = bytes * 8 / bits[k];
         for ( size_t n = mid - 2; n <= mid + 2; ++n )
            r.test( [&] { return fmt( "packets %zu n=%zu", k, n ); }, [&] { conforms( r, fld::doc( big[k], n ), 0 ); } );
         r.test( [&] { return fmt( "packets %zu blocks n=%zu", k, mid ); }, [&] { conforms( r, fld::doc( big[k], mid ), 1001 ); } );
      }
   // strings near the limit of a packet
   for ( size_t len = 65500; len <= 65540; ++len )
      r.test( fmt( "string %zu", len ), [&] {
         m::N d = fld::doc( { fld::Str() }, 1 );
         d.kids[0].cols[0].s[0] = std::string( len, 'q' );
         conforms( r, d );
      } );
   // 4. sections at every alignment relative to the page
   for ( size_t pad = 0; pad <= 1040; ++pad )
      for ( int what = 0; what < 4; ++what )
         r.test( fmt( "align pad=%zu what=%d", pad, what ), [&] {
            m::N d = m::structure( "", { m::blob( "pad", m::pattern( pad ) ) } );
            if ( what == 0 )
               d.kids.push_back( tree::smallCv( "v", 40 ) );
            else if ( what == 1 )
               d.kids.push_back( m::blob( "b", m::pattern( 30, 9 ) ) );
            else if ( what == 2 )
            {
               d.kids.push_back( tree::smallCv( "v", 5 ) );
               d.kids.push_back( m::blob( "b", m::pattern( 1030, 9 ) ) );
               d.kids.push_back( tree::smallCv( "w", 200 ) );
            }
            conforms( r, d );
         } );
   // 5. blob sizes
   for ( size_t n = 0; n <= ( r.thorough ? 5000u : 1100u ); ++n )
      r.test( fmt( "blob %zu", n ), [&] { conforms( r, m::structure( "", { m::blob( "b", m::pattern( n, 4 ) ) } ) ); } );
   // 6. element trees
   for ( int n = 0; n <= ( r.thorough ? 4 : 3 ); ++n )
      tree::all( n, [&]( const m::N &d, const std::string &id ) { r.test( "tree " + id, [&] { conforms( r, d ); } ); } );
   // 7. lengths of the XML section: every end of the file relative to the page
   for ( size_t n = 0; n <= ( r.thorough ? 4200u : 1100u ); ++n )
      r.test( fmt( "xml %zu", n ), [&] {
         conforms( r, m::structure( "", { m::str( "s", std::string( n, 'z' ) ) } ) );
      } );
   // 8. many elements and deep nesting
   for ( int n : { 10, 100, 1000 } )
   {
      r.test( fmt( "wide %d", n ), [&] {
         m::N d = m::structure( "" );
         for ( int i = 0; i < n; ++i )
            d.kids.push_back( m::integer( "e" + std::to_string( i ), i, 0, 5000 ) );
         conforms( r, d );
      } );
      r.test( fmt( "deep %d", n / 10 ), [&] {
         m::N d = m::integer( "x", 3, 0, 9 );
         for ( int i = 0; i < n / 10; ++i )
            d = m::structure( "d", { d } );
         conforms( r, m::structure( "", { d } ) );
      } );
   }
}
