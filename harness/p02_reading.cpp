// P02: how records are read does not change what is read.
//
// The model of a reader is a position in the list of records. Every case runs one script of read
// calls against a file with known records and follows it with the model: number of records
// returned, values, nothing else touched.
#include <algorithm>

#include "fields.hpp"
#include "refw57.hpp"

using namespace vh;
using fld::Field;

namespace
{
   struct Plan
   {
      std::vector<size_t> order;                    // fields requested, in this order
      std::vector<e57::MemoryRepresentation> reps;  // empty: native types
      size_t stride = 1;                            // in elements
      std::vector<size_t> caps;                     // capacity per read; the last one repeats
      bool replace = true;                          // new buffers for every read
   };

   e57::MemoryRepresentation native( const m::Col &c )
   {
      return c.type == m::T::String ? e57::UString
             : c.type == m::T::Float ? ( c.single ? e57::Real32 : e57::Real64 )
                                     : e57::Int64;
   }

   using Bufs = std::vector<std::unique_ptr<m::Buf>>;

   std::vector<e57::SourceDestBuffer> make( e57::ImageFile &f, const m::N &cv, const Plan &p, size_t cap, Bufs &out )
   {
      std::vector<e57::SourceDestBuffer> sb;
      out.clear();
      for ( size_t k = 0; k < p.order.size(); ++k )
      {
         auto &c = cv.cols[p.order[k]];
         auto rep = p.reps.empty() ? native( c ) : p.reps[k];
         out.emplace_back( new m::Buf( rep, cap, m::repWidth( rep ) * p.stride ) );
         sb.push_back( out.back()->sdb( f, c.path, true, false ) );
      }
      return sb;
   }

   void verify( const m::N &cv, const Plan &p, const Bufs &bufs, size_t pos, size_t got )
   {
      for ( size_t k = 0; k < p.order.size(); ++k )
      {
         auto &c = cv.cols[p.order[k]];
         auto &b = *bufs[k];
         for ( size_t i = 0; i < got; ++i )
         {
            if ( c.type == m::T::String )
               CHECK( b.strs[i] == c.s[pos + i], "field %s record %zu: wrong string", c.path.c_str(), pos + i );
            else if ( c.type == m::T::Float )
            {
               const double want = b.rep == e57::Real32 ? static_cast<float>( c.d[pos + i] ) : c.d[pos + i];
               CHECK( m::sameDouble( b.getReal( i ), want ), "field %s record %zu: %.17g instead of %.17g",
                      c.path.c_str(), pos + i, b.getReal( i ), want );
            }
            else
               CHECK( b.getInt( i ) == c.i[pos + i], "field %s record %zu: %lld instead of %lld", c.path.c_str(),
                      pos + i, (long long)b.getInt( i ), (long long)c.i[pos + i] );
         }
         b.checkGuards( got );
      }
   }

   std::string list( const std::vector<size_t> &v )
   {
      std::string s;
      for ( auto x : v )
         s += ( s.empty() ? "" : "," ) + std::to_string( x );
      return s;
   }

   void follow( Run &r, e57::ImageFile &f, const m::N &cv, const Plan &p )
   {
      e57::CompressedVectorNode node( f.root().get( cv.name ) );
      const size_t total = static_cast<size_t>( cv.records );
      CHECK( node.childCount() == cv.records, "childCount %lld", (long long)node.childCount() );
      Bufs bufs, keep;
      auto sb = make( f, cv, p, p.caps[0], bufs );
      auto rd = node.reader( sb );
      size_t pos = 0;
      int atEnd = 0;
      for ( size_t step = 0; atEnd < 2; ++step )
      {
         const size_t cap = p.replace ? p.caps[std::min( step, p.caps.size() - 1 )] : p.caps[0];
         unsigned got;
         if ( p.replace && step > 0 )
         {
            Bufs fresh;
            auto sb2 = make( f, cv, p, cap, fresh );
            for ( auto &b : bufs )
               b->poison();
            got = rd.read( sb2 );
            // the previous buffers are left alone
            for ( auto &b : bufs )
               b->checkGuards( 0 );
            bufs.swap( fresh );
         }
         else
         {
            for ( auto &b : bufs )
               b->poison();
            got = rd.read();
         }
         const size_t want = std::min( cap, total - pos );
         CHECK( got == want, "read %zu at record %zu of %zu with capacity %zu returned %u", step, pos, total, cap, got );
         verify( cv, p, bufs, pos, got );
         pos += got;
         if ( pos == total )
            ++atEnd;
         r.transitions();
         r.state( fmt( "%s/%zu/%zu/%zu", list( p.order ).c_str(), total, pos, cap ) );
      }
      CHECK( rd.isOpen(), "the reader closed itself" );
      rd.close();
      CHECK( !rd.isOpen(), "the reader is still open" );
   }

   // Several plans one after the other on the same open file
   void run( Run &r, const std::string &path, const m::N &doc, const std::vector<Plan> &plans )
   {
      e57::ImageFile f( path, "r" );
      for ( auto &p : plans )
         follow( r, f, doc.kids[0], p );
      f.close();
      r.outcome( fmt( "%lld records, %zu fields, first capacity %zu", (long long)doc.kids[0].records,
                      plans[0].order.size(), plans[0].caps[0] ) );
   }

   // The file is produced by the library (layout 0) or by the independent writer with packets cut in
   // several ways
   void produce( Run &r, const std::string &path, const m::N &doc, int layout )
   {
      if ( layout == 0 )
      {
         e57::ImageFile f( path, "w" );
         m::writeDoc( f, doc );
         if ( doc.kids[0].records == 0 )
         {
            // an empty section; without any writer the vector would have none, which cannot be read
            Bufs none;
            Plan all;
            for ( size_t i = 0; i < doc.kids[0].cols.size(); ++i )
               all.order.push_back( i );
            auto sb = make( f, doc.kids[0], all, 1, none );
            e57::CompressedVectorNode( f.root().get( doc.kids[0].name ) ).writer( sb ).close();
         }
         f.close();
         return;
      }
      refw::Layout l;
      if ( layout == 1 )
         l.cut = []( const std::vector<size_t> &n ) { return refw::fixedCut( n, 3 ); };
      else if ( layout == 2 ) // streams one after the other
         l.cut = []( const std::vector<size_t> &n ) {
            std::vector<refw::Packet> v;
            for ( size_t i = n.size(); i-- > 0; )
               for ( size_t left = n[i]; left; )
               {
                  refw::Packet p;
                  p.take.assign( n.size(), 0 );
                  p.take[i] = std::min<size_t>( left, 40 );
                  left -= p.take[i];
                  v.push_back( p );
               }
            if ( v.empty() )
               v = refw::onePacket( n );
            return v;
         };
      else // one big packet for the first stream, small ones for the others
         l.cut = []( const std::vector<size_t> &n ) {
            std::vector<refw::Packet> v;
            std::vector<size_t> left = n;
            for ( bool first = true;; first = false )
            {
               refw::Packet p;
               bool any = false;
               for ( size_t i = 0; i < n.size(); ++i )
               {
                  p.take.push_back( std::min( left[i], first && i == 0 ? size_t( 60000 ) : size_t( i + 1 ) ) );
                  left[i] -= p.take[i];
                  any |= p.take[i] > 0;
               }
               if ( !any && !first )
                  return v;
               v.push_back( p );
            }
         };
      m::spit( path, refw::write( doc, l ) );
   }
}

void vh::enumerate( Run &r )
{
   const std::vector<std::vector<Field>> docs = {
      { fld::Int( 0, 1 ), fld::F64(), fld::Str() },
      { fld::Int( 0, 511 ), fld::Int( 5, 5 ), fld::F32(), fld::Str() },
      { fld::Int( INT64_MIN, INT64_MAX ), fld::Sca( -1000, 1000 ), fld::Int( -3, 3 ), fld::Int( 0, 200 ) },
      { fld::Int( 7, 7 ), fld::Int( 5, 5 ) },
      { fld::Str() } };
   auto cases = [&]( const std::string &name, const m::N &doc, int layout, const std::vector<Plan> &plans ) {
      r.test( [&] {
         std::string s = fmt( "%s layout=%d", name.c_str(), layout );
         for ( auto &p : plans )
         {
            s += " order=" + list( p.order ) + " caps=" + list( p.caps ) + ( p.replace ? " new" : " same" );
            if ( p.stride != 1 )
               s += fmt( " stride=%zu", p.stride );
            for ( auto x : p.reps )
               s += std::string( " " ) + m::repName( x );
         }
         return s;
      },
              [&] {
                 const std::string p = r.path( "a.e57" );
                 produce( r, p, doc, layout );
                 run( r, p, doc, plans );
              } );
   };
   auto identity = []( size_t n ) {
      std::vector<size_t> o;
      for ( size_t i = 0; i < n; ++i )
         o.push_back( i );
      return o;
   };

   // 1. all sequences of capacities until the end, buffers replaced before every read
   const size_t N = r.thorough ? 7 : 5;
   const std::vector<size_t> caps = r.thorough ? std::vector<size_t>{ 1, 2, 3, 4, 9 } : std::vector<size_t>{ 1, 2, 3, 9 };
   for ( size_t d = 0; d < docs.size(); ++d )
      for ( size_t n = 0; n <= N; ++n )
         for ( int layout = 0; layout < 4; ++layout )
         {
            const m::N doc = fld::doc( docs[d], n, 1 );
            std::vector<size_t> seq;
            std::function<void( size_t )> rec = [&]( size_t pos ) {
               if ( pos >= n && !seq.empty() )
               {
                  for ( size_t extra : { 1, 4 } )
                  {
                     Plan p;
                     p.order = identity( docs[d].size() );
                     p.caps = seq;
                     p.caps.push_back( extra );
                     cases( fmt( "seq doc=%zu n=%zu", d, n ), doc, layout, { p } );
                  }
                  return;
               }
               for ( size_t c : caps )
               {
                  seq.push_back( c );
                  rec( pos + c );
                  seq.pop_back();
               }
            };
            rec( 0 );
         }

   // 2. all ordered subsets of the fields, same buffers for every read
   for ( size_t d = 0; d < docs.size(); ++d )
      for ( size_t n : { size_t( 1 ), size_t( 20 ), size_t( r.thorough ? 700 : 150 ) } )
         for ( int layout = 0; layout < 4; ++layout )
         {
            const m::N doc = fld::doc( docs[d], n, 2 );
            for ( unsigned mask = 1; mask < ( 1u << docs[d].size() ); ++mask )
            {
               std::vector<size_t> o;
               for ( size_t i = 0; i < docs[d].size(); ++i )
                  if ( mask & ( 1u << i ) )
                     o.push_back( i );
               do
                  for ( size_t cap : { size_t( 1 ), size_t( 3 ), size_t( 8 ), size_t( 701 ) } )
                  {
                     if ( cap == 1 && n > 100 && !r.thorough )
                        continue;
                     Plan p;
                     p.order = o;
                     p.caps = { cap };
                     p.replace = false;
                     cases( fmt( "subset doc=%zu n=%zu", d, n ), doc, layout, { p } );
                  }
               while ( std::next_permutation( o.begin(), o.end() ) );
            }
         }

   // 3. memory types and strides
   struct Want
   {
      Field f;
      std::vector<e57::MemoryRepresentation> reps;
   };
   const std::vector<Want> wants = {
      { fld::Int( 0, 1 ), { e57::Int8, e57::UInt8, e57::Int16, e57::UInt16, e57::Int32, e57::UInt32, e57::Int64, e57::Bool, e57::Real32, e57::Real64 } },
      { fld::Int( 0, 100 ), { e57::Int8, e57::UInt8, e57::Int16, e57::UInt16, e57::Int32, e57::UInt32, e57::Int64, e57::Real32, e57::Real64 } },
      { fld::Int( -100, 100 ), { e57::Int8, e57::Int16, e57::Int32, e57::Int64, e57::Real32, e57::Real64 } },
      { fld::Int( 0, 200 ), { e57::UInt8, e57::Int16, e57::UInt16, e57::Int32, e57::UInt32, e57::Int64, e57::Real32, e57::Real64 } },
      { fld::Int( -30000, 30000 ), { e57::Int16, e57::Int32, e57::Int64, e57::Real32, e57::Real64 } },
      { fld::Int( 0, 60000 ), { e57::UInt16, e57::Int32, e57::UInt32, e57::Int64, e57::Real32, e57::Real64 } },
      { fld::Int( INT32_MIN, INT32_MAX ), { e57::Int32, e57::Int64, e57::Real64 } },
      { fld::Int( 0, UINT32_MAX ), { e57::UInt32, e57::Int64, e57::Real64 } },
      { fld::Int( INT64_MIN, INT64_MAX ), { e57::Int64 } },
      { fld::Int( 5, 5 ), { e57::Int8, e57::UInt8, e57::Int16, e57::UInt16, e57::Int32, e57::UInt32, e57::Int64, e57::Real32, e57::Real64 } },
      { fld::Sca( -100, 100 ), { e57::Int8, e57::Int16, e57::Int32, e57::Int64, e57::Real32, e57::Real64 } },
      { fld::Sca( 9, 9 ), { e57::Int8, e57::UInt8, e57::Int16, e57::UInt16, e57::Int32, e57::UInt32, e57::Int64, e57::Real32, e57::Real64 } },
      { fld::F32(), { e57::Real32, e57::Real64 } },
      { fld::F64(), { e57::Real64 } },
      { fld::Str(), { e57::UString } } };
   for ( size_t w = 0; w < wants.size(); ++w )
      for ( size_t n : { 1, 7, 40 } )
         for ( auto rep : wants[w].reps )
            for ( size_t stride : { 1, 2, 3, 5 } )
               for ( size_t cap : { 1, 3, 41 } )
                  for ( int layout : { 0, 1 } )
                  {
                     const m::N doc = fld::doc( { wants[w].f, fld::Int( 0, 511 ) }, n, 4 );
                     Plan p;
                     p.order = { 0, 1 };
                     p.reps = { rep, e57::Int32 };
                     p.stride = stride;
                     p.caps = { cap };
                     p.replace = false;
                     cases( fmt( "type %s n=%zu", wants[w].f.id.c_str(), n ), doc, layout, { p } );
                     p.replace = true;
                     if ( stride <= 2 )
                        cases( fmt( "type %s n=%zu", wants[w].f.id.c_str(), n ), doc, layout, { p } );
                  }

   // 4. reading again, with another plan, in the same open file: all pairs of plans
   {
      std::vector<Plan> base;
      for ( auto &o : std::vector<std::vector<size_t>>{ { 0, 1, 2, 3 }, { 3, 0 }, { 2 }, { 1, 3, 2, 0 } } )
         for ( size_t cap : { 1, 4, 50 } )
            for ( bool rep : { false, true } )
            {
               Plan p;
               p.order = o;
               p.caps = { cap };
               p.replace = rep;
               base.push_back( p );
            }
      const m::N doc = fld::doc( docs[1], 11, 6 );
      for ( auto &a : base )
         for ( auto &b : base )
            for ( int layout : { 0, 2, 3 } )
               cases( "twice", doc, layout, { a, b } );
   }

   // 5. vectors of many packets, read through the packet cache with the streams far apart
   for ( size_t d = 0; d < 3; ++d )
      for ( size_t n : r.thorough ? std::vector<size_t>{ 5000, 20000, 60000 } : std::vector<size_t>{ 5000 } )
         for ( int layout = 0; layout < 4; ++layout )
            for ( size_t cap : { size_t( 64 ), size_t( 999 ), size_t( 4096 ), n - 1, n, n + 1 } )
            {
               Plan p;
               p.order = identity( docs[d].size() );
               p.caps = { cap };
               p.replace = false;
               cases( fmt( "many doc=%zu n=%zu", d, n ), fld::doc( docs[d], n, 3 ), layout, { p } );
            }
}
