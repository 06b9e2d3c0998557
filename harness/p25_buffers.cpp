// P25: a set of buffers is accepted exactly when it fits the vector, and a transfer touches exactly
// the memory the buffers describe.
//
// All lists of buffers of a few fields, names and sizes are offered to writers and readers, all
// pairs of buffers are used one after the other, and writes of all sizes are made from memory whose
// other elements cannot be written.
#include <algorithm>
#include <xercesc/util/PlatformUtils.hpp>

#include "model.hpp"

using namespace vh;

namespace
{
   using Errors = std::vector<std::string>;
   const std::string anyError = "any";

   bool allowed( const std::string &got, const Errors &want )
   {
      if ( want.empty() )
         return got == "ok";
      return std::find( want.begin(), want.end(), got ) != want.end() ||
             ( got != "ok" && std::find( want.begin(), want.end(), anyError ) != want.end() );
   }

   struct Proto
   {
      const char *name;
      m::N node;
      std::vector<std::string> others; // paths which are no fields
      std::vector<std::string> nonTerminal;
   };
   std::vector<Proto> protos()
   {
      return {
         { "one", m::structure( "", { m::integer( "x", 0, 0, 255 ) } ), { "y", "/y", "x/y" }, { "/" } },
         { "two", m::structure( "", { m::real( "x", 0, true ), m::scaled( "y", 0, 0, 255, 1, 0 ) } ), { "z" }, {} },
         { "three",
           m::structure( "", { m::real( "x" ), m::integer( "y", 0, 0, 255 ), m::str( "z" ) } ),
           { "q" },
           {} },
         { "prefix", m::structure( "", { m::integer( "a", 0, 0, 255 ), m::integer( "ab", 0, 0, 255 ), m::integer( "abc", 0, 0, 255 ) } ), { "abcd" }, {} },
         { "nested",
           m::structure( "", { m::structure( "a", { m::scaled( "x", 0, 0, 255, 0.5, 0 ), m::structure( "a", { m::integer( "x", 0, 0, 255 ) } ) } ), m::integer( "x", 0, 0, 255 ) } ),
           { "a/y", "/a/a/y" },
           { "a", "/a/a" } },
         { "vector", m::structure( "", { m::vec( "v", true, { m::integer( "", 0, 0, 255 ), m::str( "" ) } ) } ), { "v/2", "0" }, { "v" } },
         { "hetero", m::vec( "", true, { m::integer( "", 0, 0, 255 ), m::str( "" ) } ), { "2" }, {} },
         { "constant", m::structure( "", { m::integer( "x", 7, 7, 7 ), m::integer( "y", 0, 0, 255 ) } ), { "z" }, {} },
      };
   }

   struct Leaf
   {
      std::string path;
      m::N node;
   };
   std::vector<Leaf> leavesOf( const m::N &proto )
   {
      std::vector<std::pair<std::string, const m::N *>> l;
      m::leaves( proto, "", l );
      std::vector<Leaf> out;
      for ( auto &p : l )
         out.push_back( { p.first, *p.second } );
      return out;
   }
   int leafOf( const std::vector<Leaf> &leaves, const std::string &path )
   {
      const std::string relative = path[0] == '/' ? path.substr( 1 ) : path;
      for ( size_t i = 0; i < leaves.size(); ++i )
         if ( leaves[i].path == relative )
            return static_cast<int>( i );
      return -1;
   }

   e57::MemoryRepresentation repOf( const m::N &n )
   {
      return n.type == m::T::String ? e57::UString : n.type == m::T::Float ? e57::Real64 : e57::Int64;
   }
   int64_t intOf( const m::N &n, int leaf, size_t record )
   {
      return n.min == n.max ? n.min : 10 * leaf + static_cast<int64_t>( record ) + 1;
   }
   void fill( m::Buf &b, const m::N &n, int leaf )
   {
      for ( size_t k = 0; k < b.capacity; ++k )
         if ( b.rep == e57::UString )
            b.setStr( k, fmt( "s%d-%zu", leaf, k ) );
         else if ( b.isReal() )
            b.setReal( k, 10 * leaf + static_cast<double>( k ) + 1 );
         else
            b.setInt( k, intOf( n, leaf, k ) );
   }
   m::Col columnOf( const Leaf &l, int leaf, size_t records )
   {
      m::Col c;
      c.path = l.path;
      c.type = l.node.type;
      c.single = l.node.single;
      for ( size_t k = 0; k < records; ++k )
         if ( c.type == m::T::String )
            c.s.push_back( fmt( "s%d-%zu", leaf, k ) );
         else if ( c.type == m::T::Float )
            c.d.push_back( 10 * leaf + static_cast<double>( k ) + 1 );
         else
            c.i.push_back( intOf( l.node, leaf, k ) );
      return c;
   }
   m::N document( const Proto &p, size_t records )
   {
      const auto leaves = leavesOf( p.node );
      std::vector<m::Col> cols;
      for ( size_t i = 0; i < leaves.size(); ++i )
         cols.push_back( columnOf( leaves[i], static_cast<int>( i ), records ) );
      return m::structure( "", { m::cv( "cv", p.node, cols ) } );
   }
   e57::CompressedVectorNode vector( e57::ImageFile &f, const std::string &name, const m::N &proto )
   {
      e57::CompressedVectorNode cv( f, m::create( f, proto ), e57::VectorNode( f, true ) );
      f.root().set( name, cv );
      return cv;
   }

   // A list of buffers
   struct Item
   {
      std::string path;
      size_t capacity;
   };
   struct Set
   {
      std::vector<m::Buf> bufs;
      std::vector<e57::SourceDestBuffer> list;
      std::vector<int> leaf;
      Set( const e57::ImageFile &f, const std::vector<Leaf> &leaves, const std::vector<Item> &items )
      {
         bufs.reserve( items.size() );
         for ( auto &i : items )
         {
            leaf.push_back( leafOf( leaves, i.path ) );
            bufs.emplace_back( leaf.back() < 0 ? e57::Int64 : repOf( leaves[static_cast<size_t>( leaf.back() )].node ), i.capacity );
            list.push_back( bufs.back().sdb( f, i.path, true, false ) );
         }
      }
   };
   Errors expected( const Proto &p, const std::vector<Leaf> &leaves, const std::vector<Item> &items, bool writing )
   {
      Errors e;
      if ( items.empty() )
         e.push_back( "14" );
      std::vector<int> seen( leaves.size() );
      for ( auto &i : items )
      {
         if ( i.capacity != items[0].capacity )
            e.push_back( "25" );
         const int l = leafOf( leaves, i.path );
         if ( l >= 0 )
         {
            if ( seen[static_cast<size_t>( l )]++ )
               e.push_back( "26" );
         }
         else if ( std::find( p.nonTerminal.begin(), p.nonTerminal.end(), i.path ) != p.nonTerminal.end() )
            e.push_back( anyError );
         else
            e.push_back( "22" );
      }
      for ( int s : seen )
         if ( !s && writing )
            e.push_back( "24" );
      return e;
   }
   std::string show( const std::vector<Item> &items )
   {
      std::string s;
      for ( auto &i : items )
         s += fmt( " %s(%zu)", i.path.c_str(), i.capacity );
      return s.empty() ? " none" : s;
   }
   std::string show( const Errors &e )
   {
      std::string s;
      for ( auto &x : e )
         s += ( s.empty() ? "" : " or " ) + x;
      return s.empty() ? "ok" : s;
   }

   void offerWriter( Run &r, const Proto &p, const std::vector<std::vector<Item>> &lists )
   {
      const std::string path = r.path( "w.e57" );
      const auto leaves = leavesOf( p.node );
      std::vector<std::pair<std::string, size_t>> written;
      {
         e57::ImageFile f( path, "w" );
         for ( size_t n = 0; n < lists.size(); ++n )
         {
            const auto &items = lists[n];
            const std::string name = fmt( "v%zu", n );
            auto cv = vector( f, name, p.node );
            Set set( f, leaves, items );
            for ( size_t i = 0; i < items.size(); ++i )
               if ( set.leaf[i] >= 0 )
                  fill( set.bufs[i], leaves[static_cast<size_t>( set.leaf[i] )].node, set.leaf[i] );
            const auto want = expected( p, leaves, items, true );
            size_t records = 0;
            const std::string got = m::attempt( [&] {
               auto w = cv.writer( set.list );
               records = items[0].capacity;
               w.write( records );
               w.close();
            } );
            CHECK( allowed( got, want ), "writer of%s: %s instead of %s", show( items ).c_str(), got.c_str(), show( want ).c_str() );
            r.outcome( fmt( "%s%s", p.name, show( items ).c_str() ) );
            r.count( got == "ok" ? "accepted" : "refused" );
            CHECK( f.writerCount() == 0, "a writer is left after%s", show( items ).c_str() );
            CHECK( cv.childCount() == static_cast<int64_t>( records ), "%lld records after%s", (long long)cv.childCount(), show( items ).c_str() );
            for ( size_t i = 0; i < items.size(); ++i )
               set.bufs[i].checkGuards( items[i].capacity );
            if ( got != "ok" )
            {
               // nothing of it is left
               std::vector<Item> good;
               for ( auto &l : leaves )
                  good.push_back( { l.path, 2 } );
               Set again( f, leaves, good );
               for ( size_t i = 0; i < good.size(); ++i )
                  fill( again.bufs[i], leaves[i].node, static_cast<int>( i ) );
               auto w = cv.writer( again.list );
               w.write( 2 );
               w.close();
               records = 2;
            }
            written.emplace_back( name, records );
         }
         f.close();
      }
      e57::ImageFile f( path, "r" );
      for ( auto &v : written )
      {
         e57::CompressedVectorNode cv( f.root().get( v.first ) );
         const m::N got = m::observe( cv );
         m::N want = document( p, v.second ).kids[0];
         want.name = v.first;
         const std::string d = m::diff( want, got );
         CHECK( d.empty(), "%s: %s", v.first.c_str(), d.c_str() );
      }
   }

   // The same buffer objects serve one vector after the other, for writing and reading
   void reuse( Run &r, const Proto &p, const std::vector<int> &ops )
   {
      const std::string path = r.path( "u.e57" );
      const auto leaves = leavesOf( p.node );
      std::vector<Item> items;
      for ( auto &l : leaves )
         items.push_back( { l.path, 3 } );
      std::vector<size_t> written;
      {
         e57::ImageFile f( path, "w" );
         Set set( f, leaves, items );
         auto filled = [&] {
            for ( size_t i = 0; i < items.size(); ++i )
               fill( set.bufs[i], leaves[i].node, static_cast<int>( i ) );
         };
         for ( int op : ops )
         {
            if ( op < 3 )
            {
               // write 1 to 3 records to a new vector
               const size_t n = static_cast<size_t>( op ) + 1;
               filled();
               auto cv = vector( f, fmt( "v%zu", written.size() ), p.node );
               auto w = cv.writer( set.list );
               w.write( n );
               w.close();
               written.push_back( n );
            }
            else if ( !written.empty() )
            {
               // read the first or the last vector, once or to its end
               const size_t k = op & 1 ? 0 : written.size() - 1;
               auto rd = e57::CompressedVectorNode( f.root().get( fmt( "v%zu", k ) ) ).reader( set.list );
               const size_t n = rd.read();
               CHECK( n == written[k], "%zu records of %zu were read", n, written[k] );
               if ( op < 5 )
                  CHECK( rd.read() == 0, "more records than there are" );
               rd.close();
            }
            for ( size_t i = 0; i < items.size(); ++i )
               set.bufs[i].checkGuards( 3 );
            r.transitions();
         }
         f.close();
      }
      e57::ImageFile f( path, "r" );
      for ( size_t k = 0; k < written.size(); ++k )
      {
         m::N want = document( p, written[k] ).kids[0];
         want.name = fmt( "v%zu", k );
         const std::string d = m::diff( want, m::observe( f.root().get( want.name ) ) );
         CHECK( d.empty(), "%s: %s", want.name.c_str(), d.c_str() );
      }
   }

   void offerReader( Run &r, const Proto &p, const std::vector<std::vector<Item>> &lists )
   {
      const std::string path = r.path( "r.e57" );
      const auto leaves = leavesOf( p.node );
      {
         e57::ImageFile f( path, "w" );
         m::writeDoc( f, document( p, 2 ) );
         f.close();
      }
      e57::ImageFile f( path, "r" );
      e57::CompressedVectorNode cv( f.root().get( "cv" ) );
      for ( auto &items : lists )
      {
         Set set( f, leaves, items );
         for ( auto &b : set.bufs )
            b.poison();
         const auto want = expected( p, leaves, items, false );
         unsigned n = 0;
         const std::string got = m::attempt( [&] {
            auto reader = cv.reader( set.list );
            n = reader.read();
            reader.close();
         } );
         CHECK( allowed( got, want ), "reader of%s: %s instead of %s", show( items ).c_str(), got.c_str(), show( want ).c_str() );
         r.outcome( fmt( "read %s%s", p.name, show( items ).c_str() ) );
         r.count( got == "ok" ? "accepted" : "refused" );
         CHECK( f.readerCount() == 0, "a reader is left after%s", show( items ).c_str() );
         if ( got == "ok" )
            CHECK( n == 2, "%u records from%s", n, show( items ).c_str() );
         for ( size_t i = 0; i < items.size(); ++i )
         {
            set.bufs[i].checkGuards( n );
            if ( !n )
               continue;
            const auto leaf = static_cast<size_t>( set.leaf[i] );
            const m::Col c = columnOf( leaves[leaf], set.leaf[i], 2 );
            for ( size_t k = 0; k < n; ++k )
               CHECK( c.type == m::T::String ? set.bufs[i].strs[k] == c.s[k]
                      : c.type == m::T::Float ? set.bufs[i].getReal( k ) == c.d[k]
                                              : set.bufs[i].getInt( k ) == c.i[k],
                      "record %zu of %s is wrong, read with%s", k, items[i].path.c_str(), show( items ).c_str() );
         }
      }
   }

   // ---- buffers used one after the other ----
   struct Kind
   {
      e57::MemoryRepresentation rep;
      bool conversion, scaling, wide, absolute;
      size_t capacity;
      std::string id() const
      {
         return fmt( "%s conv=%d scal=%d wide=%d cap=%zu %s", m::repName( rep ), conversion, scaling, wide, capacity, absolute ? "/x" : "x" );
      }
      m::Buf buf() const
      {
         return m::Buf( rep, capacity, rep == e57::UString ? 0 : m::repWidth( rep ) + ( wide ? 8 : 0 ) );
      }
      bool compatible( const Kind &o ) const
      {
         return rep == o.rep && conversion == o.conversion && scaling == o.scaling && ( wide == o.wide || rep == e57::UString ) && absolute == o.absolute;
      }
   };
   std::vector<Kind> kinds( const m::N &field )
   {
      std::vector<e57::MemoryRepresentation> reps = { e57::Int32, e57::Int64, e57::Real64 };
      if ( field.type == m::T::String )
         reps = { e57::UString };
      std::vector<Kind> out;
      for ( auto rep : reps )
         for ( bool conversion : { false, true } )
            for ( bool scaling : { false, true } )
               for ( bool wide : { false, true } )
                  for ( bool absolute : { false, true } )
                     for ( size_t capacity : { 2, 3 } )
                     {
                        // strings have none of these
                        if ( rep == e57::UString && ( conversion || scaling || wide ) )
                           continue;
                        out.push_back( { rep, conversion, scaling, wide, absolute, capacity } );
                     }
      return out;
   }
   void values( m::Buf &b, int first )
   {
      for ( size_t k = 0; k < b.capacity; ++k )
         if ( b.rep == e57::UString )
            b.setStr( k, std::to_string( first + static_cast<int>( k ) ) );
         else if ( b.isReal() )
            b.setReal( k, first + static_cast<int>( k ) );
         else
            b.setInt( k, first + static_cast<int>( k ) );
   }
   std::string content( const m::N &n )
   {
      std::string s;
      for ( auto x : n.cols[0].i )
         s += fmt( " %lld", (long long)x );
      for ( auto x : n.cols[0].d )
         s += fmt( " %g", x );
      for ( auto &x : n.cols[0].s )
         s += " " + x;
      return s;
   }

   // Two writes: with the first buffer, then with the second one given to write(). What is written
   // by one kind of buffer alone is known from a file of its own.
   std::map<std::string, std::pair<std::string, std::string>> alone;
   std::pair<std::string, std::string> writtenAlone( Run &r, const m::N &field, const Kind &k, int first, size_t n )
   {
      const std::string id = fmt( "%d %s %d %zu", static_cast<int>( field.type ), k.id().c_str(), first, n );
      auto at = alone.find( id );
      if ( at != alone.end() )
         return at->second;
      const std::string path = r.path( "alone.e57" );
      std::pair<std::string, std::string> out;
      {
         e57::ImageFile f( path, "w" );
         auto cv = vector( f, "cv", m::structure( "", { field } ) );
         auto b = k.buf();
         values( b, first );
         std::vector<e57::SourceDestBuffer> list = { b.sdb( f, k.absolute ? "/x" : "x", k.conversion, k.scaling ) };
         auto w = cv.writer( list );
         out.first = m::attempt( [&] { w.write( n ); } );
         w.close();
         f.close();
      }
      if ( out.first == "ok" )
      {
         e57::ImageFile f( path, "r" );
         out.second = content( m::observe( f.root().get( "cv" ) ) );
      }
      return alone[id] = out;
   }
   void replaceWriter( Run &r, const m::N &field, const Kind &a, const std::vector<Kind> &all )
   {
      const std::string path = r.path( "p.e57" );
      std::vector<std::string> want;
      {
         e57::ImageFile f( path, "w" );
         for ( size_t j = 0; j < all.size(); ++j )
         {
            const Kind &b = all[j];
            const std::string what = a.id() + " then " + b.id();
            auto cv = vector( f, fmt( "v%zu", j ), m::structure( "", { field } ) );
            auto ba = a.buf(), bb = b.buf();
            values( ba, 1 );
            values( bb, 20 );
            std::vector<e57::SourceDestBuffer> la = { ba.sdb( f, a.absolute ? "/x" : "x", a.conversion, a.scaling ) },
                                               lb = { bb.sdb( f, b.absolute ? "/x" : "x", b.conversion, b.scaling ) };
            auto w = cv.writer( la );
            const auto first = writtenAlone( r, field, a, 1, 2 ), second = writtenAlone( r, field, b, 20, b.capacity ),
                       old = writtenAlone( r, field, a, 1, 1 );
            std::string got = m::attempt( [&] { w.write( 2 ); } );
            CHECK( got == first.first, "%s: the first write gives %s instead of %s", what.c_str(), got.c_str(), first.first.c_str() );
            if ( got != "ok" )
            {
               w.close();
               want.push_back( "" );
               continue;
            }
            got = m::attempt( [&] { w.write( lb, b.capacity ); } );
            std::string text = first.second;
            if ( got == "46" )
            {
               CHECK( !a.compatible( b ), "%s: compatible buffers refused", what.c_str() );
               // the old ones stay
               w.write( 1 );
               text += old.second;
            }
            else
            {
               Kind same = b;
               same.absolute = a.absolute;
               CHECK( a.compatible( same ), "%s: buffers of another kind give %s", what.c_str(), got.c_str() );
               CHECK( got == second.first, "%s: the second write gives %s instead of %s", what.c_str(), got.c_str(), second.first.c_str() );
               text += second.second;
               // the new ones stay
               w.write( 1 );
               text += writtenAlone( r, field, b, 20, 1 ).second;
            }
            w.close();
            ba.checkGuards( a.capacity );
            bb.checkGuards( b.capacity );
            r.outcome( what );
            want.push_back( text );
         }
         f.close();
      }
      e57::ImageFile f( path, "r" );
      for ( size_t j = 0; j < all.size(); ++j )
      {
         if ( want[j].empty() )
            continue;
         const std::string got = content( m::observe( f.root().get( fmt( "v%zu", j ) ) ) );
         CHECK( got == want[j], "%s then %s: records%s instead of%s", a.id().c_str(), all[j].id().c_str(), got.c_str(), want[j].c_str() );
      }
   }

   std::string shown( const m::Buf &b, size_t n )
   {
      std::string s;
      for ( size_t k = 0; k < n; ++k )
         s += b.rep == e57::UString ? " " + b.strs[k] : b.isReal() ? fmt( " %g", b.getReal( k ) ) : fmt( " %lld", (long long)b.getInt( k ) );
      return s;
   }
   void replaceReader( Run &r, const m::N &field, const Kind &a, const std::vector<Kind> &all )
   {
      const std::string path = r.path( "p.e57" );
      m::Col c;
      c.path = "x";
      c.type = field.type;
      for ( int k = 0; k < 9; ++k )
         if ( c.type == m::T::String )
            c.s.push_back( std::to_string( k ) );
         else if ( c.type == m::T::Float )
            c.d.push_back( k );
         else
            c.i.push_back( k );
      {
         e57::ImageFile f( path, "w" );
         m::writeDoc( f, m::structure( "", { m::cv( "cv", m::structure( "", { field } ), { c } ) } ) );
         f.close();
      }
      e57::ImageFile f( path, "r" );
      e57::CompressedVectorNode cv( f.root().get( "cv" ) );
      // what is read with one kind of buffer alone, from record 0
      auto readAlone = [&]( const Kind &k ) {
         m::Buf b( k.rep, 9, k.buf().stride );
         b.poison();
         std::string text;
         const std::string got = m::attempt( [&] {
            auto reader = cv.reader( { b.sdb( f, k.absolute ? "/x" : "x", k.conversion, k.scaling ) } );
            CHECK( reader.read() == 9, "not all records" );
            for ( size_t i = 0; i < 9; ++i )
            {
               m::Buf one( k.rep, 1 );
               text += fmt( "|%s", b.rep == e57::UString ? b.strs[i].c_str() : b.isReal() ? fmt( "%g", b.getReal( i ) ).c_str() : fmt( "%lld", (long long)b.getInt( i ) ).c_str() );
            }
            reader.close();
         } );
         return std::make_pair( got, text );
      };
      const auto first = readAlone( a );
      auto records = []( const std::string &text, size_t from, size_t n ) {
         std::string s;
         size_t at = 0;
         for ( size_t i = 0; i < from + n; ++i )
         {
            const size_t end = std::min( text.size(), text.find( '|', at + 1 ) );
            if ( i >= from )
               s += " " + text.substr( at + 1, end - at - 1 );
            at = end;
         }
         return s;
      };
      for ( const Kind &b : all )
      {
         const std::string what = a.id() + " then " + b.id();
         auto ba = a.buf(), bb = b.buf();
         ba.poison();
         bb.poison();
         std::vector<e57::SourceDestBuffer> la = { ba.sdb( f, a.absolute ? "/x" : "x", a.conversion, a.scaling ) },
                                            lb = { bb.sdb( f, b.absolute ? "/x" : "x", b.conversion, b.scaling ) };
         auto reader = cv.reader( la );
         unsigned n = 0;
         std::string got = m::attempt( [&] { n = reader.read(); } );
         CHECK( got == first.first, "%s: the first read gives %s instead of %s", what.c_str(), got.c_str(), first.first.c_str() );
         if ( got != "ok" )
         {
            reader.close();
            continue;
         }
         CHECK( n == a.capacity && shown( ba, n ) == records( first.second, 0, n ), "%s: first%s", what.c_str(), shown( ba, n ).c_str() );
         ba.poison();
         got = m::attempt( [&] { n = reader.read( lb ); } );
         if ( got == "46" )
         {
            CHECK( !a.compatible( b ), "%s: compatible buffers refused", what.c_str() );
            bb.checkGuards( 0 );
            n = reader.read();
            CHECK( n == a.capacity && shown( ba, n ) == records( first.second, a.capacity, n ), "%s: after the refusal%s", what.c_str(),
                   shown( ba, n ).c_str() );
         }
         else
         {
            Kind same = b;
            same.absolute = a.absolute;
            CHECK( got == "ok" && a.compatible( same ), "%s: buffers of another kind give %s", what.c_str(), got.c_str() );
            ba.checkGuards( 0 );
            CHECK( n == b.capacity && shown( bb, n ) == records( first.second, a.capacity, n ), "%s: then%s", what.c_str(), shown( bb, n ).c_str() );
            bb.poison();
            n = reader.read();
            CHECK( n == b.capacity && shown( bb, n ) == records( first.second, a.capacity + b.capacity, n ), "%s: at last%s", what.c_str(),
                   shown( bb, n ).c_str() );
            ba.checkGuards( 0 );
         }
         reader.close();
         r.outcome( "read " + what );
      }
   }

   // ---- parts of a buffer ----
   // Only the first n elements are written, the others may have any value. The memory is not changed.
   void partial( Run &r, const m::N &field, e57::MemoryRepresentation rep, size_t capacity, size_t stride )
   {
      const std::string path = r.path( "n.e57" );
      m::Col want;
      want.path = "x";
      want.type = field.type;
      want.single = field.single;
      {
         e57::ImageFile f( path, "w" );
         auto cv = vector( f, "cv", m::structure( "", { field } ) );
         m::Buf b( rep, capacity, stride );
         std::vector<e57::SourceDestBuffer> list = { b.sdb( f, "x", true, field.type == m::T::Scaled ) };
         auto w = cv.writer( list );
         for ( size_t n = 0; n <= capacity + 2; ++n )
         {
            for ( size_t k = 0; k < capacity; ++k )
            {
               const bool used = k < n;
               if ( rep == e57::UString )
                  b.setStr( k, used ? fmt( "%zu-%zu", n, k ) : std::string( "unused" ) );
               else if ( rep == e57::Bool )
                  b.setInt( k, used ? ( n + k ) % 2 : 0 );
               else if ( b.isReal() )
                  b.setReal( k, used ? static_cast<double>( n + k ) : 99 );
               else
                  b.setInt( k, used ? static_cast<int64_t>( n + k ) : 99 );
            }
            const m::Buf before = b;
            const std::string got = m::attempt( [&] { w.write( n ); } );
            CHECK( got == ( n <= capacity ? "ok" : "14" ), "%zu records from a buffer of %zu: %s", n, capacity, got.c_str() );
            b.checkGuards( capacity );
            for ( size_t k = 0; k < capacity; ++k )
               CHECK( rep == e57::UString ? b.strs[k] == before.strs[k]
                      : b.isReal()        ? b.getReal( k ) == before.getReal( k )
                                          : b.getInt( k ) == before.getInt( k ),
                      "element %zu of the source changed", k );
            for ( size_t k = 0; k < n && n <= capacity; ++k )
               if ( want.type == m::T::String )
                  want.s.push_back( fmt( "%zu-%zu", n, k ) );
               else if ( want.type == m::T::Float )
                  want.d.push_back( rep == e57::Bool ? ( n + k ) % 2 : n + k );
               else
                  want.i.push_back( static_cast<int64_t>( rep == e57::Bool ? ( n + k ) % 2 : n + k ) );
         }
         w.close();
         f.close();
      }
      e57::ImageFile f( path, "r" );
      const m::N got = m::observe( f.root().get( "cv" ) );
      const std::string d = m::diffCol( want, got.cols.at( 0 ) );
      CHECK( d.empty(), "%s", d.c_str() );
      r.outcome( fmt( "%s %zu %zu", m::repName( rep ), capacity, stride ) );
   }

   // ---- the object itself ----
   void object( Run &r, e57::MemoryRepresentation rep )
   {
      const std::string path = r.path( "o.e57" );
      e57::ImageFile f( path, "w" );
      for ( size_t capacity : { 1, 2, 1000 } )
         for ( size_t wide : { 0, 1, 8, 100 } )
            for ( bool conversion : { false, true } )
               for ( bool scaling : { false, true } )
                  for ( const char *name : { "x", "/x", "a/b/c", "/a/0", "9" } )
                  {
                     m::Buf b( rep, capacity, rep == e57::UString ? 0 : m::repWidth( rep ) + wide );
                     auto s = b.sdb( f, name, conversion, scaling );
                     auto copy = s;
                     for ( auto *x : { &s, &copy } )
                     {
                        CHECK( x->pathName() == name, "path %s", x->pathName().c_str() );
                        CHECK( x->memoryRepresentation() == rep, "representation %d", x->memoryRepresentation() );
                        CHECK( x->capacity() == capacity, "capacity %zu", x->capacity() );
                        if ( rep != e57::UString )
                        {
                           CHECK( x->doConversion() == conversion, "conversion" );
                           CHECK( x->doScaling() == scaling, "scaling" );
                           CHECK( x->stride() == b.stride, "stride %zu instead of %zu", x->stride(), b.stride );
                        }
                        x->checkInvariant();
                     }
                     b.checkGuards( capacity );
                     r.outcome( fmt( "%s %zu %zu %d %d %s", m::repName( rep ), capacity, wide, conversion, scaling, name ) );
                  }
      const std::pair<const char *, Errors> bad[] = { { "", { "54" } },      { "//", { "55", "54" } },  { "a//b", { "55", "54" } },
                                                      { " a", { "55" } },    { "a b", { "55" } },
                                                      { "a&", { "55" } },    { "a/b<", { "55" } },      { "/", {} } };
      m::Buf b( rep, 3 );
      for ( auto &p : bad )
      {
         const std::string got = m::attempt( [&] { b.sdb( f, p.first, true, true ); } );
         CHECK( p.second.empty() || allowed( got, p.second ), "path '%s': %s instead of %s", p.first, got.c_str(), show( p.second ).c_str() );
      }
      const std::string null = m::attempt( [&] {
         switch ( rep )
         {
            case e57::UString: e57::SourceDestBuffer( f, "x", static_cast<std::vector<e57::ustring> *>( nullptr ) ); break;
            case e57::Int8: e57::SourceDestBuffer( f, "x", static_cast<int8_t *>( nullptr ), 3 ); break;
            case e57::UInt8: e57::SourceDestBuffer( f, "x", static_cast<uint8_t *>( nullptr ), 3 ); break;
            case e57::Int16: e57::SourceDestBuffer( f, "x", static_cast<int16_t *>( nullptr ), 3 ); break;
            case e57::UInt16: e57::SourceDestBuffer( f, "x", static_cast<uint16_t *>( nullptr ), 3 ); break;
            case e57::Int32: e57::SourceDestBuffer( f, "x", static_cast<int32_t *>( nullptr ), 3 ); break;
            case e57::UInt32: e57::SourceDestBuffer( f, "x", static_cast<uint32_t *>( nullptr ), 3 ); break;
            case e57::Int64: e57::SourceDestBuffer( f, "x", static_cast<int64_t *>( nullptr ), 3 ); break;
            case e57::Bool: e57::SourceDestBuffer( f, "x", static_cast<bool *>( nullptr ), 3 ); break;
            case e57::Real32: e57::SourceDestBuffer( f, "x", static_cast<float *>( nullptr ), 3 ); break;
            case e57::Real64: e57::SourceDestBuffer( f, "x", static_cast<double *>( nullptr ), 3 ); break;
         }
      } );
      CHECK( null == "23", "no memory: %s instead of 23", null.c_str() );
      f.cancel();
      const std::string closed = m::attempt( [&] { b.sdb( f, "x", true, true ); } );
      CHECK( closed == "45", "file closed: %s instead of 45", closed.c_str() );
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();

   // the same buffers again
   for ( auto &p : protos() )
      for ( int a = 0; a < 3; ++a )
         for ( int b = 0; b < 7; ++b )
            for ( int c = 0; c < 7; ++c )
               r.test( fmt( "again %s %d %d %d", p.name, a, b, c ), [&] {
                  reuse( r, p, { a, b, c } );
                  r.outcome( fmt( "again %d %d %d", a, b, c ) );
               } );

   for ( auto &p : protos() )
   {
      std::vector<std::string> names;
      for ( auto &l : leavesOf( p.node ) )
      {
         names.push_back( l.path );
         names.push_back( "/" + l.path );
      }
      names.insert( names.end(), p.others.begin(), p.others.end() );
      names.insert( names.end(), p.nonTerminal.begin(), p.nonTerminal.end() );
      // lists of up to three (four), in groups with the same first two
      const size_t most = r.thorough ? 4 : 3;
      std::function<void( std::vector<Item> &, std::vector<std::vector<Item>> & )> extend =
         [&]( std::vector<Item> &at, std::vector<std::vector<Item>> &out ) {
            out.push_back( at );
            if ( at.size() == most )
               return;
            size_t other = 0;
            for ( auto &i : at )
               other += i.capacity != at[0].capacity;
            for ( auto &n : names )
               for ( size_t capacity : { 3, 2 } )
               {
                  // at most one of another size, except in short lists
                  if ( at.size() > 1 && capacity != at[0].capacity && other )
                     continue;
                  at.push_back( { n, capacity } );
                  extend( at, out );
                  at.pop_back();
               }
         };
      auto offer = [&]( const std::string &id, const std::vector<std::vector<Item>> &lists ) {
         r.test( [&] { return id + " writer"; }, [&] { offerWriter( r, p, lists ); } );
         r.test( [&] { return id + " reader"; }, [&] { offerReader( r, p, lists ); } );
      };
      offer( fmt( "%s none", p.name ), { {} } );
      for ( auto &a : names )
         for ( size_t ca : { 3, 2 } )
         {
            offer( fmt( "%s %s(%zu)", p.name, a.c_str(), ca ), { { { a, ca } } } );
            for ( auto &b : names )
            {
               std::vector<std::vector<Item>> lists;
               for ( size_t cb : { 3, 2 } )
               {
                  std::vector<Item> at = { { a, ca }, { b, cb } };
                  extend( at, lists );
               }
               offer( fmt( "%s %s(%zu) %s...", p.name, a.c_str(), ca, b.c_str() ), lists );
            }
         }
   }

   const m::N fields[] = { m::integer( "x", 0, 0, 100 ), m::scaled( "x", 0, 0, 100, 0.5, 0 ), m::real( "x" ), m::str( "x" ) };
   const char *names[] = { "integer", "scaled", "float", "string" };
   for ( size_t k = 0; k < 4; ++k )
   {
      const auto all = kinds( fields[k] );
      for ( auto &a : all )
      {
         r.test( fmt( "replace %s writer %s", names[k], a.id().c_str() ), [&] { replaceWriter( r, fields[k], a, all ); } );
         r.test( fmt( "replace %s reader %s", names[k], a.id().c_str() ), [&] { replaceReader( r, fields[k], a, all ); } );
      }
   }

   const m::N small[] = { m::integer( "x", 0, 0, 20 ), m::scaled( "x", 0, 0, 20, 1, 0 ), m::real( "x", 0, false, 0, 20 ), m::str( "x" ) };
   for ( size_t k = 0; k < 4; ++k )
      for ( auto rep : m::allReps )
      {
         if ( ( rep == e57::UString ) != ( k == 3 ) || ( rep == e57::Bool && k == 2 ) )
            continue;
         for ( size_t capacity = 1; capacity <= ( r.thorough ? 8u : 5u ); ++capacity )
            for ( size_t wide : { 0, 8, 24 } )
            {
               if ( rep == e57::UString && wide )
                  continue;
               r.test( fmt( "partial %s %s cap=%zu wide=%zu", names[k], m::repName( rep ), capacity, wide ),
                       [&] { partial( r, small[k], rep, capacity, rep == e57::UString ? 0 : m::repWidth( rep ) + wide ); } );
            }
      }
   for ( auto rep : m::allReps )
      r.test( fmt( "object %s", m::repName( rep ) ), [&] { object( r, rep ); } );
}
