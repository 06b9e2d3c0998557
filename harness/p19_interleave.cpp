// P19: objects in one file and files in one process do not interfere.
//
// Scripts that each work on one object or one file are executed in all interleavings; whatever the
// interleaving, every script must read what it alone determines, and every file must contain it.
#include <xercesc/util/PlatformUtils.hpp>

#include "model.hpp"
#include "simple.hpp"
#include "vh.hpp"

using namespace vh;

namespace
{
   // What the scripts share: the files of the case
   struct World
   {
      std::string dir;
      std::map<std::string, e57::ImageFile> files;
      std::map<std::string, m::N> content;  // expected children of the files written
      std::map<std::string, int> writers;   // open writers and readers of a file
      bool stopped = false;                 // the rest is not possible in this order
      std::string path( const std::string &name ) const
      {
         return dir + name + ".e57";
      }
      e57::ImageFile &file( const std::string &name )
      {
         return files.at( name );
      }
   };
   using Op = std::function<void( World & )>;
   struct Script
   {
      std::string name;
      std::vector<Op> ops;
   };

   std::vector<m::Col> columns( size_t n, unsigned salt, size_t text )
   {
      std::vector<m::Col> c( 3 );
      c[0].path = "i", c[0].type = m::T::Integer;
      c[1].path = "d", c[1].type = m::T::Float;
      c[2].path = "s", c[2].type = m::T::String;
      for ( size_t k = 0; k < n; ++k )
      {
         c[0].i.push_back( static_cast<int64_t>( ( k * 37 + salt * 11 ) % 1000 ) );
         c[1].d.push_back( static_cast<double>( k ) * 0.25 + salt );
         c[2].s.push_back( std::string( text - ( k + salt ) % std::min<size_t>( text, 20 ), static_cast<char>( 'a' + ( k + salt ) % 26 ) ) );
      }
      return c;
   }
   m::N vectorNode( const std::string &name, std::vector<m::Col> cols = {} )
   {
      return m::cv( name, m::structure( "", { m::integer( "i", 0, 0, 1000 ), m::real( "d" ), m::str( "s" ) } ), std::move( cols ) );
   }
   struct Buffers3
   {
      m::Buf i, d, s;
      std::vector<e57::SourceDestBuffer> list;
      Buffers3( const e57::ImageFile &f, size_t n ) : i( e57::Int64, n ), d( e57::Real64, n ), s( e57::UString, n )
      {
         list.push_back( i.sdb( f, "i", false, false ) );
         list.push_back( d.sdb( f, "d", false, false ) );
         list.push_back( s.sdb( f, "s", false, false ) );
      }
      void fill( const std::vector<m::Col> &c, size_t from, size_t n )
      {
         for ( size_t k = 0; k < n; ++k )
         {
            i.setInt( k, c[0].i[from + k] );
            d.setReal( k, c[1].d[from + k] );
            s.setStr( k, c[2].s[from + k] );
         }
      }
      void compare( const std::vector<m::Col> &c, size_t from, size_t n )
      {
         for ( size_t k = 0; k < n; ++k )
         {
            CHECK( i.getInt( k ) == c[0].i[from + k], "integer of record %zu is %lld", from + k, (long long)i.getInt( k ) );
            CHECK( d.getReal( k ) == c[1].d[from + k], "real of record %zu is %g", from + k, d.getReal( k ) );
            CHECK( s.strs[k] == c[2].s[from + k], "string of record %zu is %.40s", from + k, s.strs[k].c_str() );
         }
      }
   };

   // ---- scripts on an open file ----
   // Creating a blob may be refused while records are being written
   template <class F> bool create( World &w, const std::string &file, F f )
   {
      const auto got = m::attempt( f );
      if ( got != "ok" && got != "11" && w.writers[file] > 0 )
      {
         w.stopped = true;
         return false;
      }
      CHECK( got == "ok", "creating a blob: error %s", got.c_str() );
      return true;
   }
   Script writeBlob( const std::string &file, const std::string &name, size_t size, std::vector<std::pair<size_t, size_t>> pieces,
                     unsigned salt )
   {
      Script s;
      s.name = "blob " + name;
      auto node = std::make_shared<std::unique_ptr<e57::BlobNode>>();
      const auto bytes = m::pattern( size, salt );
      s.ops.push_back( [=]( World &w ) {
         if ( !create( w, file, [&] {
                 node->reset( new e57::BlobNode( w.file( file ), static_cast<int64_t>( size ) ) );
                 w.file( file ).root().set( name, **node );
              } ) )
            return;
         w.content[file].kids.push_back( m::blob( name, bytes ) );
      } );
      for ( auto p : pieces )
         s.ops.push_back( [=]( World & ) {
            auto copy = bytes;
            ( *node )->write( copy.data() + p.first, static_cast<int64_t>( p.first ), p.second );
         } );
      s.ops.push_back( [=]( World & ) {
         std::vector<uint8_t> got( size );
         ( *node )->read( got.data(), 0, size );
         CHECK( got == bytes, "the blob %s reads back other bytes", name.c_str() );
         node->reset();
      } );
      return s;
   }
   Script writeVector( const std::string &file, const std::string &name, std::vector<size_t> blocks, size_t text, unsigned salt,
                       bool readBack )
   {
      Script s;
      s.name = "vector " + name;
      struct State
      {
         std::unique_ptr<e57::CompressedVectorNode> node;
         std::unique_ptr<Buffers3> b;
         std::unique_ptr<e57::CompressedVectorWriter> cw;
         std::unique_ptr<e57::CompressedVectorReader> cr;
         size_t at = 0;
      };
      auto st = std::make_shared<State>();
      size_t total = 0, most = 0;
      for ( size_t b : blocks )
         total += b, most = std::max( most, b );
      const auto cols = columns( total, salt, text );
      s.ops.push_back( [=]( World &w ) {
         e57::Node n = m::create( w.file( file ), vectorNode( "" ) );
         w.file( file ).root().set( name, n );
         st->node.reset( new e57::CompressedVectorNode( n ) );
         w.content[file].kids.push_back( vectorNode( name, cols ) );
      } );
      s.ops.push_back( [=]( World &w ) {
         if ( w.writers[file] > 0 )
         {
            w.stopped = true; // only one at a time
            return;
         }
         st->b.reset( new Buffers3( w.file( file ), most ) );
         st->cw.reset( new e57::CompressedVectorWriter( st->node->writer( st->b->list ) ) );
         ++w.writers[file];
      } );
      for ( size_t n : blocks )
         s.ops.push_back( [=]( World & ) {
            st->b->fill( cols, st->at, n );
            st->cw->write( n );
            st->at += n;
         } );
      s.ops.push_back( [=]( World &w ) {
         st->cw->close();
         st->cw.reset();
         --w.writers[file];
         if ( !readBack )
            st->node.reset();
      } );
      if ( readBack )
      {
         s.ops.push_back( [=]( World &w ) {
            if ( w.writers[file] > 0 )
            {
               w.stopped = true;
               return;
            }
            st->cr.reset( new e57::CompressedVectorReader( st->node->reader( st->b->list ) ) );
            ++w.writers[file];
            st->at = 0;
         } );
         s.ops.push_back( [=]( World &w ) {
            for ( ;; )
            {
               const size_t n = st->cr->read();
               if ( n == 0 )
                  break;
               CHECK( st->at + n <= total, "too many records" );
               st->b->compare( cols, st->at, n );
               st->at += n;
            }
            CHECK( st->at == total, "%zu records instead of %zu", st->at, total );
            st->cr->close();
            --w.writers[file];
            st->cr.reset();
            st->node.reset();
         } );
      }
      return s;
   }
   Script writeTree( const std::string &file, const std::string &name )
   {
      Script s;
      s.name = "tree " + name;
      auto top = std::make_shared<std::unique_ptr<e57::StructureNode>>();
      auto list = std::make_shared<std::unique_ptr<e57::VectorNode>>();
      s.ops.push_back( [=]( World &w ) {
         top->reset( new e57::StructureNode( w.file( file ) ) );
         w.file( file ).root().set( name, **top );
         w.content[file].kids.push_back( m::structure( name, { m::vec( "v", true, { m::integer( "", 5 ), m::str( "", "]]>&" ) } ),
                                                                m::real( name + "x", 0.1 ) } ) );
      } );
      s.ops.push_back( [=]( World &w ) {
         list->reset( new e57::VectorNode( w.file( file ), true ) );
         ( *top )->set( "v", **list );
         ( *list )->append( e57::IntegerNode( w.file( file ), 5 ) );
      } );
      s.ops.push_back( [=]( World &w ) {
         ( *top )->set( name + "x", e57::FloatNode( w.file( file ), 0.1 ) );
         ( *list )->append( e57::StringNode( w.file( file ), "]]>&" ) );
         CHECK( ( *top )->childCount() == 2 && ( *list )->childCount() == 2, "children of %s", name.c_str() );
         CHECK( ( *list )->pathName() == "/" + name + "/v", "path of the vector is %s", ( *list )->pathName().c_str() );
         top->reset();
         list->reset();
      } );
      return s;
   }

   // ---- scripts that read from an open file ----
   Script readBlob( const std::string &file, const std::string &name, std::vector<uint8_t> bytes,
                    std::vector<std::pair<size_t, size_t>> pieces )
   {
      Script s;
      s.name = "read blob " + name;
      auto node = std::make_shared<std::unique_ptr<e57::BlobNode>>();
      s.ops.push_back( [=]( World &w ) { node->reset( new e57::BlobNode( w.file( file ).root().get( name ) ) ); } );
      for ( size_t k = 0; k < pieces.size(); ++k )
      {
         const auto p = pieces[k];
         const bool last = k + 1 == pieces.size();
         s.ops.push_back( [=]( World & ) {
            std::vector<uint8_t> got( p.second );
            ( *node )->read( got.data(), static_cast<int64_t>( p.first ), p.second );
            CHECK( memcmp( got.data(), bytes.data() + p.first, p.second ) == 0, "bytes %zu+%zu of %s", p.first, p.second, name.c_str() );
            if ( last )
               node->reset();
         } );
      }
      return s;
   }
   Script readVector( const std::string &file, const std::string &name, const std::vector<m::Col> &cols, std::vector<size_t> blocks )
   {
      Script s;
      s.name = "read vector " + name;
      struct State
      {
         std::unique_ptr<Buffers3> b;
         std::unique_ptr<e57::CompressedVectorReader> cr;
         size_t at = 0;
      };
      auto st = std::make_shared<State>();
      s.ops.push_back( [=]( World &w ) {
         if ( w.writers[file] > 0 )
         {
            w.stopped = true; // only one at a time
            return;
         }
         ++w.writers[file];
         st->b.reset( new Buffers3( w.file( file ), blocks[0] ) );
         st->cr.reset( new e57::CompressedVectorReader(
            e57::CompressedVectorNode( w.file( file ).root().get( name ) ).reader( st->b->list ) ) );
      } );
      for ( size_t k = 0; k < blocks.size(); ++k )
      {
         const size_t n = blocks[k];
         const bool last = k + 1 == blocks.size();
         s.ops.push_back( [=]( World &w ) {
            auto next = std::unique_ptr<Buffers3>( new Buffers3( w.file( file ), n ) );
            const size_t got = st->cr->read( next->list );
            const size_t want = std::min( n, cols[0].i.size() - st->at );
            CHECK( got == want, "%zu records instead of %zu", got, want );
            next->compare( cols, st->at, got );
            st->at += got;
            if ( last )
            {
               st->cr->close();
               st->cr.reset();
               --w.writers[file];
            }
            st->b = std::move( next );
         } );
      }
      return s;
   }
   Script walk( const std::string &file, const m::N &want )
   {
      Script s;
      s.name = "walk";
      for ( int k = 0; k < 2; ++k )
         s.ops.push_back( [=]( World &w ) {
            const std::string d = m::diff( want, m::observe( w.file( file ).root(), false ), false );
            CHECK( d.empty(), "%s", d.c_str() );
         } );
      return s;
   }

   // ---- scripts with a file of their own ----
   Op open( const std::string &file, const char *mode, int policy = e57::CHECKSUM_POLICY_ALL )
   {
      return [=]( World &w ) { w.files.emplace( file, e57::ImageFile( w.path( file ), mode, policy ) ); };
   }
   Op openAs( const std::string &file, const std::string &path, int policy )
   {
      return [=]( World &w ) { w.files.emplace( file, e57::ImageFile( w.path( path ), "r", policy ) ); };
   }
   Op close( const std::string &file )
   {
      return [=]( World &w ) {
         w.file( file ).close();
         w.files.erase( file );
      };
   }
   Script whole( const std::string &file, Op first, const std::vector<Script> &parts )
   {
      Script s;
      s.name = "file " + file;
      s.ops.push_back( first );
      for ( auto &p : parts )
         s.ops.insert( s.ops.end(), p.ops.begin(), p.ops.end() );
      s.ops.push_back( close( file ) );
      return s;
   }
   // Simple API
   Script simpleWrite( const std::string &file, bool withPoints )
   {
      Script s;
      s.name = "Writer " + file;
      auto w = std::make_shared<std::unique_ptr<e57::Writer>>();
      auto cw = std::make_shared<std::unique_ptr<e57::CompressedVectorWriter>>();
      auto b = std::make_shared<std::unique_ptr<simple::Buffers<double>>>();
      s.ops.push_back( [=]( World &world ) { w->reset( new e57::Writer( world.path( file ), e57::WriterOptions{} ) ); } );
      if ( withPoints )
      {
         s.ops.push_back( [=]( World & ) {
            e57::Data3D d;
            d.guid = file;
            d.pointCount = 40;
            d.pointFields.cartesianXField = d.pointFields.colorRedField = true;
            d.colorLimits.colorRedMaximum = 255;
            ( *w )->NewData3D( d );
            b->reset( new simple::Buffers<double>( d.pointFields, 20 ) );
            cw->reset( new e57::CompressedVectorWriter( ( *w )->SetUpData3DPointsData( 0, 20, ( *b )->b ) ) );
         } );
         for ( int k = 0; k < 2; ++k )
            s.ops.push_back( [=]( World & ) {
               for ( size_t i = 0; i < 20; ++i )
               {
                  ( *b )->set( 0, i, 0.5 * static_cast<double>( i ) + k );
                  ( *b )->set( 16, i, static_cast<double>( i * 3 + static_cast<size_t>( k ) ) );
               }
               ( *cw )->write( 20 );
            } );
      }
      else
         s.ops.push_back( [=]( World & ) {
            e57::Image2D i;
            i.guid = file;
            i.visualReferenceRepresentation.imageWidth = i.visualReferenceRepresentation.imageHeight = 4;
            i.visualReferenceRepresentation.jpegImageSize = 1500;
            auto bytes = m::pattern( 1500, 9 );
            CHECK( ( *w )->WriteImage2DData( i, e57::ImageJPEG, e57::ProjectionVisual, 0, bytes.data(), 1500 ) == 1500,
                   "the image is not written" );
         } );
      s.ops.push_back( [=]( World &world ) {
         if ( withPoints )
            ( *cw )->close();
         cw->reset();
         CHECK( ( *w )->Close(), "Close failed" );
         w->reset();
         b->reset();
         e57::Reader r( world.path( file ), e57::ReaderOptions{} );
         if ( withPoints )
         {
            e57::Data3D d;
            CHECK( r.ReadData3D( 0, d ) && d.pointCount == 40, "the scan of %s", file.c_str() );
            simple::Buffers<double> got( d.pointFields, 40 );
            auto cr = r.SetUpData3DPointsData( 0, 40, got.b );
            CHECK( cr.read() == 40, "points of %s", file.c_str() );
            for ( size_t i = 0; i < 40; ++i )
               CHECK( got.get( 0, i ) == 0.5 * static_cast<double>( i % 20 ) + static_cast<double>( i / 20 ) &&
                         got.get( 16, i ) == static_cast<double>( i % 20 * 3 + i / 20 ),
                      "point %zu of %s", i, file.c_str() );
            cr.close();
         }
         else
         {
            std::vector<uint8_t> got( 1500 );
            CHECK( r.ReadImage2DData( 0, e57::ProjectionVisual, e57::ImageJPEG, got.data(), 0, 1500 ) == 1500, "image of %s", file.c_str() );
            CHECK( got == m::pattern( 1500, 9 ), "image of %s has other bytes", file.c_str() );
         }
         r.Close();
      } );
      return s;
   }

   // ---- all interleavings ----
   using Setup = std::function<std::vector<Script>( World & )>;
   using Finish = std::function<void( World & )>;
   void merges( Run &r, const std::string &name, std::vector<size_t> lengths, const Setup &setup, const Finish &finish )
   {
      std::vector<char> order;
      std::function<void( std::vector<size_t> & )> extend = [&]( std::vector<size_t> &left ) {
         bool done = true;
         for ( size_t k = 0; k < left.size(); ++k )
            if ( left[k] )
            {
               done = false;
               --left[k];
               order.push_back( static_cast<char>( 'a' + k ) );
               extend( left );
               order.pop_back();
               ++left[k];
            }
         if ( !done )
            return;
         r.test( [&] { return name + " " + std::string( order.begin(), order.end() ); },
                 [&] {
                    World w;
                    w.dir = r.path( "" );
                    auto scripts = setup( w );
                    std::vector<size_t> at( scripts.size() );
                    size_t steps = 0;
                    for ( char c : order )
                    {
                       const size_t k = static_cast<size_t>( c - 'a' );
                       CHECK( at[k] < scripts[k].ops.size(), "the length of script %s", scripts[k].name.c_str() );
                       scripts[k].ops[at[k]++]( w );
                       std::string state = name;
                       for ( size_t x : at )
                          state += "," + std::to_string( x );
                       r.state( state );
                       ++steps;
                       if ( w.stopped )
                          break;
                    }
                    r.transitions( steps );
                    if ( w.stopped )
                    {
                       r.count( "orders that are not possible" );
                       scripts.clear();
                       for ( auto &f : w.files )
                          f.second.cancel();
                       r.outcome( name + " not possible" );
                       return;
                    }
                    for ( size_t k = 0; k < at.size(); ++k )
                       CHECK( at[k] == scripts[k].ops.size(), "the length of script %s", scripts[k].name.c_str() );
                    finish( w );
                    r.outcome( name );
                 } );
      };
      extend( lengths );
   }
   void expect( World &w, const std::string &file )
   {
      e57::ImageFile f( w.path( file ), "r" );
      const std::string d = m::diff( m::structure( "", w.content[file].kids ), m::observeFile( f ) );
      CHECK( d.empty(), "%s: %s", file.c_str(), d.c_str() );
      f.close();
   }
   size_t lengthOf( const Script &s )
   {
      return s.ops.size();
   }
   // scripts made anew for every interleaving
   void run( Run &r, const std::string &name, const std::function<std::vector<Script>()> &make, const std::function<void( World & )> &before,
             const Finish &after )
   {
      std::vector<size_t> lengths;
      for ( auto &s : make() )
         lengths.push_back( lengthOf( s ) );
      merges(
         r, name, lengths,
         [&]( World &w ) {
            before( w );
            return make();
         },
         after );
   }

   const size_t LONG = 700; // strings that fill packets

   m::N library() // a file to read
   {
      return m::structure( "", { m::blob( "b", m::pattern( 2500, 3 ) ), vectorNode( "v", columns( 260, 1, LONG ) ),
                                 m::structure( "s", { m::integer( "i", 3 ) } ), m::blob( "c", m::pattern( 1100, 4 ) ),
                                 vectorNode( "u", columns( 9, 2, 30 ) ) } );
   }
   void writeLibrary( World &w, const std::string &name )
   {
      // it is the same for all cases
      if ( m::exists( w.path( name ) ) )
         return;
      e57::ImageFile f( w.path( name ), "w" );
      m::writeDoc( f, library() );
      f.close();
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();
   const auto nothing = []( World & ) {};

   // objects written to one file
   const std::vector<std::pair<std::string, std::function<Script( const std::string & )>>> makers = {
      { "small", []( const std::string &n ) { return writeBlob( "f", n, 30, { { 0, 30 } }, 1 ); } },
      { "big", []( const std::string &n ) { return writeBlob( "f", n, 2500, { { 1300, 1200 }, { 0, 1400 } }, 2 ); } },
      { "few", []( const std::string &n ) { return writeVector( "f", n, { 2, 3 }, 5, 3, false ); } },
      { "many", []( const std::string &n ) { return writeVector( "f", n, { 130, 100, 5 }, LONG, 4, false ); } },
      { "again", []( const std::string &n ) { return writeVector( "f", n, { 120 }, LONG, 5, true ); } },
      { "tree", []( const std::string &n ) { return writeTree( "f", n ); } },
   };
   const auto openF = []( World &w ) { w.files.emplace( "f", e57::ImageFile( w.path( "f" ), "w" ) ); };
   const auto checkF = []( World &w ) {
      w.file( "f" ).close();
      expect( w, "f" );
   };
   for ( size_t a = 0; a < makers.size(); ++a )
      for ( size_t b = a; b < makers.size(); ++b )
      {
         run(
            r, "objects " + makers[a].first + "+" + makers[b].first,
            [&] {
               return std::vector<Script>{ makers[a].second( "p" ), makers[b].second( "q" ) };
            },
            openF, checkF );
      }
   // three of them
   const std::vector<std::vector<size_t>> threes =
      r.thorough ? std::vector<std::vector<size_t>>{ { 0, 2, 5 }, { 0, 3, 5 }, { 1, 2, 5 }, { 0, 0, 2 }, { 0, 1, 2 }, { 0, 4, 5 }, { 0, 1, 3 } }
                 : std::vector<std::vector<size_t>>{ { 0, 2, 5 } };
   for ( auto &t : threes )
      run(
         r, "objects " + makers[t[0]].first + "+" + makers[t[1]].first + "+" + makers[t[2]].first,
         [&] {
            return std::vector<Script>{ makers[t[0]].second( "p" ), makers[t[1]].second( "q" ), makers[t[2]].second( "r" ) };
         },
         openF, checkF );

   // objects read from one file
   const auto cols = columns( 260, 1, LONG );
   const std::vector<std::pair<std::string, std::function<Script( const std::string & )>>> readers = {
      { "b", []( const std::string &f ) { return readBlob( f, "b", m::pattern( 2500, 3 ), { { 0, 100 }, { 990, 1100 }, { 2499, 1 } } ); } },
      { "c", []( const std::string &f ) { return readBlob( f, "c", m::pattern( 1100, 4 ), { { 5, 1095 }, { 0, 1100 } } ); } },
      { "v", [cols]( const std::string &f ) { return readVector( f, "v", cols, { 1, 100, 60, 200 } ); } },
      { "w", [cols]( const std::string &f ) { return readVector( f, "v", cols, { 90, 200 } ); } },
      { "u", []( const std::string &f ) { return readVector( f, "u", columns( 9, 2, 30 ), { 4, 4, 4 } ); } },
      { "walk", []( const std::string &f ) { return walk( f, library() ); } },
   };
   const auto openR = []( World &w ) {
      writeLibrary( w, "library" );
      w.files.emplace( "g", e57::ImageFile( w.path( "library" ), "r" ) );
   };
   const auto closeR = []( World &w ) { w.file( "g" ).close(); };
   for ( size_t a = 0; a < readers.size(); ++a )
      for ( size_t b = a; b < readers.size(); ++b )
      {
         run(
            r, "reading " + readers[a].first + "+" + readers[b].first,
            [&] {
               return std::vector<Script>{ readers[a].second( "g" ), readers[b].second( "g" ) };
            },
            openR, closeR );
         for ( size_t c = b; c < readers.size(); ++c )
            if ( r.thorough || ( a == 0 && b == 1 && c == 3 ) || ( a == 1 && b == 3 && c == 5 ) )
               run(
                  r, "reading " + readers[a].first + "+" + readers[b].first + "+" + readers[c].first,
                  [&] {
                     return std::vector<Script>{ readers[a].second( "g" ), readers[b].second( "g" ), readers[c].second( "g" ) };
                  },
                  openR, closeR );
      }

   // files in one process
   const std::vector<std::pair<std::string, std::function<Script( const std::string & )>>> files = {
      { "write blob", []( const std::string &n ) { return whole( n, open( n, "w" ), { writeBlob( n, "b", 1500, { { 0, 1500 } }, 6 ) } ); } },
      { "write records",
        []( const std::string &n ) { return whole( n, open( n, "w" ), { writeVector( n, "v", { 120, 2 }, LONG, 7, false ) } ); } },
      { "read records",
        [cols]( const std::string &n ) {
           return whole( n, openAs( n, "library", e57::CHECKSUM_POLICY_ALL ), { readVector( n, "v", cols, { 100, 200 } ) } );
        } },
      { "read blob",
        []( const std::string &n ) {
           return whole( n, openAs( n, "library", e57::CHECKSUM_POLICY_NONE ),
                         { readBlob( n, "b", m::pattern( 2500, 3 ), { { 1000, 1500 }, { 0, 1030 } } ) } );
        } },
      { "Writer points", []( const std::string &n ) { return simpleWrite( n, true ); } },
      { "Writer image", []( const std::string &n ) { return simpleWrite( n, false ); } },
   };
   const auto prepare = []( World &w ) { writeLibrary( w, "library" ); };
   const auto checkFiles = []( World &w ) {
      for ( auto &c : w.content )
         expect( w, c.first );
   };
   for ( size_t a = 0; a < files.size(); ++a )
      for ( size_t b = a; b < files.size(); ++b )
      {
         run(
            r, "files " + files[a].first + "+" + files[b].first,
            [&] {
               return std::vector<Script>{ files[a].second( "x" ), files[b].second( "y" ) };
            },
            prepare, checkFiles );
      }
   const std::vector<std::vector<size_t>> three = r.thorough ? std::vector<std::vector<size_t>>{ { 0, 3, 5 }, { 2, 3, 5 }, { 0, 2, 5 }, { 3, 3, 2 } }
                                                            : std::vector<std::vector<size_t>>{ { 5, 2, 5 } };
   for ( auto &t : three )
      run(
         r, "files " + files[t[0]].first + "+" + files[t[1]].first + "+" + files[t[2]].first,
         [&] {
            return std::vector<Script>{ files[t[0]].second( "x" ), files[t[1]].second( "y" ), files[t[2]].second( "z" ) };
         },
         prepare, checkFiles );
}
