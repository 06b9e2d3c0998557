// P20: a refused call leaves everything as it was.
//
// Illegal calls of a catalogue are inserted at every position of a legal script, and everything that
// can be observed, the rest of the script and the file must be as without them. Writing and reading
// records fails at every record of every block, and the rest of the file must be right.
#include <xercesc/util/PlatformUtils.hpp>

#include "ref57.hpp"
#include "simple.hpp"
#include "vh.hpp"

using namespace vh;

namespace
{
   // ---- catalogue of illegal calls in a legal script ----
   struct Bufs
   {
      m::Buf i, s;
      std::vector<e57::SourceDestBuffer> list;
      Bufs( const e57::ImageFile &f, size_t n ) : i( e57::Int64, n ), s( e57::UString, n )
      {
         list.push_back( i.sdb( f, "i", false, false ) );
         list.push_back( s.sdb( f, "s", false, false ) );
      }
      void fill( int first )
      {
         for ( size_t k = 0; k < i.capacity; ++k )
            i.setInt( k, first + static_cast<int>( k ) ), s.setStr( k, std::to_string( first + static_cast<int>( k ) ) );
      }
   };
   template <class T> using P = std::unique_ptr<T>;
   struct W
   {
      e57::ImageFile f, other;
      e57::StructureNode root;
      P<e57::StructureNode> s;
      P<e57::VectorNode> h, t;
      P<e57::BlobNode> b, ub;
      P<e57::CompressedVectorNode> v;
      P<Bufs> wb, wb2, rb;
      P<e57::CompressedVectorWriter> cw;
      P<e57::CompressedVectorReader> cr;
      std::vector<uint8_t> bytes = m::pattern( 20 );
      std::string dir;
      bool closed = false;
      W( const std::string &d ) :
         f( d + "f.e57", "w" ), other( d + "other.e57", "w" ), root( f.root() ), dir( d )
      {
      }
   };
   using Step = std::function<void( W & )>;
   std::vector<Step> script()
   {
      return {
         []( W &w ) { w.f.extensionsAdd( "x", "http://x/" ); },
         []( W &w ) {
            w.s.reset( new e57::StructureNode( w.f ) );
            w.root.set( "s", *w.s );
            w.s->set( "i", e57::IntegerNode( w.f, 5, 0, 10 ) );
         },
         []( W &w ) {
            w.h.reset( new e57::VectorNode( w.f, false ) );
            w.root.set( "h", *w.h );
            w.h->append( e57::IntegerNode( w.f, 1 ) );
         },
         []( W &w ) {
            w.t.reset( new e57::VectorNode( w.f, true ) );
            w.root.set( "t", *w.t );
            w.t->append( e57::StringNode( w.f, "first" ) );
         },
         []( W &w ) {
            w.b.reset( new e57::BlobNode( w.f, 20 ) );
            w.root.set( "b", *w.b );
            w.b->write( w.bytes.data(), 0, 10 );
            w.ub.reset( new e57::BlobNode( w.f, 30 ) );
         },
         []( W &w ) {
            w.b->write( w.bytes.data() + 10, 10, 10 );
            w.root.set( "ub", *w.ub );
         },
         []( W &w ) {
            w.v.reset( new e57::CompressedVectorNode(
               m::create( w.f, m::cv( "", m::structure( "", { m::integer( "i", 0, 0, 100 ), m::str( "s" ) } ) ) ) ) );
            w.root.set( "v", *w.v );
         },
         []( W &w ) {
            w.wb.reset( new Bufs( w.f, 5 ) );
            w.wb->fill( 1 );
            w.cw.reset( new e57::CompressedVectorWriter( w.v->writer( w.wb->list ) ) );
         },
         []( W &w ) { w.cw->write( 3 ); },
         []( W &w ) {
            w.wb2.reset( new Bufs( w.f, 4 ) );
            w.wb2->fill( 60 );
            w.cw->write( w.wb2->list, 2 );
         },
         []( W &w ) { w.cw->write( 4 ); },
         []( W &w ) { w.cw->close(); },
         []( W &w ) {
            w.rb.reset( new Bufs( w.f, 4 ) );
            w.cr.reset( new e57::CompressedVectorReader( w.v->reader( w.rb->list ) ) );
            CHECK( w.cr->read() == 4 && w.rb->i.getInt( 3 ) == 60 && w.rb->s.strs[2] == "3", "the first records" );
         },
         []( W &w ) {
            CHECK( w.cr->read() == 4, "the next records" );
            for ( int k = 0; k < 4; ++k )
            {
               const int want = k == 0 ? 61 : 59 + k;
               CHECK( w.rb->i.getInt( k ) == want && w.rb->s.strs[k] == std::to_string( want ), "record %d is %lld", k + 4,
                      (long long)w.rb->i.getInt( k ) );
            }
         },
         []( W &w ) {
            CHECK( w.cr->read() == 1 && w.rb->i.getInt( 0 ) == 63, "the last record" );
            CHECK( w.cr->read() == 0, "records after the last" );
            w.cr->close();
         },
         []( W &w ) { w.root.set( "x:last", e57::FloatNode( w.f, 0.5 ) ); },
         []( W &w ) {
            w.f.close();
            w.closed = true;
         },
      };
   }
   std::string observation( W &w )
   {
      std::string o;
      if ( w.closed )
         return std::string( w.f.isOpen() ? "open" : "closed" ) + ( w.cw->isOpen() ? " writer" : "" ) + ( w.cr->isOpen() ? " reader" : "" );
      o = m::show( m::observe( w.root, false ) );
      for ( size_t k = 0; k < w.f.extensionsCount(); ++k )
         o += "[" + w.f.extensionsPrefix( k ) + "=" + w.f.extensionsUri( k ) + "]";
      o += fmt( "writers %d readers %d open %d", w.f.writerCount(), w.f.readerCount(), w.f.isOpen() );
      if ( w.b )
      {
         std::vector<uint8_t> got( 20 );
         w.b->read( got.data(), 0, 20 );
         o += std::string( got.begin(), got.end() );
      }
      if ( w.ub )
         o += fmt( " ub %d %s", w.ub->isAttached(), w.ub->pathName().c_str() );
      if ( w.cw )
         o += fmt( " cw %d", w.cw->isOpen() );
      if ( w.cr )
         o += fmt( " cr %d", w.cr->isOpen() );
      o += fmt( " other %d %d", (int)w.other.root().childCount(), (int)w.other.extensionsCount() );
      return o;
   }
   // A node that was not accepted can still be used elsewhere
   void stillFree( const e57::ImageFile &f, const e57::Node &n )
   {
      CHECK( n.isRoot() && !n.isAttached() && n.pathName() == "/", "a refused element has path %s", n.pathName().c_str() );
      e57::StructureNode place( f );
      place.set( "place", n );
      CHECK( place.childCount() == 1 && n.pathName() == "/place", "a refused element can not be used again" );
   }

   struct Illegal
   {
      std::string name;
      std::function<std::string( W & )> call; // gives the result, "n/a" when the call would be legal
   };
   std::vector<Illegal> catalogue()
   {
      std::vector<Illegal> all;
      const auto add = [&]( const std::string &name, std::function<std::string( W & )> call ) { all.push_back( { name, call } ); };
      const auto tree = [&]( const std::string &name, std::function<bool( W & )> when, std::function<e57::Node( W & )> make,
                             std::function<void( W &, e57::Node & )> call ) {
         add( name, [=]( W &w ) {
            if ( !w.closed && !when( w ) )
               return std::string( "n/a" );
            e57::Node n = make( w );
            const auto got = m::attempt( [&] { call( w, n ); } );
            if ( !w.closed )
               stillFree( w.f, n );
            return got;
         } );
      };
      const auto always = []( W & ) { return true; };
      const auto integer = []( W &w ) { return e57::Node( e57::IntegerNode( w.f, 1 ) ); };
      const auto text = []( W &w ) { return e57::Node( e57::StringNode( w.f, "t" ) ); };
      const auto structure = []( W &w ) {
         e57::StructureNode s( w.f );
         s.set( "k", e57::IntegerNode( w.f, 1 ) );
         return e57::Node( s );
      };
      const auto foreign = []( W &w ) { return e57::Node( e57::IntegerNode( w.other, 1 ) ); };

      // children
      for ( const char *path : { "", "/", "a b", "a//b", "9x", "q:x", "no/way", "no/such/way" } )
         for ( int kind = 0; kind < 2; ++kind )
            tree( fmt( "set '%s' %d", path, kind ), always, kind ? std::function<e57::Node( W & )>( structure ) : integer,
                  [=]( W &w, e57::Node &n ) { w.root.set( path, n ); } );
      for ( const char *path : { "s", "s/i", "s/i/k", "/s", "s//i" } )
         tree( fmt( "set '%s' in s", path ), []( W &w ) { return !!w.s; }, structure,
               [=]( W &w, e57::Node &n ) { w.root.set( path, n ); } );
      for ( const char *path : { "h/0", "h/7", "h/-1", "h/x", "h/0/k" } )
         tree( fmt( "set '%s' in h", path ), []( W &w ) { return !!w.h; }, integer,
               [=]( W &w, e57::Node &n ) { w.root.set( path, n ); } );
      tree( "set 'h/1' string", []( W &w ) { return !!w.h; }, text, []( W &w, e57::Node &n ) { w.root.set( "h/1", n ); } );
      tree( "append string to h", []( W &w ) { return !!w.h; }, text, []( W &w, e57::Node &n ) { w.h->append( n ); } );
      tree( "append structure to h", []( W &w ) { return !!w.h; }, structure, []( W &w, e57::Node &n ) { w.h->append( n ); } );
      for ( const char *path : { "b/k", "v/0", "v/k", "v/prototype" } )
         tree( fmt( "set '%s'", path ), [=]( W &w ) { return *path == 'b' ? !!w.b : !!w.v; }, integer,
               [=]( W &w, e57::Node &n ) { w.root.set( path, n ); } );
      add( "set attached", []( W &w ) {
         return w.s ? m::attempt( [&] { w.root.set( "new", *w.s ); } ) : "n/a";
      } );
      add( "append attached", []( W &w ) {
         return w.t ? m::attempt( [&] { w.t->append( *w.h ); } ) : "n/a";
      } );
      add( "append its own child", []( W &w ) {
         return w.t ? m::attempt( [&] { w.t->append( w.t->get( 0 ) ); } ) : "n/a";
      } );
      add( "set root below root", []( W &w ) { return m::attempt( [&] { w.root.set( "new", w.root ); } ); } );
      add( "set above itself", []( W &w ) {
         e57::StructureNode top( w.f ), low( w.f );
         top.set( "low", low );
         const auto got = m::attempt( [&] { low.set( "top", top ); } );
         CHECK( top.isRoot() && low.childCount() == 0 && top.childCount() == 1 && low.pathName() == "/low", "the ring" );
         stillFree( w.f, top );
         return got;
      } );
      add( "set foreign", [=]( W &w ) {
         e57::Node n = foreign( w );
         const auto got = m::attempt( [&] { w.root.set( "new", n ); } );
         stillFree( w.other, n );
         return got;
      } );
      add( "append foreign", [=]( W &w ) {
         if ( !w.t )
            return std::string( "n/a" );
         e57::Node n = foreign( w );
         const auto got = m::attempt( [&] { w.t->append( n ); } );
         stillFree( w.other, n );
         return got;
      } );
      // access
      for ( const char *path : { "", "nothing", "a//b", "a b", "q:x", "s/nothing", "h/9", "h/-1", "b/k" } )
         add( fmt( "get '%s'", path ), [=]( W &w ) { return m::attempt( [&] { w.root.get( path ); } ); } );
      for ( int64_t k : { int64_t( -1 ), int64_t( 99 ), INT64_MIN, INT64_MAX } )
      {
         add( fmt( "get %lld", (long long)k ), [=]( W &w ) { return m::attempt( [&] { w.root.get( k ); } ); } );
         add( fmt( "get %lld of t", (long long)k ), [=]( W &w ) { return w.t ? m::attempt( [&] { w.t->get( k ); } ) : "n/a"; } );
         add( fmt( "extension %lld", (long long)k ), [=]( W &w ) {
            return m::attempt( [&] { w.f.extensionsPrefix( static_cast<size_t>( k ) ); } );
         } );
      }
      add( "downcasts", []( W &w ) {
         if ( w.closed )
            return std::string( "45" );
         if ( !w.v )
            return std::string( "n/a" );
         const e57::Node r( w.root ), i( w.s->get( "i" ) ), b( *w.b ), v( *w.v ), h( *w.h );
         for ( const auto &got : { m::attempt( [&] { e57::IntegerNode x( r ); } ), m::attempt( [&] { e57::ScaledIntegerNode x( i ); } ),
                                   m::attempt( [&] { e57::FloatNode x( i ); } ), m::attempt( [&] { e57::StringNode x( i ); } ),
                                   m::attempt( [&] { e57::BlobNode x( v ); } ), m::attempt( [&] { e57::CompressedVectorNode x( b ); } ),
                                   m::attempt( [&] { e57::VectorNode x( r ); } ), m::attempt( [&] { e57::StructureNode x( h ); } ) } )
            if ( got != "39" )
               return "downcast " + got;
         return std::string( "39" );
      } );
      // construction
      add( "integer", []( W &w ) { return m::attempt( [&] { e57::IntegerNode( w.f, 5, 0, 3 ); } ); } );
      add( "scaled", []( W &w ) { return m::attempt( [&] { e57::ScaledIntegerNode( w.f, 5, 0, 3, 1.0, 0.0 ); } ); } );
      add( "scaled raw", []( W &w ) { return m::attempt( [&] { e57::ScaledIntegerNode( w.f, 1e300, -1.0, 1e301, 1.0, 0.0 ); } ); } );
      add( "float", []( W &w ) { return m::attempt( [&] { e57::FloatNode( w.f, 2.0, e57::PrecisionDouble, 0.0, 1.0 ); } ); } );
      add( "float single", []( W &w ) { return m::attempt( [&] { e57::FloatNode( w.f, 1e300, e57::PrecisionSingle ); } ); } );
      add( "string", []( W &w ) { return m::attempt( [&] { e57::StringNode( w.f, "a\x01" ); } ); } );
      add( "blob -1", []( W &w ) { return m::attempt( [&] { e57::BlobNode( w.f, -1 ); } ); } );
      add( "blob below records", []( W &w ) {
         return w.cw && w.cw->isOpen() ? m::attempt( [&] { e57::BlobNode( w.f, 100 ); } ) : w.closed ? "45" : "n/a";
      } );
      add( "vector of attached prototype", []( W &w ) {
         return w.s ? m::attempt( [&] { e57::CompressedVectorNode( w.f, *w.s, e57::VectorNode( w.f, true ) ); } ) : "n/a";
      } );
      add( "vector of foreign prototype", []( W &w ) {
         e57::StructureNode proto( w.other );
         proto.set( "i", e57::IntegerNode( w.other, 0, 0, 1 ) );
         e57::VectorNode codecs( w.f, true );
         const auto got = m::attempt( [&] { e57::CompressedVectorNode( w.f, proto, codecs ); } );
         stillFree( w.other, proto );
         if ( !w.closed )
            stillFree( w.f, codecs );
         return got;
      } );
      add( "vector of attached codecs", []( W &w ) {
         if ( !w.t )
            return std::string( "n/a" );
         e57::StructureNode proto( w.f );
         proto.set( "i", e57::IntegerNode( w.f, 0, 0, 1 ) );
         const auto got = m::attempt( [&] { e57::CompressedVectorNode( w.f, proto, *w.t ); } );
         stillFree( w.f, proto );
         return got;
      } );
      add( "vector of a vector", []( W &w ) {
         e57::Node inner = m::create( w.f, m::cv( "", m::structure( "", { m::integer( "i", 0, 0, 1 ) } ) ) );
         e57::StructureNode proto( w.f );
         proto.set( "v", inner );
         e57::VectorNode codecs( w.f, true );
         const auto got = m::attempt( [&] { e57::CompressedVectorNode( w.f, proto, codecs ); } );
         stillFree( w.f, proto );
         stillFree( w.f, codecs );
         return got;
      } );
      // extensions
      const auto ext = [&]( const std::string &prefix, const std::string &uri, bool needsX ) {
         add( "extension " + prefix + "=" + uri, [=]( W &w ) {
            return w.closed || !needsX || w.f.extensionsCount() ? m::attempt( [&] { w.f.extensionsAdd( prefix, uri ); } ) : "n/a";
         } );
      };
      ext( "x", "http://y/", true );
      ext( "y", "http://x/", true );
      ext( "x", "http://x/", true );
      ext( "y y", "http://y/", false );
      ext( "y", "http://y/\x02", false );
      ext( "xmlns", "http://y/", false );
      // blobs
      for ( auto range : std::vector<std::pair<int64_t, size_t>>{
               { -1, 1 }, { -1, 5 }, { 0, 21 }, { 20, 1 }, { 21, 0 }, { 19, 2 }, { INT64_MAX, 1 }, { INT64_MIN, 20 }, { 1, SIZE_MAX } } )
      {
         add( fmt( "blob read %lld+%zu", (long long)range.first, range.second ), [=]( W &w ) {
            std::vector<uint8_t> got( 64, 0xEE );
            const auto result = w.b ? m::attempt( [&] { w.b->read( got.data(), range.first, range.second ); } ) : std::string( "n/a" );
            CHECK( got == std::vector<uint8_t>( 64, 0xEE ), "a refused read changes the buffer" );
            return result;
         } );
         add( fmt( "blob write %lld+%zu", (long long)range.first, range.second ), [=]( W &w ) {
            std::vector<uint8_t> bytes( 64, 0xEE );
            return w.b ? m::attempt( [&] { w.b->write( bytes.data(), range.first, range.second ); } ) : "n/a";
         } );
      }
      add( "write unattached blob", []( W &w ) {
         return w.closed ? "45" : w.ub && !w.ub->isAttached() ? m::attempt( [&] { w.ub->write( w.bytes.data(), 0, 10 ); } ) : "n/a";
      } );
      // buffers that do not fit, for creating and for continuing
      const std::vector<std::pair<std::string, std::function<void( W &, Bufs &, std::vector<m::Buf> & )>>> wrong = {
         { "none", []( W &, Bufs &b, std::vector<m::Buf> & ) { b.list.clear(); } },
         { "missing", []( W &, Bufs &b, std::vector<m::Buf> & ) { b.list.pop_back(); } },
         { "twice", []( W &, Bufs &b, std::vector<m::Buf> & ) { b.list.push_back( b.list[0] ); } },
         { "twice instead", []( W &, Bufs &b, std::vector<m::Buf> & ) { b.list[1] = b.list[0]; } },
         { "unknown",
           []( W &w, Bufs &b, std::vector<m::Buf> &more ) { b.list.push_back( more[0].sdb( w.f, "u", false, false ) ); } },
         { "unknown instead",
           []( W &w, Bufs &b, std::vector<m::Buf> &more ) { b.list[0] = more[0].sdb( w.f, "u", false, false ); } },
         { "size", []( W &w, Bufs &b, std::vector<m::Buf> &more ) { b.list[0] = more[1].sdb( w.f, "i", false, false ); } },
      };
      const std::vector<std::pair<std::string, std::function<void( W &, Bufs &, std::vector<m::Buf> & )>>> incompatible = {
         { "type", []( W &w, Bufs &b, std::vector<m::Buf> &more ) { b.list[0] = more[2].sdb( w.f, "i", false, false ); } },
         { "conversion", []( W &w, Bufs &b, std::vector<m::Buf> &more ) { b.list[0] = more[0].sdb( w.f, "i", true, false ); } },
         { "order", []( W &, Bufs &b, std::vector<m::Buf> & ) { std::swap( b.list[0], b.list[1] ); } },
      };
      const auto buffers = []( std::function<void( W &, Bufs &, std::vector<m::Buf> & )> change,
                               std::function<std::string( W &, std::vector<e57::SourceDestBuffer> & )> call ) {
         return [=]( W &w ) {
            if ( w.closed )
               return std::string( "45" );
            Bufs b( w.f, 4 );
            b.fill( 90 );
            std::vector<m::Buf> more;
            more.emplace_back( e57::Int64, 4 );
            more.emplace_back( e57::Int64, 3 );
            more.emplace_back( e57::Int32, 4 );
            change( w, b, more );
            return call( w, b.list );
         };
      };
      for ( auto &x : wrong )
      {
         add( "writer buffers " + x.first, buffers( x.second, []( W &w, std::vector<e57::SourceDestBuffer> &list ) {
                 return w.v ? m::attempt( [&] { w.v->writer( list ); } ) : "n/a";
              } ) );
         // reading part of the fields is allowed
         if ( x.first != "missing" )
            add( "reader buffers " + x.first, buffers( x.second, []( W &w, std::vector<e57::SourceDestBuffer> &list ) {
                    return w.v ? m::attempt( [&] { w.v->reader( list ); } ) : "n/a";
                 } ) );
      }
      for ( int part = 0; part < 2; ++part )
         for ( auto &x : part ? incompatible : wrong )
         {
            add( "write buffers " + x.first, buffers( x.second, []( W &w, std::vector<e57::SourceDestBuffer> &list ) {
                    return w.cw ? m::attempt( [&] { w.cw->write( list, 1 ); } ) : "n/a";
                 } ) );
            add( "read buffers " + x.first, buffers( x.second, []( W &w, std::vector<e57::SourceDestBuffer> &list ) {
                    return w.cr ? m::attempt( [&] { w.cr->read( list ); } ) : "n/a";
                 } ) );
         }
      const auto same = []( W &, Bufs &, std::vector<m::Buf> & ) {};
      add( "write too many from new buffers", buffers( same, []( W &w, std::vector<e57::SourceDestBuffer> &list ) {
              return w.cw ? m::attempt( [&] { w.cw->write( list, 5 ); } ) : "n/a";
           } ) );
      add( "writer while busy", buffers( same, []( W &w, std::vector<e57::SourceDestBuffer> &list ) {
              return w.f.writerCount() + w.f.readerCount() || w.cw ? m::attempt( [&] { w.v->writer( list ); } ) : "n/a";
           } ) );
      add( "reader while busy", buffers( same, []( W &w, std::vector<e57::SourceDestBuffer> &list ) {
              return w.f.writerCount() + w.f.readerCount() ? m::attempt( [&] { w.v->reader( list ); } ) : "n/a";
           } ) );
      add( "writer unattached", buffers( same, []( W &w, std::vector<e57::SourceDestBuffer> &list ) {
              e57::CompressedVectorNode v(
                 m::create( w.f, m::cv( "", m::structure( "", { m::integer( "i", 0, 0, 100 ), m::str( "s" ) } ) ) ) );
              return m::attempt( [&] { v.writer( list ); } );
           } ) );
      add( "reader unattached", buffers( same, []( W &w, std::vector<e57::SourceDestBuffer> &list ) {
              e57::CompressedVectorNode v(
                 m::create( w.f, m::cv( "", m::structure( "", { m::integer( "i", 0, 0, 100 ), m::str( "s" ) } ) ) ) );
              return m::attempt( [&] { v.reader( list ); } );
           } ) );
      add( "write too many", []( W &w ) { return w.cw ? m::attempt( [&] { w.cw->write( 6 ); } ) : "n/a"; } );
      add( "write far too many", []( W &w ) { return w.cw ? m::attempt( [&] { w.cw->write( SIZE_MAX ); } ) : "n/a"; } );
      add( "write to closed", []( W &w ) {
         return w.cw && !w.cw->isOpen() ? m::attempt( [&] { w.cw->write( 1 ); } ) : "n/a";
      } );
      add( "read from closed", []( W &w ) { return w.cr && !w.cr->isOpen() ? m::attempt( [&] { w.cr->read(); } ) : "n/a"; } );
      add( "seek", []( W &w ) { return w.cr ? m::attempt( [&] { w.cr->seek( 0 ); } ) : "n/a"; } );
      // buffer descriptions
      add( "buffer null", []( W &w ) {
         return m::attempt( [&] { e57::SourceDestBuffer( w.f, "i", static_cast<int64_t *>( nullptr ), 1 ); } );
      } );
      add( "buffer path", []( W &w ) {
         int64_t v = 0;
         return m::attempt( [&] { e57::SourceDestBuffer( w.f, "a//b", &v, 1 ); } );
      } );
      // other files
      add( "missing file", []( W &w ) { return m::attempt( [&] { e57::ImageFile( w.dir + "missing.e57", "r" ); } ); } );
      add( "mode", []( W &w ) { return m::attempt( [&] { e57::ImageFile( w.dir + "missing.e57", "a" ); } ); } );
      add( "no directory", []( W &w ) { return m::attempt( [&] { e57::ImageFile( w.dir + "none/f.e57", "w" ); } ); } );
      add( "no file", []( W &w ) { return m::attempt( [&] { e57::ImageFile( w.dir + "garbage.e57", "r" ); } ); } );
      return all;
   }

   // Runs the script with the given calls at the given positions, gives the bytes of the file
   using Insert = std::pair<size_t, const Illegal *>;
   std::vector<char> play( Run &r, const std::vector<Insert> &inserts )
   {
      const auto steps = script();
      const std::string dir = r.path( "" );
      if ( !m::exists( dir + "garbage.e57" ) )
         m::spit( dir + "garbage.e57", std::vector<char>( 3000, 'g' ) );
      std::vector<char> bytes;
      {
         W w( dir );
         size_t moves = 0;
         for ( size_t at = 0; at <= steps.size(); ++at )
         {
            for ( auto &i : inserts )
               if ( i.first == at )
               {
                  const auto before = observation( w );
                  const auto got = m::attempt( [&] {
                     const auto result = i.second->call( w );
                     CHECK( ( result != "ok" && isdigit( result[0] ) ) || result == "n/a", "%s is not refused: %s",
                            i.second->name.c_str(), result.c_str() );
                     r.count( result == "n/a" ? "not applicable" : "refused calls" );
                  } );
                  CHECK( got != "11", "%s gives an internal error where it need not", i.second->name.c_str() );
                  const auto after = observation( w );
                  CHECK( before == after, "%s at %zu changes something:\n%s\n%s", i.second->name.c_str(), at, before.c_str(),
                         after.c_str() );
                  ++moves;
               }
            if ( at < steps.size() )
            {
               steps[at]( w );
               ++moves;
            }
         }
         r.transitions( moves );
         bytes = m::slurp( dir + "f.e57" );
         CHECK( !m::exists( dir + "missing.e57" ), "a refused call creates a file" );
         w.other.cancel();
      }
      CHECK( m::slurp( dir + "f.e57" ) == bytes, "the file changes after it is closed" );
      return bytes;
   }
   void scripts( Run &r )
   {
      const auto all = catalogue();
      const size_t positions = script().size() + 1;
      std::vector<char> want;
      const auto one = [&]( const std::string &key, const std::vector<Insert> &inserts ) {
         r.test( [&] { return key; },
                 [&] {
                    if ( want.empty() )
                       want = play( r, {} );
                    const auto got = play( r, inserts );
                    CHECK( got == want, "the file differs from that without the refused calls" );
                    for ( auto &i : inserts )
                       r.state( fmt( "%zu %s", i.first, i.second->name.c_str() ) );
                    r.outcome( inserts.empty() ? "nothing" : inserts[0].second->name );
                 } );
      };
      for ( size_t at = 0; at < positions; ++at )
      {
         for ( auto &i : all )
            one( fmt( "call at %zu: ", at ) + i.name, { { at, &i } } );
         // all of them one after the other
         std::vector<Insert> inserts;
         for ( auto &i : all )
            inserts.push_back( { at, &i } );
         one( fmt( "all calls at %zu", at ), inserts );
         std::reverse( inserts.begin(), inserts.end() );
         one( fmt( "all calls in reverse at %zu", at ), inserts );
         // pairs: each call before each other
         for ( auto &i : all )
         {
            if ( r.thorough )
            {
               for ( auto &j : all )
                  one( fmt( "calls at %zu: ", at ) + i.name + " and " + j.name, { { at, &i }, { at, &j } } );
               continue;
            }
            // quick: all others before it and after it
            std::vector<Insert> around;
            for ( auto &j : all )
            {
               around.push_back( { at, &i } );
               around.push_back( { at, &j } );
            }
            one( fmt( "calls at %zu: ", at ) + i.name + " between all", around );
         }
      }
      for ( auto &i : all )
      {
         std::vector<Insert> everywhere;
         for ( size_t at = 0; at < positions; ++at )
            everywhere.push_back( { at, &i } );
         one( "everywhere " + i.name, everywhere );
         if ( r.thorough )
            for ( size_t a = 0; a < positions; ++a )
               for ( size_t b = a + 1; b < positions; ++b )
                  one( fmt( "calls at %zu and %zu: ", a, b ) + i.name, { { a, &i }, { b, &i } } );
      }
   }

   // ---- records that can not be written ----
   struct Field
   {
      const char *name;
      m::N node;
      e57::MemoryRepresentation rep;
      double good, bad;
   };
   const std::vector<Field> &fieldList()
   {
      static const std::vector<Field> all = {
         { "integer bounds", m::integer( "f", 0, 0, 100 ), e57::Int64, 7, 101 },
         { "integer nan", m::integer( "f" ), e57::Real64, 7, NAN },
         { "scaled bounds", m::scaled( "f", 0, -5, 5, 0.5, 0 ), e57::Real64, 2.5, 3 },
         { "scaled huge", m::scaled( "f", 0, INT64_MIN, INT64_MAX, 0.5, 0 ), e57::Real64, 2.5, 1e300 },
         { "single", m::real( "f", 0, true ), e57::Real64, 0.5, 1e300 },
         { "constant", m::integer( "f", 3, 3, 3 ), e57::Int32, 3, 4 },
      };
      return all;
   }
   enum After
   {
      CloseWriter,
      DropWriter,
      WriteMore,
      CloseFile,
      Retry,
      Afters
   };
   const char *afterName[] = { "close", "drop", "write more", "close file", "retry" };
   void failedWrite( Run &r, const Field &field, bool first, const std::vector<size_t> &blocks, size_t text, size_t failing, After after )
   {
      const std::string path = r.path( "f.e57" );
      size_t most = 0, total = 0;
      for ( size_t b : blocks )
         most = std::max( most, b ), total += b;

      // what the fields of the records are
      std::vector<m::N> kids = { m::integer( "before", 0, 0, 1000 ), m::str( "text" ) };
      kids.insert( first ? kids.begin() : kids.end(), field.node );
      m::N vector = m::cv( "v", m::structure( "", kids ) );
      const m::N other = m::cv( "u", m::structure( "", { m::integer( "i", 0, 0, 9 ) } ),
                                { [] {
                                   m::Col c;
                                   c.path = "i";
                                   c.i = { 1, 2, 3 };
                                   return c;
                                }() } );
      m::N later = other;
      later.name = "w";
      const m::N before = m::blob( "b", m::pattern( 1500, 1 ) ), behind = m::blob( "c", m::pattern( 1100, 2 ) );

      std::vector<size_t> written; // records of the calls that succeeded
      {
         e57::ImageFile f( path, "w" );
         m::writeDoc( f, m::structure( "", { before, other } ) );
         e57::CompressedVectorNode v( m::create( f, vector ) );
         f.root().set( "v", v );
         m::Buf num( field.rep, most ), index( e57::Int32, most ), strings( e57::UString, most );
         std::vector<e57::SourceDestBuffer> list = { num.sdb( f, "f", true, field.node.type == m::T::Scaled ), index.sdb( f, "before", true, false ),
                                                     strings.sdb( f, "text", false, false ) };
         const auto fill = [&]( size_t from, size_t n, bool bad ) {
            for ( size_t k = 0; k < n; ++k )
            {
               const double x = bad && from + k == failing ? field.bad : field.good;
               if ( num.isReal() )
                  num.setReal( k, x );
               else
                  num.setInt( k, static_cast<int64_t>( x ) );
               index.setInt( k, static_cast<int64_t>( ( from + k ) % 1000 ) );
               strings.setStr( k, std::string( text, static_cast<char>( 'a' + ( from + k ) % 26 ) ) );
            }
         };
         const auto note = [&]( size_t from, size_t n ) {
            for ( size_t k = 0; k < n; ++k )
               written.push_back( from + k );
         };
         P<e57::CompressedVectorWriter> cw( new e57::CompressedVectorWriter( v.writer( list ) ) );
         bool failed = false;
         size_t at = 0;
         for ( size_t n : blocks )
         {
            fill( at, n, true );
            const auto got = m::attempt( [&] { cw->write( n ); } );
            const bool has = failing >= at && failing < at + n;
            CHECK( ( got != "ok" && got != "11" ) == has, "writing a block: %s", got.c_str() );
            if ( got != "ok" )
            {
               failed = true;
               break;
            }
            note( at, n );
            at += n;
         }
         CHECK( failed, "no write failed" );
         bool open = true;
         switch ( after )
         {
            case CloseWriter:
               cw->close();
               break;
            case DropWriter:
               cw.reset();
               break;
            case WriteMore:
               // either refused or it counts
               fill( 500, 1, false );
               if ( m::attempt( [&] { cw->write( 1 ); } ) == "ok" )
                  note( 500, 1 );
               cw->close();
               break;
            case CloseFile:
               m::writeDoc( f, m::structure( "", { m::integer( "i", 1 ) } ) );
               f.close();
               open = false;
               break;
            case Retry:
               cw->close();
               CHECK( f.writerCount() == 0, "%d writers are open", f.writerCount() );
               {
                  // the vector may be written again when it has no records
                  std::string got = m::attempt( [&] { cw.reset( new e57::CompressedVectorWriter( v.writer( list ) ) ); } );
                  if ( got == "ok" )
                  {
                     written.clear();
                     fill( 0, most, false );
                     cw->write( most );
                     note( 0, most );
                     cw->close();
                  }
                  else
                     CHECK( got == "4" && v.childCount() > 0, "writing the records again: %s", got.c_str() );
               }
               break;
            default:
               break;
         }
         if ( open )
         {
            CHECK( f.writerCount() == 0 && f.isOpen(), "%d writers are open", f.writerCount() );
            // the file is still usable
            m::writeDoc( f, m::structure( "", { behind, later, m::integer( "i", 1 ) } ) );
            f.close();
         }
         cw.reset();
      }
      if ( !m::exists( path ) )
         fail( "the file is gone" );
      e57::ImageFile f( path, "r" );
      const auto got = m::observeFile( f );
      f.close();
      std::vector<m::N> wantKids = { before, other, vector };
      if ( after != CloseFile )
         wantKids.insert( wantKids.end(), { behind, later } );
      wantKids.push_back( m::integer( "i", 1 ) );
      CHECK( got.kids.size() == wantKids.size() && got.kids[2].type == m::T::CV, "the children of the root" );
      if ( got.kids[2].records != 0 )
      {
         const size_t n = written.size();
         CHECK( static_cast<size_t>( got.kids[2].records ) == n, "%lld records instead of %zu or none", (long long)got.kids[2].records, n );
         std::vector<m::Col> cols;
         for ( auto &k : kids )
         {
            m::Col c;
            c.path = k.name;
            c.type = k.type;
            c.single = k.single;
            for ( size_t x : written )
               if ( k.type == m::T::String )
                  c.s.push_back( std::string( text, static_cast<char>( 'a' + x % 26 ) ) );
               else if ( k.name == "before" )
                  c.i.push_back( static_cast<int64_t>( x % 1000 ) );
               else if ( k.type == m::T::Float )
                  c.d.push_back( field.good );
               else
                  c.i.push_back( k.type == m::T::Scaled ? 5 : static_cast<int64_t>( field.good ) );
            cols.push_back( c );
         }
         wantKids[2] = m::cv( "v", m::structure( "", kids ), cols );
      }
      const auto d = m::diff( m::structure( "", wantKids ), got );
      CHECK( d.empty(), "%s", d.c_str() );
      r.outcome( fmt( "%s %s %s", field.name, afterName[after], got.kids[2].records ? "kept" : "none" ) );
      r.transitions( blocks.size() );
   }
   void failedWrites( Run &r )
   {
      struct Shape
      {
         std::vector<size_t> blocks;
         size_t text;
         size_t step;
      };
      // short records in blocks around the 50 records of a step; long ones that fill packets
      std::vector<Shape> shapes = { { { 3, 4 }, 2, 1 }, { { 1, 49, 60 }, 2, 1 }, { { 100, 100 }, 700, r.thorough ? 1u : 7u } };
      for ( auto &s : shapes )
      {
         size_t total = 0;
         for ( size_t b : s.blocks )
            total += b;
         for ( auto &field : fieldList() )
            for ( int first = 0; first < 2; ++first )
               for ( int after = 0; after < Afters; ++after )
                  for ( size_t failing = 0; failing < total; failing += s.step )
                     r.test( [&] {
                        return fmt( "write %s %d blocks of %zu text %zu, record %zu, then %s", field.name, first, s.blocks.back(), s.text,
                                    failing, afterName[after] );
                     },
                             [&] { failedWrite( r, field, first, s.blocks, s.text, failing, static_cast<After>( after ) ); } );
      }
   }

   // ---- records that can not be read ----
   void failedReads( Run &r )
   {
      // the field "x" of record "failing" does not fit the buffer
      for ( size_t total : { 5, 120 } )
         for ( size_t block : { size_t( 1 ), size_t( 3 ), size_t( 64 ), total } )
            for ( int kind = 0; kind < 3; ++kind )
               for ( int again = 0; again < 3; ++again )
                  for ( size_t failing = 0; failing < total; ++failing )
                     r.test( [&] { return fmt( "read %zu by %zu kind %d, record %zu, then %d", total, block, kind, failing, again ); },
                             [&] {
                                m::Col x, s;
                                x.path = "x", s.path = "s", s.type = m::T::String;
                                x.type = kind == 1 ? m::T::Float : m::T::Integer;
                                for ( size_t k = 0; k < total; ++k )
                                {
                                   s.s.push_back( std::to_string( k ) );
                                   if ( kind == 1 )
                                      x.d.push_back( k == failing ? 1e300 : 0.5 );
                                   else
                                      x.i.push_back( k == failing ? 70000 : 7 );
                                }
                                const m::N vector = m::cv(
                                   "v", m::structure( "", { kind == 1 ? m::real( "x" ) : m::integer( "x", 0, 0, 100000 ), m::str( "s" ) } ),
                                   { x, s } );
                                const m::N doc = m::structure( "", { vector, m::blob( "b", m::pattern( 100 ) ) } );
                                const std::string path = r.path( "f.e57" );
                                {
                                   e57::ImageFile f( path, "w" );
                                   m::writeDoc( f, doc );
                                   f.close();
                                }
                                e57::ImageFile f( path, "r" );
                                e57::CompressedVectorNode v( f.root().get( "v" ) );
                                m::Buf bx( kind == 0 ? e57::Int16 : kind == 1 ? e57::Real32 : e57::UInt8, block ), bs( e57::UString, block );
                                std::vector<e57::SourceDestBuffer> list = { bx.sdb( f, "x", true, false ), bs.sdb( f, "s", false, false ) };
                                {
                                   e57::CompressedVectorReader cr = v.reader( list );
                                   std::string got;
                                   size_t at = 0;
                                   while ( ( got = m::attempt( [&] {
                                                const size_t n = cr.read();
                                                CHECK( n > 0 && failing >= at + n, "the value that does not fit is read" );
                                                for ( size_t k = 0; k < n; ++k )
                                                   CHECK( bs.strs[k] == std::to_string( at + k ), "string %zu", at + k );
                                                at += n;
                                             } ) ) == "ok" )
                                   {
                                   }
                                   CHECK( got == ( kind == 1 ? "8" : "6" ) || got == "6" || got == "8", "reading: error %s", got.c_str() );
                                   CHECK( failing < at + block, "a record before the value is not read" );
                                   if ( again == 0 )
                                      cr.close();
                                   else if ( again == 1 )
                                      m::attempt( [&] { cr.read(); } );
                                }
                                CHECK( f.readerCount() == 0, "%d readers are open", f.readerCount() );
                                const auto d = m::diff( doc, m::observeFile( f, true, block ) );
                                CHECK( d.empty(), "%s", d.c_str() );
                                f.close();
                                r.transitions( 3 );
                                r.outcome( fmt( "read %d", kind ) );
                             } );
   }

   // ---- Simple API ----
   e57::Data3D goodScan( int k )
   {
      e57::Data3D d;
      d.guid = fmt( "scan%d", k );
      d.pointCount = 3;
      d.pointFields.cartesianXField = d.pointFields.intensityField = true;
      d.intensityLimits.intensityMaximum = 100;
      d.pointFields.intensityNodeType = e57::NumericalNodeType::Integer;
      return d;
   }
   e57::Image2D goodImage( int k )
   {
      e57::Image2D i;
      i.guid = fmt( "image%d", k );
      i.visualReferenceRepresentation.imageWidth = i.visualReferenceRepresentation.imageHeight = 4;
      i.visualReferenceRepresentation.jpegImageSize = 50;
      return i;
   }
   struct SimpleCall
   {
      std::string name;
      std::function<std::string( e57::Writer & )> call; // "ok" when not refused
   };
   std::vector<SimpleCall> simpleCalls()
   {
      std::vector<SimpleCall> all;
      const auto scan = [&]( const std::string &name, std::function<void( e57::Data3D & )> change ) {
         all.push_back( { "scan " + name, [=]( e57::Writer &w ) {
                            e57::Data3D d = goodScan( 9 );
                            change( d );
                            return m::attempt( [&] { w.NewData3D( d ); } );
                         } } );
         all.push_back( { "scan data " + name, [=]( e57::Writer &w ) {
                            e57::Data3D d = goodScan( 9 );
                            change( d );
                            simple::Buffers<double> b( d.pointFields, 3 );
                            return m::attempt( [&] { w.WriteData3DData( d, b.b ); } );
                         } } );
      };
      const auto image = [&]( const std::string &name, std::function<void( e57::Image2D & )> change ) {
         all.push_back( { "image " + name, [=]( e57::Writer &w ) {
                            e57::Image2D i = goodImage( 9 );
                            change( i );
                            auto bytes = m::pattern( 50 );
                            return m::attempt(
                               [&] { w.WriteImage2DData( i, e57::ImageJPEG, e57::ProjectionVisual, 0, bytes.data(), 50 ); } );
                         } } );
      };
      using T = e57::NumericalNodeType;
      scan( "integer points", []( e57::Data3D &d ) { d.pointFields.pointRangeNodeType = T::Integer; } );
      scan( "integer angles", []( e57::Data3D &d ) {
         d.pointFields.sphericalAzimuthField = true;
         d.pointFields.angleNodeType = T::Integer;
      } );
      scan( "scale 0", []( e57::Data3D &d ) {
         d.pointFields.pointRangeNodeType = T::ScaledInteger;
         d.pointFields.pointRangeScale = 0;
      } );
      scan( "angle scale 0", []( e57::Data3D &d ) {
         d.pointFields.sphericalElevationField = true;
         d.pointFields.angleNodeType = T::ScaledInteger;
         d.pointFields.angleScale = 0;
      } );
      scan( "name", []( e57::Data3D &d ) { d.name = "\x01"; } );
      scan( "guid", []( e57::Data3D &d ) { d.guid = "\x02"; } );
      scan( "original guids", []( e57::Data3D &d ) {
         d.originalGuids = { "a", "\x03" };
      } );
      scan( "firmware", []( e57::Data3D &d ) { d.sensorFirmwareVersion = "\xff"; } );
      scan( "pose", []( e57::Data3D &d ) { d.pose.translation.x = INFINITY; } );
      scan( "range", []( e57::Data3D &d ) { d.pointFields.pointRangeMinimum = 5, d.pointFields.pointRangeMaximum = NAN; } );
      scan( "normals and name", []( e57::Data3D &d ) {
         d.pointFields.normalXField = true;
         d.name = "\x01";
      } );
      image( "name", []( e57::Image2D &i ) { i.name = "\x01"; } );
      image( "sensor", []( e57::Image2D &i ) { i.sensorModel = "\x01"; } );
      image( "pose", []( e57::Image2D &i ) { i.pose.rotation.w = NAN; } );
      const auto other = [&]( const std::string &name, std::function<bool( e57::Writer & )> done ) {
         all.push_back( { name, [=]( e57::Writer &w ) {
                            bool result = false;
                            const auto got = m::attempt( [&] { result = done( w ); } );
                            return got == "ok" && !result ? "returns" : got;
                         } } );
      };
      for ( int64_t k : { int64_t( -1 ), int64_t( 9 ), INT64_MIN } )
      {
         other( fmt( "groups of %lld", (long long)k ), [=]( e57::Writer &w ) {
            int64_t v[3] = {};
            return w.WriteData3DGroupsData( k, 1, v, v + 1, v + 2 );
         } );
         other( fmt( "points of %lld", (long long)k ), [=]( e57::Writer &w ) {
            simple::Buffers<float> b( goodScan( 0 ).pointFields, 3 );
            w.SetUpData3DPointsData( k, 3, b.b );
            return true;
         } );
      }
      other( "groups", [=]( e57::Writer &w ) {
         int64_t v[3] = {};
         return w.WriteData3DGroupsData( 0, 1, v, v + 1, v + 2 );
      } );
      other( "no buffers", [=]( e57::Writer &w ) {
         e57::Data3DPointsFloat b;
         w.SetUpData3DPointsData( 0, 3, b );
         return true;
      } );
      other( "one buffer", [=]( e57::Writer &w ) {
         e57::PointStandardizedFieldsAvailable one;
         one.cartesianXField = true;
         simple::Buffers<float> b( one, 3 );
         w.SetUpData3DPointsData( 0, 3, b.b );
         return true;
      } );
      return all;
   }
   m::N simplePlay( Run &r, const std::vector<std::pair<size_t, const SimpleCall *>> &calls )
   {
      const std::string path = r.path( "simple.e57" );
      {
         e57::WriterOptions options;
         options.guid = "file";
         e57::Writer w( path, options );
         const auto look = [&] {
            std::string o = m::show( m::observe( w.GetRawE57Root(), false ) );
            e57::ImageFile f = w.GetRawIMF();
            for ( size_t k = 0; k < f.extensionsCount(); ++k )
               o += f.extensionsPrefix( k ) + ";";
            return o + fmt( "%d %d", f.writerCount(), f.readerCount() );
         };
         for ( size_t at = 0; at < 6; ++at )
         {
            for ( auto &c : calls )
               if ( c.first == at )
               {
                  const auto before = look();
                  const auto got = c.second->call( w );
                  CHECK( got != "ok" && got != "11", "%s: %s", c.second->name.c_str(), got.c_str() );
                  const auto after = look();
                  CHECK( before == after, "%s changes something:\n%s\n%s", c.second->name.c_str(), before.c_str(), after.c_str() );
               }
            switch ( at )
            {
               case 0:
               case 2:
               {
                  e57::Data3D d = goodScan( static_cast<int>( at ) );
                  if ( at == 2 )
                     d.pointFields.normalXField = true;
                  const auto pos = w.NewData3D( d );
                  CHECK( pos == static_cast<int64_t>( at ) / 2, "the scan is number %lld", (long long)pos );
                  break;
               }
               case 1:
               {
                  auto bytes = m::pattern( 50 );
                  e57::Image2D i = goodImage( 1 );
                  CHECK( w.WriteImage2DData( i, e57::ImageJPEG, e57::ProjectionVisual, 0, bytes.data(), 50 ) == 50, "the image" );
                  break;
               }
               case 3:
               case 4:
               {
                  simple::Buffers<double> b( [&] {
                     auto f = goodScan( 0 ).pointFields;
                     f.normalXField = at == 4;
                     return f;
                  }(), 3 );
                  for ( size_t k = 0; k < 3; ++k )
                  {
                     b.set( 0, k, static_cast<double>( k ) );
                     b.set( 14, k, 10 * static_cast<double>( k ) );
                     if ( at == 4 )
                        b.set( 20, k, 0.5 );
                  }
                  auto cw = w.SetUpData3DPointsData( static_cast<int64_t>( at ) - 3, 3, b.b );
                  cw.write( 3 );
                  cw.close();
                  break;
               }
               default:
                  CHECK( w.Close(), "closing" );
            }
         }
      }
      e57::ImageFile f( path, "r" );
      auto got = m::observeFile( f );
      f.close();
      return got;
   }
   void simpleApi( Run &r )
   {
      const auto all = simpleCalls();
      m::N want;
      bool have = false;
      const auto one = [&]( const std::string &key, const std::vector<std::pair<size_t, const SimpleCall *>> &calls ) {
         r.test( [&] { return key; },
                 [&] {
                    if ( !have )
                       want = simplePlay( r, {} ), have = true;
                    const auto d = m::diff( want, simplePlay( r, calls ) );
                    CHECK( d.empty(), "%s", d.c_str() );
                    r.transitions( 6 + calls.size() );
                    for ( auto &c : calls )
                       r.state( fmt( "simple %zu %s", c.first, c.second->name.c_str() ) );
                    r.outcome( "simple" );
                 } );
      };
      // after the scans have their points the calls with points of scan 0 are refused as well
      for ( auto &c : all )
      {
         for ( size_t at = 0; at < 6; ++at )
            one( fmt( "simple at %zu: ", at ) + c.name, { { at, &c } } );
         for ( auto &d : all )
            for ( size_t at = 0; at < 6; ++at )
               if ( r.thorough || at == 3 )
                  one( fmt( "simple at %zu: ", at ) + c.name + " and " + d.name, { { at, &c }, { at, &d } } );
      }
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();
   scripts( r );
   failedWrites( r );
   failedReads( r );
   simpleApi( r );
}
