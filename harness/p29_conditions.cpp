// P29: a call succeeds exactly when its documented conditions hold, and its error names one that does not.
//
// Every function of the API is called with every class of arguments on every kind of object in every
// state of the file. The documented conditions of the call are evaluated on a plain description of the
// state: when all hold the call has to succeed, otherwise it has to fail with the error that is
// documented for one of those that do not.
#include <xercesc/util/PlatformUtils.hpp>

#include <cmath>
#include <memory>
#include <sstream>

#include "E57Version.h"
#include "model.hpp"
#include "simple.hpp"
#include "vh.hpp"

using namespace vh;

namespace
{
   using Codes = std::set<int>;
   template <class T> using P = std::unique_ptr<T>;

   enum Mode
   {
      Writing,
      Reading,
      ReadingMemory
   };
   enum Phase
   {
      Idle,
      WriterOpen,
      ReaderOpen,
      WriterDone,   // a writer object that was closed
      ReaderDone,   // a reader object that was closed
      Closed,       // the file was closed
      Cancelled,    // the file was cancelled
      ClosedReader, // the file was closed while a reader was open
      ClosedWriter, // the file was cancelled while a writer was open
   };
   const char *modeName[] = { "writing", "reading", "memory" };
   const char *phaseName[] = { "idle",   "writer open", "reader open",   "writer done", "reader done",
                               "closed", "cancelled",   "closed reader", "cancelled writer" };

   const size_t records = 3;

   struct Bufs
   {
      m::Buf a, b;
      std::vector<e57::SourceDestBuffer> list;
      Bufs( const e57::ImageFile &f, size_t n ) : a( e57::Int64, n ), b( e57::Real64, n )
      {
         for ( size_t k = 0; k < n; ++k )
            a.setInt( k, 5 ), b.setReal( k, 0.5 );
         list.push_back( a.sdb( f, "a", false, false ) );
         list.push_back( b.sdb( f, "b", false, false ) );
      }
   };

   struct Item
   {
      std::string name;
      e57::Node node;
      m::T type;
      bool attached, root; // root: has no parent
      bool closedWith = true;
   };

   // An open element tree with everything that a call can be made on
   struct World
   {
      Mode mode;
      Phase phase;
      bool open, writable, writer, reader;
      P<e57::ImageFile> f, other;
      std::vector<Item> items;
      P<e57::StructureNode> root, st, us, proto;
      P<e57::VectorNode> vh, vo;
      P<e57::BlobNode> blob, ublob;
      P<e57::CompressedVectorNode> full, empty, ucv;
      P<e57::Node> free, foreign, freeText, foreignTree;
      P<Bufs> wb, rb;
      P<e57::CompressedVectorWriter> cw;
      P<e57::CompressedVectorReader> cr;
      // buffers for calls, made while the file is open
      P<Bufs> call2, call4;
      P<m::Buf> extra, small;
      std::map<std::string, std::vector<e57::SourceDestBuffer>> lists;
      std::vector<char> image;

      void add( const std::string &name, const e57::Node &n, m::T t, bool attached, bool isRoot = false )
      {
         items.push_back( { name, n, t, attached, isRoot } );
      }
   };

   e57::CompressedVectorNode makeVector( const e57::ImageFile &f )
   {
      return e57::CompressedVectorNode(
         m::create( f, m::cv( "", m::structure( "", { m::integer( "a", 5, 0, 10 ), m::real( "b", 0 ) } ) ) ) );
   }
   // Writes the document that all calls are made on
   void fill( World &w, const e57::ImageFile &f )
   {
      e57::ImageFile file = f;
      file.extensionsAdd( "x", "http://x/" );
      e57::StructureNode root = file.root();
      root.set( "i", e57::IntegerNode( f, 5, 0, 10 ) );
      root.set( "s", e57::ScaledIntegerNode( f, 5, 0, 10, 0.5, 1.0 ) );
      root.set( "f", e57::FloatNode( f, 0.5 ) );
      root.set( "t", e57::StringNode( f, "text" ) );
      e57::BlobNode b( f, 8 );
      root.set( "b", b );
      auto bytes = m::pattern( 8 );
      b.write( bytes.data(), 0, 8 );
      e57::StructureNode st( f );
      root.set( "st", st );
      st.set( "k", e57::IntegerNode( f, 1 ) );
      st.set( "x:k", e57::IntegerNode( f, 2 ) );
      e57::VectorNode vh( f, true ), vo( f, false );
      root.set( "vh", vh );
      vh.append( e57::IntegerNode( f, 1 ) );
      vh.append( e57::StringNode( f, "e" ) );
      root.set( "vo", vo );
      vo.append( e57::IntegerNode( f, 1, 0, 10 ) );
      e57::CompressedVectorNode full = makeVector( f ), empty = makeVector( f );
      root.set( "full", full );
      root.set( "empty", empty );
      Bufs bufs( f, records );
      e57::CompressedVectorWriter cw = full.writer( bufs.list );
      cw.write( records );
      cw.close();
   }
   void build( World &w, const std::string &dir, Mode mode, Phase phase )
   {
      w.mode = mode;
      w.phase = phase;
      const std::string name = dir + "/f.e57";
      if ( mode == Writing )
      {
         w.f.reset( new e57::ImageFile( name, "w" ) );
         fill( w, *w.f );
      }
      else
      {
         {
            e57::ImageFile f( name, "w" );
            fill( w, f );
            f.close();
         }
         if ( mode == Reading )
            w.f.reset( new e57::ImageFile( name, "r" ) );
         else
         {
            w.image = m::slurp( name );
            w.f.reset( new e57::ImageFile( w.image.data(), w.image.size() ) );
         }
      }
      w.other.reset( new e57::ImageFile( dir + "/other.e57", "w" ) );
      const e57::ImageFile &f = *w.f;
      w.root.reset( new e57::StructureNode( f.root() ) );
      w.st.reset( new e57::StructureNode( w.root->get( "st" ) ) );
      w.vh.reset( new e57::VectorNode( w.root->get( "vh" ) ) );
      w.vo.reset( new e57::VectorNode( w.root->get( "vo" ) ) );
      w.blob.reset( new e57::BlobNode( w.root->get( "b" ) ) );
      w.full.reset( new e57::CompressedVectorNode( w.root->get( "full" ) ) );
      w.empty.reset( new e57::CompressedVectorNode( w.root->get( "empty" ) ) );
      w.proto.reset( new e57::StructureNode( w.full->prototype() ) );
      w.foreign.reset( new e57::Node( e57::IntegerNode( *w.other, 5, 0, 10 ) ) );
      {
         e57::StructureNode t( *w.other );
         t.set( "a", e57::IntegerNode( *w.other, 5, 0, 10 ) );
         w.foreignTree.reset( new e57::Node( t ) );
      }
      w.add( "root", *w.root, m::T::Structure, true, true );
      const std::pair<const char *, m::T> kids[] = { { "i", m::T::Integer }, { "s", m::T::Scaled },    { "f", m::T::Float },
                                                     { "t", m::T::String },  { "b", m::T::Blob },      { "st", m::T::Structure },
                                                     { "vh", m::T::Vector }, { "vo", m::T::Vector },   { "full", m::T::CV },
                                                     { "empty", m::T::CV },  { "st/x:k", m::T::Integer }, { "vh/1", m::T::String } };
      for ( auto &k : kids )
         w.add( k.first, w.root->get( k.first ), k.second, true );
      // a prototype is a tree of its own
      w.add( "prototype", *w.proto, m::T::Structure, true, true );
      w.add( "prototype/a", w.proto->get( "a" ), m::T::Integer, true );
      w.add( "codecs", w.full->codecs(), m::T::Vector, true, true );
      if ( mode == Writing )
      {
         e57::ImageFile file = f;
         w.free.reset( new e57::Node( e57::IntegerNode( f, 3, 0, 10 ) ) );
         w.freeText.reset( new e57::Node( e57::StringNode( f, "free" ) ) );
         w.us.reset( new e57::StructureNode( f ) );
         w.us->set( "k", e57::IntegerNode( f, 1 ) );
         w.us->set( "in", e57::StructureNode( f ) );
         w.ublob.reset( new e57::BlobNode( f, 4 ) );
         w.ucv.reset( new e57::CompressedVectorNode( makeVector( f ) ) );
         w.add( "free i", *w.free, m::T::Integer, false, true );
         w.add( "free t", *w.freeText, m::T::String, false, true );
         w.add( "free s", e57::ScaledIntegerNode( f, 1, 0, 10 ), m::T::Scaled, false, true );
         w.add( "free f", e57::FloatNode( f, 1 ), m::T::Float, false, true );
         w.add( "free st", *w.us, m::T::Structure, false, true );
         w.add( "free st/k", w.us->get( "k" ), m::T::Integer, false );
         w.add( "free v", e57::VectorNode( f, true ), m::T::Vector, false, true );
         w.add( "free b", *w.ublob, m::T::Blob, false, true );
         w.add( "free cv", *w.ucv, m::T::CV, false, true );
         w.add( "free prototype/b", e57::StructureNode( w.ucv->prototype() ).get( "b" ), m::T::Float, false );
      }
      // lists of buffers
      w.call2.reset( new Bufs( f, 2 ) );
      w.call4.reset( new Bufs( f, 4 ) );
      w.extra.reset( new m::Buf( e57::Int64, 2 ) );
      w.small.reset( new m::Buf( e57::Real64, 1 ) );
      auto &l = w.lists;
      l["good"] = w.call2->list;
      l["none"] = {};
      l["one"] = { w.call2->list[1] };
      l["twice"] = { w.call2->list[0], w.call2->list[1], w.extra->sdb( f, "/a", false, false ) };
      l["unknown"] = { w.call2->list[0], w.call2->list[1], w.extra->sdb( f, "c", false, false ) };
      l["sizes"] = { w.call2->list[0], w.small->sdb( f, "b", false, false ) };

      w.writable = mode == Writing;
      w.open = true;
      w.writer = w.reader = false;
      switch ( phase )
      {
         case Idle:
            break;
         case WriterOpen:
         case WriterDone:
         case ClosedWriter:
            w.wb.reset( new Bufs( f, 4 ) );
            w.cw.reset( new e57::CompressedVectorWriter( w.empty->writer( w.wb->list ) ) );
            w.writer = true;
            if ( phase == WriterDone )
               w.cw->close(), w.writer = false;
            if ( phase == ClosedWriter )
               w.f->cancel(), w.writer = false, w.open = false;
            break;
         case ReaderOpen:
         case ReaderDone:
         case ClosedReader:
            w.rb.reset( new Bufs( f, 2 ) );
            w.cr.reset( new e57::CompressedVectorReader( w.full->reader( w.rb->list ) ) );
            w.reader = true;
            if ( phase == ReaderDone )
               w.cr->close(), w.reader = false;
            if ( phase == ClosedReader )
               w.f->cancel(), w.reader = false, w.open = false;
            break;
         case Closed:
            w.f->close();
            w.open = false;
            break;
         case Cancelled:
            w.f->cancel();
            w.open = false;
            break;
      }
   }

   struct Call
   {
      std::string name;
      std::function<Codes( World & )> violated; // the errors of the conditions that do not hold
      std::function<void( World & )> call;
   };
   using Calls = std::vector<Call>;

   Codes ifNot( bool ok, int code )
   {
      return ok ? Codes{} : Codes{ code };
   }
   Codes both( std::initializer_list<Codes> all )
   {
      Codes r;
      for ( auto &c : all )
         r.insert( c.begin(), c.end() );
      return r;
   }
   Codes open( World &w )
   {
      return ifNot( w.open, e57::ErrorImageFileNotOpen );
   }
   Codes writable( World &w )
   {
      return ifNot( w.writable, e57::ErrorFileReadOnly );
   }
   // Calls for which success and the error are both fine in a closed file
   const int maybe = -1;
   Codes mayNeedOpen( World &w )
   {
      return w.open ? Codes{} : Codes{ maybe, e57::ErrorImageFileNotOpen };
   }
   Codes never( World & )
   {
      return {};
   }

   // ---- calls on every element ----
   void itemCalls( Calls &all, size_t k, const std::string &name, m::T type )
   {
      const auto add = [&]( const std::string &what, std::function<Codes( World & )> violated,
                            std::function<void( World &, const Item & )> call ) {
         all.push_back( { name + ": " + what, violated, [=]( World &w ) { call( w, w.items[k] ); } } );
      };
      add( "isRoot", open, []( World &, const Item &i ) { CHECK( i.node.isRoot() == i.root, "isRoot" ); } );
      add( "parent", open, []( World &, const Item &i ) { CHECK( ( i.node.parent() == i.node ) == i.root, "parent" ); } );
      add( "pathName", open, []( World &, const Item &i ) { CHECK( !i.node.pathName().empty(), "pathName" ); } );
      add( "elementName", open, []( World &, const Item &i ) { CHECK( i.node.elementName().empty() == i.root, "elementName" ); } );
      add( "isAttached", open, []( World &, const Item &i ) { CHECK( i.node.isAttached() == i.attached, "isAttached" ); } );
      add( "type", never, [=]( World &, const Item &i ) {
         const e57::NodeType want[] = { e57::TypeStructure, e57::TypeVector, e57::TypeCompressedVector, e57::TypeInteger,
                                        e57::TypeScaledInteger, e57::TypeFloat, e57::TypeString, e57::TypeBlob };
         CHECK( i.node.type() == want[static_cast<int>( type )], "type %d", i.node.type() );
      } );
      add( "destImageFile", never, []( World &w, const Item &i ) { CHECK( i.node.destImageFile() == *w.f, "destImageFile" ); } );
      add( "==", never, []( World &w, const Item &i ) {
         for ( auto &o : w.items )
            CHECK( ( i.node == o.node ) == ( &i == &o ) && ( i.node != o.node ) == ( &i != &o ), "%s == %s", i.name.c_str(), o.name.c_str() );
      } );
      add( "checkInvariant", never, []( World &, const Item &i ) {
         e57::Node n = i.node;
         n.checkInvariant();
         n.checkInvariant( false, false );
      } );
      add( "dump", mayNeedOpen, []( World &, const Item &i ) {
         std::ostringstream o;
         i.node.dump( 3, o );
         CHECK( !o.str().empty(), "nothing is dumped" );
      } );
      // downcasts
      const auto cast = [&]( const char *what, m::T to, std::function<void( const e57::Node & )> f ) {
         add( std::string( "downcast " ) + what, [=]( World & ) { return ifNot( type == to, e57::ErrorBadNodeDowncast ); },
              [=]( World &, const Item &i ) { f( i.node ); } );
      };
#define CAST( K, C )                                                                                                         \
   cast( #C, m::T::K, []( const e57::Node &n ) {                                                                             \
      e57::C x( n );                                                                                                         \
      e57::Node back = x;                                                                                                    \
      CHECK( back == n, "the cast gives another element" );                                                                  \
   } )
      CAST( Structure, StructureNode );
      CAST( Vector, VectorNode );
      CAST( CV, CompressedVectorNode );
      CAST( Integer, IntegerNode );
      CAST( Scaled, ScaledIntegerNode );
      CAST( Float, FloatNode );
      CAST( String, StringNode );
      CAST( Blob, BlobNode );
#undef CAST
#define GET( T, F ) add( #F, open, []( World &, const Item &i ) { e57::T( i.node ).F(); } )
#define COMMON( T )                                                                                                          \
   add( "own isRoot", open, []( World &, const Item &i ) { CHECK( e57::T( i.node ).isRoot() == i.root, "isRoot" ); } );      \
   add( "own parent", open,                                                                                                  \
        []( World &, const Item &i ) { CHECK( ( e57::T( i.node ).parent() == i.node ) == i.root, "parent" ); } );            \
   GET( T, pathName );                                                                                                       \
   GET( T, elementName );                                                                                                    \
   add( "own isAttached", open,                                                                                              \
        []( World &, const Item &i ) { CHECK( e57::T( i.node ).isAttached() == i.attached, "isAttached" ); } );              \
   add( "own destImageFile", never,                                                                                          \
        []( World &w, const Item &i ) { CHECK( e57::T( i.node ).destImageFile() == *w.f, "destImageFile" ); } );             \
   add( "own dump", mayNeedOpen,                                                                                                   \
        []( World &, const Item &i ) {                                                                                       \
           std::ostringstream o;                                                                                             \
           e57::T( i.node ).dump( 1, o );                                                                                    \
        } );                                                                                                                 \
   add( "own checkInvariant", never, []( World &, const Item &i ) { e57::T( i.node ).checkInvariant(); } )
      switch ( type )
      {
         case m::T::Structure:
            COMMON( StructureNode );
            GET( StructureNode, childCount );
            break;
         case m::T::Vector:
            COMMON( VectorNode );
            GET( VectorNode, childCount );
            GET( VectorNode, allowHeteroChildren );
            break;
         case m::T::CV:
            COMMON( CompressedVectorNode );
            GET( CompressedVectorNode, childCount );
            GET( CompressedVectorNode, prototype );
            GET( CompressedVectorNode, codecs );
            break;
         case m::T::Integer:
            COMMON( IntegerNode );
            GET( IntegerNode, value );
            GET( IntegerNode, minimum );
            GET( IntegerNode, maximum );
            break;
         case m::T::Scaled:
            COMMON( ScaledIntegerNode );
            GET( ScaledIntegerNode, rawValue );
            GET( ScaledIntegerNode, scaledValue );
            GET( ScaledIntegerNode, minimum );
            GET( ScaledIntegerNode, scaledMinimum );
            GET( ScaledIntegerNode, maximum );
            GET( ScaledIntegerNode, scaledMaximum );
            GET( ScaledIntegerNode, scale );
            GET( ScaledIntegerNode, offset );
            break;
         case m::T::Float:
            COMMON( FloatNode );
            GET( FloatNode, value );
            GET( FloatNode, precision );
            GET( FloatNode, minimum );
            GET( FloatNode, maximum );
            break;
         case m::T::String:
            COMMON( StringNode );
            GET( StringNode, value );
            break;
         case m::T::Blob:
            COMMON( BlobNode );
            GET( BlobNode, byteCount );
            break;
      }
#undef GET
#undef COMMON
   }

   // ---- calls of structures and vectors ----
   struct Path
   {
      std::string path;
      int error; // of get: 0 when there is an element
   };
   const std::vector<Path> pathsOfRoot = {
      { "i", 0 },      { "/i", 0 },       { "st/k", 0 },     { "/st/k", 0 },      { "st/x:k", 0 },  { "vh/0", 0 },    { "vh/1", 0 },
      { "nope", 22 },  { "/nope", 22 },   { "st/nope", 22 }, { "i/k", 22 },       { "vh/2", 22 },   { "vh/k", 22 },   { "full/0", 22 },
      { "x:no", 22 },  { "st/x:no", 22 }, { "nope/k", 22 },  { "", 54 },          { "a b", 55 },    { "i//k", 55 },   { "9a", 55 },
      { "-a", 55 },    { "a:b:c", 55 },   { ":a", 55 },      { "a:", 55 },        { "//i", 55 },    { "y:k", 56 },
      { "st/y:k", 56 } };
   const std::vector<Path> pathsOfStructure = { { "k", 0 },    { "x:k", 0 }, { "/st/k", 0 }, { "/i", 0 },  { "i", 22 },  { "/k", 22 },
                                                { "nope", 22 }, { "", 54 },   { "a b", 55 },  { "y:k", 56 } };
   const std::vector<Path> pathsOfVector = { { "0", 0 },  { "1", 0 },     { "/vh/1", 0 }, { "/i", 0 },  { "2", 22 },
                                             { "k", 22 }, { "/nope", 22 }, { "", 54 },     { "a b", 55 }, { "y:k", 56 } };

   // A path with an empty part is malformed, and has an empty name
   Codes pathError( const Path &p )
   {
      Codes c = ifNot( !p.error, p.error );
      if ( p.path.find( "//" ) != std::string::npos )
         c.insert( e57::ErrorPathNameEmpty );
      return c;
   }
   // Whether a path that can not be in the tree is defined is a legal question
   Codes questionError( const Path &p )
   {
      return p.error == e57::ErrorPathUndefined || p.error == e57::ErrorPathNameExtensionNotRegistered ? Codes{} : pathError( p );
   }
   template <class C> void containerCalls( Calls &all, const std::string &name, std::function<C &( World & )> c, int64_t count, const std::vector<Path> &paths )
   {
      const auto add = [&]( const std::string &what, std::function<Codes( World & )> violated, std::function<void( World & )> call ) {
         all.push_back( { name + "." + what, violated, call } );
      };
      for ( int64_t k : { int64_t( 0 ), count - 1, count, int64_t( -1 ), INT64_MAX, INT64_MIN } )
         add( fmt( "get %lld", (long long)k ),
              [=]( World &w ) { return both( { open( w ), ifNot( k >= 0 && k < count, e57::ErrorChildIndexOutOfBounds ) } ); },
              [=]( World &w ) { c( w ).get( k ); } );
      for ( auto &p : paths )
      {
         add( "get '" + p.path + "'", [=]( World &w ) { return both( { open( w ), pathError( p ) } ); },
              [=]( World &w ) { c( w ).get( p.path ); } );
         add( "isDefined '" + p.path + "'",
              [=]( World &w ) { return both( { open( w ), questionError( p ) } ); },
              [=]( World &w ) { CHECK( c( w ).isDefined( p.path ) == !p.error, "isDefined gives %d", p.error == 0 ? 0 : 1 ); } );
      }
   }

   enum Child
   {
      Free,
      FreeText,
      FreeTree,
      Foreign,
      HasParent,
      IsRoot,
      Children
   };
   const char *childName[] = { "free", "text", "tree", "foreign", "with parent", "root" };
   // (there are no free elements in a file opened for reading: those of another file are used)
   e57::Node child( World &w, int c )
   {
      if ( !w.writable )
         return c == HasParent ? w.root->get( "i" ) : c == IsRoot ? e57::Node( *w.root ) : *w.foreign;
      switch ( c )
      {
         case Free:
            return *w.free;
         case FreeText:
            return *w.freeText;
         case FreeTree:
            return *w.us;
         case Foreign:
            return *w.foreign;
         case HasParent:
            return w.items[1].node;
         default:
            return *w.root;
      }
   }
   Codes childConditions( World &w, int c )
   {
      if ( c == HasParent )
         return { e57::ErrorAlreadyHasParent };
      if ( c == IsRoot )
         return { e57::ErrorAlreadyHasParent };
      return ifNot( w.writable && c != Foreign, e57::ErrorDifferentDestImageFile );
   }

   void treeCalls( Calls &all )
   {
      containerCalls<e57::StructureNode>( all, "root", []( World &w ) -> e57::StructureNode & { return *w.root; }, 10, pathsOfRoot );
      containerCalls<e57::StructureNode>( all, "st", []( World &w ) -> e57::StructureNode & { return *w.st; }, 2, pathsOfStructure );
      containerCalls<e57::VectorNode>( all, "vh", []( World &w ) -> e57::VectorNode & { return *w.vh; }, 2, pathsOfVector );
      // set
      struct Place
      {
         const char *path;
         Codes error; // besides those of the child
         bool homogeneous = false;
      };
      const std::vector<Place> places = {
         { "new", {} },         { "/new", {} },       { "st/new", {} },    { "/st/new", {} },  { "x:new", {} },     { "vh/2", {} },
         { "vo/1", {}, true },  { "i", { 4 } },       { "st", { 4 } },     { "st/k", { 4 } },  { "vh/0", { 4 } },   { "vo/0", { 4 }, true },
         { "no/new", { 22 } },  { "i/new", { 11, 22 } },  { "vh/9", { 22, 55 } },  { "vh/k", { 22, 55 } }, { "", { 54 } },      { "a b", { 55 } },
         { "a//b", { 54, 55 } },    { "9a", { 55 } },     { "y:k", { 56 } },   { "st/y:k", { 56 } }, { "/", { 4 } } };
      for ( auto &p : places )
         for ( int c = 0; c < Children; ++c )
            all.push_back( { fmt( "root.set '%s' %s", p.path, childName[c] ),
                             [=]( World &w ) {
                                return both( { open( w ), writable( w ), childConditions( w, c ), p.error,
                                               p.homogeneous && c ? Codes{ e57::ErrorHomogeneousViolation } : Codes{} } );
                             },
                             [=]( World &w ) { w.root->set( p.path, child( w, c ) ); } } );
      // append
      for ( int v = 0; v < 2; ++v )
         for ( int c = 0; c < Children; ++c )
            all.push_back( { fmt( "%s.append %s", v ? "vo" : "vh", childName[c] ),
                             [=]( World &w ) {
                                return both( { open( w ), writable( w ), childConditions( w, c ),
                                               v && c ? Codes{ e57::ErrorHomogeneousViolation } : Codes{} } );
                             },
                             [=]( World &w ) { ( v ? *w.vo : *w.vh ).append( child( w, c ) ); } } );
   }

   // ---- construction of elements ----
   void constructionCalls( Calls &all )
   {
      const auto add = [&]( const std::string &name, Codes error, std::function<void( World & )> call ) {
         all.push_back( { "new " + name,
                          [=]( World &w ) {
                             Codes c = both( { open( w ), writable( w ), error } );
                             // an element that can not be attached to anything does no harm
                             if ( w.open && error.empty() && !w.writable )
                                c.insert( maybe );
                             return c;
                          },
                          call } );
      };
      add( "structure", {}, []( World &w ) { e57::StructureNode n( *w.f ); } );
      for ( bool hetero : { false, true } )
         add( fmt( "vector %d", hetero ), {}, [=]( World &w ) { e57::VectorNode n( *w.f, hetero ); } );
      const int64_t iv[] = { INT64_MIN, -1, 0, 1, INT64_MAX };
      for ( int64_t v : iv )
         for ( int64_t lo : iv )
            for ( int64_t hi : iv )
            {
               const Codes bad = v < lo || v > hi ? Codes{ e57::ErrorValueOutOfBounds } : Codes{};
               const std::string args = fmt( "%lld %lld %lld", (long long)v, (long long)lo, (long long)hi );
               add( "integer " + args, bad, [=]( World &w ) {
                  e57::IntegerNode n( *w.f, v, lo, hi );
                  CHECK( n.value() == v && n.minimum() == lo && n.maximum() == hi, "the values" );
               } );
               add( "scaled " + args, bad, [=]( World &w ) {
                  e57::ScaledIntegerNode n( *w.f, v, lo, hi, 0.5, 1.0 );
                  CHECK( n.rawValue() == v && n.minimum() == lo && n.maximum() == hi, "the values" );
               } );
            }
      add( "scaled without scale", { e57::ErrorBadAPIArgument }, []( World &w ) { e57::ScaledIntegerNode n( *w.f, 1, 0, 2, 0.0, 0.0 ); } );
      add( "scaled real without scale", { e57::ErrorBadAPIArgument, e57::ErrorScaledValueNotRepresentable }, []( World &w ) { e57::ScaledIntegerNode n( *w.f, 1.0, 0.0, 2.0, 0.0, 0.0 ); } );
      const double fv[] = { -2, 0, 0.5, 3 };
      for ( double v : fv )
         for ( double lo : fv )
            for ( double hi : fv )
            {
               const Codes bad = v < lo || v > hi ? Codes{ e57::ErrorValueOutOfBounds } : Codes{};
               const std::string args = fmt( "%g %g %g", v, lo, hi );
               for ( auto precision : { e57::PrecisionSingle, e57::PrecisionDouble } )
                  add( fmt( "float %s %d", args.c_str(), precision ), bad, [=]( World &w ) {
                     e57::FloatNode n( *w.f, v, precision, lo, hi );
                     CHECK( n.value() == v && n.minimum() == lo && n.maximum() == hi && n.precision() == precision, "the values" );
                  } );
               add( "scaled real " + args, bad, [=]( World &w ) {
                  e57::ScaledIntegerNode n( *w.f, v, lo, hi, 0.5, 0.0 );
                  CHECK( n.scaledValue() == v && n.scaledMinimum() == lo && n.scaledMaximum() == hi, "the values" );
               } );
            }
      for ( const char *s : { "", "a", "a\n", "\xC3\xA4" } )
         add( fmt( "string %zu %02x", strlen( s ), (unsigned char)*s ), {}, [=]( World &w ) { CHECK( e57::StringNode( *w.f, s ).value() == s, "the value" ); } );
      for ( const char *s : { "\x01", "\xFF", "\xC3" } )
         add( fmt( "string %02x", (unsigned char)*s ), { e57::ErrorBadAPIArgument }, [=]( World &w ) { e57::StringNode n( *w.f, s ); } );
      for ( int64_t n : { int64_t( 0 ), int64_t( 1 ), int64_t( 3000 ), int64_t( -1 ), INT64_MIN } )
         all.push_back( { fmt( "new blob %lld", (long long)n ),
                          [=]( World &w ) {
                             return both( { open( w ), writable( w ), ifNot( n >= 0, e57::ErrorBadAPIArgument ),
                                            ifNot( !w.writer, e57::ErrorTooManyWriters ) } );
                          },
                          [=]( World &w ) { CHECK( e57::BlobNode( *w.f, n ).byteCount() == n, "the size" ); } } );
      // compressed vectors
      const auto cv = [&]( const std::string &name, Codes error, std::function<e57::Node( World & )> proto, std::function<e57::Node( World & )> codecs ) {
         add( "compressed vector " + name, error, [=]( World &w ) {
            e57::CompressedVectorNode n( *w.f, proto( w ), e57::VectorNode( codecs( w ) ) );
            CHECK( n.childCount() == 0, "the record count" );
         } );
      };
      // (outside a file being written the arguments come from the other file: only the first conditions count)
      const auto place = []( World &w ) -> const e57::ImageFile & { return w.open && w.writable ? *w.f : *w.other; };
      const auto proto = [=]( World &w ) {
         e57::StructureNode s( place( w ) );
         s.set( "a", e57::IntegerNode( place( w ), 0, 0, 1 ) );
         return e57::Node( s );
      };
      const auto codecs = [=]( World &w ) { return e57::Node( e57::VectorNode( place( w ), true ) ); };
      const auto foreign = []( World &w ) { return *w.foreignTree; };
      all.push_back( { "new compressed vector", []( World &w ) {
                         return both( { open( w ), writable( w ), ifNot( w.open && w.writable, e57::ErrorDifferentDestImageFile ) } );
                      },
                       [=]( World &w ) { e57::CompressedVectorNode( *w.f, proto( w ), e57::VectorNode( codecs( w ) ) ); } } );
      const auto more = [&]( const std::string &name, int error, std::function<e57::Node( World & )> p, std::function<e57::Node( World & )> c ) {
         all.push_back( { "new compressed vector " + name,
                          [=]( World &w ) {
                             return both( { open( w ), writable( w ), ifNot( w.open && w.writable, e57::ErrorDifferentDestImageFile ), { error } } );
                          },
                          [=]( World &w ) { e57::CompressedVectorNode( *w.f, p( w ), e57::VectorNode( c( w ) ) ); } } );
      };
      more( "foreign prototype", e57::ErrorDifferentDestImageFile, foreign, codecs );
      more( "foreign codecs", e57::ErrorDifferentDestImageFile, proto, []( World &w ) { return e57::Node( e57::VectorNode( *w.other, true ) ); } );
      more( "attached prototype", e57::ErrorAlreadyHasParent, []( World &w ) { return e57::Node( *w.st ); }, codecs );
      more( "attached codecs", e57::ErrorAlreadyHasParent, proto, []( World &w ) { return e57::Node( *w.vh ); } );
      more( "prototype with blob", e57::ErrorBadPrototype,
            [=]( World &w ) {
               e57::StructureNode s( place( w ) );
               if ( !w.writer )
                  s.set( "a", e57::BlobNode( place( w ), 2 ) );
               else
                  s.set( "a", makeVector( place( w ) ) );
               return e57::Node( s );
            },
            codecs );
      more( "prototype with vector of records", e57::ErrorBadPrototype,
            [=]( World &w ) {
               e57::StructureNode s( place( w ) ), t( place( w ) );
               s.set( "a", t );
               t.set( "b", makeVector( place( w ) ) );
               return e57::Node( s );
            },
            codecs );
   }

   // ---- blobs, records, buffers ----
   void binaryCalls( Calls &all )
   {
      const auto add = [&]( const std::string &name, std::function<Codes( World & )> violated, std::function<void( World & )> call ) {
         all.push_back( { name, violated, call } );
      };
      struct Range
      {
         int64_t start;
         size_t count;
         bool ok;
      };
      const std::vector<Range> ranges = { { 0, 8, true },  { 0, 1, true },   { 7, 1, true },         { 3, 2, true },  { 0, 0, true },
                                          { 0, 9, false }, { 8, 1, false },  { 7, 2, false },        { -1, 1, false }, { -1, 9, false },
                                          { 9, 0, false }, { INT64_MAX, 1, false }, { INT64_MIN, 8, false }, { 1, SIZE_MAX, false } };
      for ( auto &g : ranges )
      {
         add( fmt( "blob.read %lld+%zu", (long long)g.start, g.count ),
              [=]( World &w ) { return both( { open( w ), ifNot( g.ok, e57::ErrorBadAPIArgument ) } ); },
              [=]( World &w ) {
                 std::vector<uint8_t> b( 64 );
                 w.blob->read( b.data(), g.start, g.count );
                 const auto want = m::pattern( 8 );
                 CHECK( std::equal( b.begin(), b.begin() + g.count, want.begin() + g.start ), "the bytes" );
              } );
         add( fmt( "blob.write %lld+%zu", (long long)g.start, g.count ),
              [=]( World &w ) { return both( { open( w ), writable( w ), ifNot( g.ok, e57::ErrorBadAPIArgument ) } ); },
              [=]( World &w ) {
                 std::vector<uint8_t> b( 64 );
                 w.blob->write( b.data(), g.start, g.count );
              } );
      }
      add( "free blob.write", []( World &w ) { return both( { open( w ), writable( w ), ifNot( !w.writable, e57::ErrorNodeUnattached ) } ); },
           []( World &w ) {
              uint8_t b[4] = {};
              w.writable ? w.ublob->write( b, 0, 4 ) : w.blob->write( b, 0, 4 );
           } );
      // writers and readers
      const std::map<std::string, int> wErr = { { "good", 0 }, { "none", e57::ErrorBadAPIArgument }, { "one", e57::ErrorNoBufferForElement },
                                                { "twice", e57::ErrorBufferDuplicatePathName }, { "unknown", e57::ErrorPathUndefined },
                                                { "sizes", e57::ErrorBufferSizeMismatch } };
      for ( auto &l : wErr )
      {
         for ( int which = 0; which < 3; ++which )
         {
            const char *names[] = { "empty", "full", "free" };
            add( fmt( "%s.writer %s", names[which], l.first.c_str() ),
                 [=]( World &w ) {
                    return both( { open( w ), writable( w ), ifNot( !l.second, l.second ), ifNot( !w.writer, e57::ErrorTooManyWriters ),
                                   ifNot( !w.reader, e57::ErrorTooManyReaders ), ifNot( which != 1, e57::ErrorSetTwice ),
                                   ifNot( which != 2 || !w.ucv, e57::ErrorNodeUnattached ) } );
                 },
                 [=]( World &w ) {
                    e57::CompressedVectorNode &n = which == 0 ? *w.empty : which == 1 || !w.ucv ? *w.full : *w.ucv;
                    e57::CompressedVectorWriter cw = n.writer( w.lists[l.first] );
                    CHECK( cw.isOpen() && w.f->writerCount() == 1, "the writer is not open" );
                    cw.close();
                 } );
            const int rErr = l.first == "one" ? 0 : l.second;
            add( fmt( "%s.reader %s", names[which], l.first.c_str() ),
                 [=]( World &w ) {
                    return both( { open( w ), ifNot( !rErr, rErr ), ifNot( !w.writer, e57::ErrorTooManyWriters ),
                                   ifNot( !w.reader, e57::ErrorTooManyReaders ), ifNot( which != 0 || w.phase == WriterDone, e57::ErrorData3DReadInvalidZeroRecords ),
                                   ifNot( which != 2 || !w.ucv, e57::ErrorNodeUnattached ) } );
                 },
                 [=]( World &w ) {
                    e57::CompressedVectorNode &n = which == 0 ? *w.empty : which == 1 || !w.ucv ? *w.full : *w.ucv;
                    e57::CompressedVectorReader cr = n.reader( w.lists[l.first] );
                    CHECK( cr.isOpen() && w.f->readerCount() == 1, "the reader is not open" );
                    CHECK( which == 0 || ( cr.read() == 2 && cr.read() == 1 ), "the records" );
                    CHECK( cr.read() == 0, "records after the last" );
                    cr.close();
                 } );
         }
         if ( l.first == "good" )
            continue;
         add( "writer.write " + l.first, [=]( World &w ) { return both( { open( w ), ifNot( w.writer, e57::ErrorWriterNotOpen ), { l.second, e57::ErrorBuffersNotCompatible } } ); },
              [=]( World &w ) { w.cw->write( w.lists[l.first], 1 ); } );
         const int rErr = l.first == "one" ? 46 : l.second;
         add( "reader.read " + l.first, [=]( World &w ) { return both( { open( w ), ifNot( w.reader, e57::ErrorReaderNotOpen ), { rErr, e57::ErrorBuffersNotCompatible } } ); },
              [=]( World &w ) { w.cr->read( w.lists[l.first] ); } );
      }
      for ( size_t n : { size_t( 0 ), size_t( 1 ), size_t( 4 ), size_t( 5 ), SIZE_MAX } )
         add( fmt( "writer.write %zu", n ),
              [=]( World &w ) { return both( { open( w ), ifNot( w.writer, e57::ErrorWriterNotOpen ), ifNot( n <= 4, e57::ErrorBadAPIArgument ) } ); },
              [=]( World &w ) { w.cw->write( n ); } );
      for ( size_t n : { size_t( 0 ), size_t( 1 ), size_t( 2 ), size_t( 3 ), SIZE_MAX } )
         add( fmt( "writer.write good %zu", n ),
              [=]( World &w ) { return both( { open( w ), ifNot( w.writer, e57::ErrorWriterNotOpen ), ifNot( n <= 2, e57::ErrorBadAPIArgument ) } ); },
              [=]( World &w ) { w.cw->write( w.lists["good"], n ); } );
      add( "writer.isOpen", never, []( World &w ) { CHECK( w.cw->isOpen() == w.writer || !w.open, "isOpen" ); } );
      add( "writer.compressedVectorNode", mayNeedOpen, []( World &w ) { CHECK( e57::Node( w.cw->compressedVectorNode() ) == e57::Node( *w.empty ), "the node" ); } );
      add( "writer.checkInvariant", never, []( World &w ) { w.cw->checkInvariant( true ); } );
      add( "writer.dump", mayNeedOpen, []( World &w ) {
         std::ostringstream o;
         w.cw->dump( 0, o );
      } );
      add( "writer.close", open, []( World &w ) {
         w.cw->close();
         CHECK( !w.cw->isOpen() && w.f->writerCount() == 0, "the writer is still open" );
      } );
      add( "reader.read", []( World &w ) { return both( { open( w ), ifNot( w.reader, e57::ErrorReaderNotOpen ) } ); },
           []( World &w ) { CHECK( w.cr->read() == 2 && w.rb->a.getInt( 1 ) == 5, "the records" ); } );
      add( "reader.read good", []( World &w ) { return both( { open( w ), ifNot( w.reader, e57::ErrorReaderNotOpen ) } ); },
           []( World &w ) { CHECK( w.cr->read( w.lists["good"] ) == 2 && w.call2->a.getInt( 1 ) == 5, "the records" ); } );
      add( "reader.isOpen", never, []( World &w ) { CHECK( w.cr->isOpen() == w.reader || !w.open, "isOpen" ); } );
      add( "reader.compressedVectorNode", mayNeedOpen, []( World &w ) { CHECK( e57::Node( w.cr->compressedVectorNode() ) == e57::Node( *w.full ), "the node" ); } );
      add( "reader.checkInvariant", never, []( World &w ) { w.cr->checkInvariant( true ); } );
      add( "reader.dump", mayNeedOpen, []( World &w ) {
         std::ostringstream o;
         w.cr->dump( 0, o );
      } );
      add( "reader.close", never, []( World &w ) {
         w.cr->close();
         CHECK( !w.cr->isOpen() && ( !w.open || w.f->readerCount() == 0 ), "the reader is still open" );
      } );
      // buffers
      struct Mem
      {
         int64_t i64[4];
         double d[4];
         std::vector<std::string> s;
         Mem() : s( 4 )
         {
         }
      };
      const std::vector<Path> bufferPaths = { { "a", 0 },   { "/a", 0 },   { "a/b", 0 }, { "/a/0/b", 0 }, { "x:a", 0 }, { "0", 0 },
                                              { "", 54 },   { "a b", 55 }, { "a//b", 55 }, { "9a", 55 },  { "a:b:c", 55 }, { ":a", 55 } };
      for ( auto &p : bufferPaths )
      {
         for ( int what = 0; what < 5; ++what )
         {
            const char *names[] = { "int64", "null", "wide", "strings", "no strings" };
            const bool bad = what == 1 || what == 4;
            add( fmt( "new buffer '%s' %s", p.path.c_str(), names[what] ),
                 [=]( World &w ) { return both( { open( w ), pathError( p ), ifNot( !bad, e57::ErrorBadBuffer ) } ); },
                 [=]( World &w ) {
                    Mem mem;
                    if ( what < 3 )
                    {
                       e57::SourceDestBuffer b( *w.f, p.path, what == 1 ? nullptr : mem.i64, what == 2 ? 2 : 4, true, false, what == 2 ? 16 : 8 );
                       CHECK( b.pathName() == p.path && b.capacity() == ( what == 2 ? 2u : 4u ) && b.memoryRepresentation() == e57::Int64 &&
                                 b.doConversion() && !b.doScaling() && b.stride() == ( what == 2 ? 16u : 8u ),
                              "the buffer reports something else" );
                       b.checkInvariant();
                    }
                    else
                    {
                       e57::SourceDestBuffer b( *w.f, p.path, what == 4 ? nullptr : &mem.s );
                       CHECK( b.pathName() == p.path && b.capacity() == 4 && b.memoryRepresentation() == e57::UString, "the buffer reports something else" );
                    }
                 } );
         }
      }
      add( "buffer getters", never, []( World &w ) {
         for ( auto &b : w.lists["good"] )
         {
            CHECK( b.capacity() == 2 && !b.doConversion() && !b.doScaling() && b.pathName().size() == 1, "the buffer" );
            std::ostringstream o;
            b.dump( 0, o );
         }
      } );
   }

   // ---- the file ----
   void fileCalls( Calls &all, const std::string &dir )
   {
      const auto add = [&]( const std::string &name, std::function<Codes( World & )> violated, std::function<void( World & )> call ) {
         all.push_back( { "file." + name, violated, call } );
      };
      add( "isOpen", never, []( World &w ) { CHECK( w.f->isOpen() == w.open, "isOpen" ); } );
      add( "isWritable", never, []( World &w ) { CHECK( w.f->isWritable() == w.writable, "isWritable" ); } );
      add( "fileName", never, []( World &w ) {
         const auto name = w.f->fileName();
         CHECK( w.mode == ReadingMemory || name.find( "f.e57" ) != std::string::npos, "fileName is %s", name.c_str() );
      } );
      add( "root", open, []( World &w ) { CHECK( e57::Node( w.f->root() ) == e57::Node( *w.root ), "root" ); } );
      add( "writerCount", open, []( World &w ) { CHECK( w.f->writerCount() == w.writer, "writerCount" ); } );
      add( "readerCount", open, []( World &w ) { CHECK( w.f->readerCount() == w.reader, "readerCount" ); } );
      add( "==", never, []( World &w ) {
         CHECK( *w.f == w.root->destImageFile() && !( *w.f != w.root->destImageFile() ) && *w.f != *w.other && !( *w.f == *w.other ), "==" );
      } );
      add( "checkInvariant", never, []( World &w ) { w.f->checkInvariant( true ); } );
      add( "dump", mayNeedOpen, []( World &w ) {
         std::ostringstream o;
         w.f->dump( 0, o );
         CHECK( !o.str().empty(), "nothing is dumped" );
      } );
      add( "cancel", never, []( World &w ) {
         w.f->cancel();
         CHECK( !w.f->isOpen(), "still open" );
      } );
      add( "close", never, []( World &w ) {
         if ( w.writer )
            w.cw->close();
         w.f->close();
         CHECK( !w.f->isOpen(), "still open" );
      } );
      struct Ext
      {
         const char *prefix, *uri;
         Codes error;
      };
      const std::vector<Ext> exts = { { "y", "http://y/", {} },
                                      { "x", "http://y/", { 31 } },
                                      { "y", "http://x/", { 32 } },
                                      { "x", "http://x/", { 31, 32 } },
                                      { "y", "", { 14 } },
                                      { "a b", "http://y/", { 14 } },
                                      { "a:b", "http://y/", { 14 } },
                                      { "9", "http://y/", { 14 } } };
      for ( auto &e : exts )
         add( fmt( "extensionsAdd '%s' '%s'", e.prefix, e.uri ), [=]( World &w ) { return both( { open( w ), writable( w ), e.error } ); },
              [=]( World &w ) { w.f->extensionsAdd( e.prefix, e.uri ); } );
      for ( const char *s : { "x", "y" } )
      {
         const bool has = *s == 'x';
         const std::string uri = std::string( "http://" ) + s + "/";
         add( std::string( "extensionsLookupPrefix " ) + s, open, [=]( World &w ) {
            std::string u = "unchanged";
            CHECK( w.f->extensionsLookupPrefix( s ) == has && w.f->extensionsLookupPrefix( s, u ) == has && ( u == uri ) == has, "prefix" );
         } );
         add( std::string( "extensionsLookupUri " ) + s, open, [=]( World &w ) {
            std::string p = "unchanged";
            CHECK( w.f->extensionsLookupUri( uri, p ) == has && ( p == s ) == has, "uri" );
         } );
      }
      add( "extensionsCount", open, []( World &w ) { w.f->extensionsCount(); } );
      for ( size_t k : { size_t( 0 ), size_t( 1 ), size_t( 2 ), SIZE_MAX } )
         for ( bool uri : { false, true } )
            add( fmt( "%s %zu", uri ? "extensionsUri" : "extensionsPrefix", k ),
                 [=]( World &w ) {
                    // a file that was read has its default namespace besides
                    const size_t n = w.writable || !w.open ? 1 : w.f->extensionsCount();
                    return both( { open( w ), ifNot( k < n, e57::ErrorBadAPIArgument ) } );
                 },
                 [=]( World &w ) { uri ? w.f->extensionsUri( k ) : w.f->extensionsPrefix( k ); } );
      struct Name
      {
         const char *name;
         int error;
         bool extended;
      };
      for ( auto &n : std::vector<Name>{ { "a", 0, false }, { "x:a", 0, true }, { "y:a", 0, true }, { "", 54, false }, { "a b", 55, false },
                                         { "x:", 55, true }, { ":a", 55, true }, { "9", 0, false }, { "9a", 55, false }, { "a:b:c", 55, true }, { "a/b", 55, false } } )
      {
         add( fmt( "isElementNameExtended '%s'", n.name ), never, [=]( World &w ) {
            const bool got = w.f->isElementNameExtended( n.name );
            CHECK( n.error || got == n.extended, "isElementNameExtended %d", got );
         } );
         add( fmt( "elementNameParse '%s'", n.name ), [=]( World & ) { return ifNot( !n.error, n.error ); }, [=]( World &w ) {
            std::string prefix, local;
            w.f->elementNameParse( n.name, prefix, local );
            CHECK( ( prefix.empty() ? local : prefix + ":" + local ) == n.name, "the parts" );
         } );
      }
      // opening further files
      struct Open
      {
         const char *name, *mode;
         Codes error;
      };
      for ( auto &o : std::vector<Open>{ { "new.e57", "w", {} }, { "none.e57", "r", { 17 } }, { "no/dir.e57", "w", { 17 } }, { "new.e57", "", { 14 } },
                                         { "new.e57", "rw", { 14 } }, { "new.e57", "a", { 14 } }, { "other.e57", "R", { 14 } }, { "", "r", { 14, 17 } }, { "", "w", { 14, 17 } } } )
         add( fmt( "open '%s' '%s'", o.name, o.mode ), [=]( World & ) { return o.error; },
              [=]( World & ) {
                 e57::ImageFile g( *o.name ? dir + "/" + o.name : std::string(), o.mode );
                 CHECK( g.isOpen(), "not open" );
                 g.cancel();
              } );
   }

   Calls calls( const std::string &dir, const World &w )
   {
      Calls all;
      for ( size_t k = 0; k < w.items.size(); ++k )
         itemCalls( all, k, w.items[k].name, w.items[k].type );
      treeCalls( all );
      constructionCalls( all );
      binaryCalls( all );
      fileCalls( all, dir );
      return all;
   }

   // What an error says of itself
   void checkError( const e57::E57Exception &e )
   {
      const std::string text = e.errorStr();
      CHECK( !text.empty() && text == e57::Utilities::errorCodeToString( e.errorCode() ), "error %d has text '%s'", e.errorCode(), text.c_str() );
      CHECK( e.errorCode() != e57::Success, "Success is thrown" );
      CHECK( std::string( e.what() ).find( "E57" ) != std::string::npos, "what() is %s", e.what() );
      std::ostringstream o;
      e.report( "caught.cpp", 77, "catcher", o );
      CHECK( o.str().find( text ) != std::string::npos, "the report does not have the text: %s", o.str().c_str() );
      const e57::E57Exception copy = e;
      CHECK( copy.errorCode() == e.errorCode() && copy.context() == e.context() && copy.errorStr() == text, "the copy of an error differs" );
   }

   void runCall( Run &r, World &w, const Call &c )
   {
      const Codes violated = c.violated( w );
      std::string want;
      for ( int v : violated )
         want += fmt( "%s%d", want.empty() ? "" : " ", v );
      r.transitions();
      int got = 0;
      try
      {
         c.call( w );
      }
      catch ( const e57::E57Exception &e )
      {
         got = e.errorCode();
         checkError( e );
         if ( !violated.count( got ) )
            fail( "%s: error %d (%s), expected %s", c.name.c_str(), got, e.context().c_str(), violated.empty() ? "success" : want.c_str() );
      }
      if ( !got && !violated.empty() && !violated.count( maybe ) )
         fail( "%s: success, expected error %s", c.name.c_str(), want.c_str() );
      r.outcome( fmt( "%d", got ) );
   }

   // ---- the Simple API: what is not there is never reported as done ----
   struct SimpleCall
   {
      std::string name;
      std::function<bool( int64_t index, bool opened )> possible;
      std::function<bool( e57::Reader &, int64_t index )> call; // whether the call reports success
   };
   const int64_t scans = 2, images = 2;
   void writeSimple( const std::string &file )
   {
      e57::Writer w( file, e57::WriterOptions{} );
      for ( int64_t k = 0; k < scans; ++k )
      {
         e57::Data3D d;
         d.pointCount = 3;
         d.pointFields.cartesianXField = d.pointFields.cartesianYField = d.pointFields.cartesianZField = true;
         if ( k == 1 )
         {
            auto &g = d.pointGroupingSchemes.groupingByLine;
            g.idElementName = "columnIndex";
            g.groupsSize = 2;
            g.pointCountSize = 2;
         }
         e57::Data3DPointsDouble b( d );
         for ( int i = 0; i < 3; ++i )
            b.cartesianX[i] = b.cartesianY[i] = b.cartesianZ[i] = i;
         CHECK( w.WriteData3DData( d, b ) == k, "the index of a scan" );
         int64_t id[] = { 0, 1 }, start[] = { 0, 2 }, count[] = { 2, 1 };
         CHECK( w.WriteData3DGroupsData( k, 2, id, start, count ) == ( k == 1 ), "the groups" );
      }
      for ( int64_t k = 0; k < images; ++k )
      {
         e57::Image2D i;
         i.sphericalRepresentation.imageWidth = i.sphericalRepresentation.imageHeight = 4;
         ( k ? i.sphericalRepresentation.jpegImageSize : i.sphericalRepresentation.pngImageSize ) = 5;
         char bytes[] = "image";
         CHECK( w.WriteImage2DData( i, k ? e57::ImageJPEG : e57::ImagePNG, e57::ProjectionSpherical, 0, bytes, 5 ) == 5, "the image" );
      }
      w.Close();
   }
   std::vector<SimpleCall> simpleCalls()
   {
      std::vector<SimpleCall> all;
      const auto scan = []( int64_t k, bool opened ) { return opened && k >= 0 && k < scans; };
      const auto image = []( int64_t k, bool opened ) { return opened && k >= 0 && k < images; };
      all.push_back( { "ReadData3D", scan, []( e57::Reader &r, int64_t k ) {
                         e57::Data3D d;
                         const bool done = r.ReadData3D( k, d );
                         CHECK( !done || d.pointCount == 3, "the header" );
                         return done;
                      } } );
      all.push_back( { "GetData3DSizes", scan, []( e57::Reader &r, int64_t k ) {
                         int64_t rows = -7, columns = -7, points = -7, groups = -7, count = -7;
                         bool byColumn = false;
                         const bool done = r.GetData3DSizes( k, rows, columns, points, groups, count, byColumn );
                         CHECK( !done || ( points == 3 && groups == ( k ? 2 : 0 ) && byColumn == ( k == 1 ) ), "the sizes" );
                         return done;
                      } } );
      all.push_back( { "ReadData3DGroupsData", []( int64_t k, bool opened ) { return opened && k == 1; },
                       []( e57::Reader &r, int64_t k ) {
                          int64_t id[2] = {}, start[2] = {}, count[2] = {};
                          const bool done = r.ReadData3DGroupsData( k, 2, id, start, count );
                          CHECK( !done || ( id[1] == 1 && start[1] == 2 && count[0] == 2 ), "the groups" );
                          return done;
                       } } );
      all.push_back( { "SetUpData3DPointsData", scan, []( e57::Reader &r, int64_t k ) {
                         double x[3] = {}, y[3] = {}, z[3] = {};
                         e57::Data3DPointsDouble b;
                         b.cartesianX = x;
                         b.cartesianY = y;
                         b.cartesianZ = z;
                         auto cr = r.SetUpData3DPointsData( k, 3, b );
                         const bool done = cr.read() == 3;
                         CHECK( done && x[2] == 2 && z[1] == 1, "the points" );
                         cr.close();
                         return done;
                      } } );
      all.push_back( { "ReadImage2D", image, []( e57::Reader &r, int64_t k ) {
                         e57::Image2D i;
                         const bool done = r.ReadImage2D( k, i );
                         CHECK( !done || i.sphericalRepresentation.imageWidth == 4, "the header" );
                         return done;
                      } } );
      all.push_back( { "GetImage2DSizes", image, []( e57::Reader &r, int64_t k ) {
                         e57::Image2DProjection p = e57::ProjectionNone;
                         e57::Image2DType t = e57::ImageNone, mask = e57::ImageNone, visual = e57::ImageNone;
                         int64_t width = 0, height = 0, size = 0;
                         const bool done = r.GetImage2DSizes( k, p, t, width, height, size, mask, visual );
                         CHECK( !done || ( p == e57::ProjectionSpherical && t == ( k ? e57::ImageJPEG : e57::ImagePNG ) && width == 4 && size == 5 ), "the sizes" );
                         return done;
                      } } );
      for ( int t = e57::ImageNone; t <= e57::ImageMaskPNG; ++t )
         for ( int p = e57::ProjectionNone; p <= e57::ProjectionCylindrical; ++p )
            all.push_back( { fmt( "ReadImage2DData %d %d", t, p ),
                             [=]( int64_t k, bool opened ) {
                                return opened && p == e57::ProjectionSpherical && ( ( k == 0 && t == e57::ImagePNG ) || ( k == 1 && t == e57::ImageJPEG ) );
                             },
                             [=]( e57::Reader &r, int64_t k ) {
                                char bytes[6] = "-----";
                                const int64_t n = r.ReadImage2DData( k, static_cast<e57::Image2DProjection>( p ), static_cast<e57::Image2DType>( t ), bytes, 0, 5 );
                                CHECK( n == 0 || n == 5, "%lld bytes", (long long)n );
                                CHECK( std::string( bytes ) == ( n ? "image" : "-----" ), "the bytes are %s", bytes );
                                return n == 5;
                             } } );
      all.push_back( { "GetE57Root", []( int64_t, bool opened ) { return opened; },
                       []( e57::Reader &r, int64_t ) {
                          e57::E57Root root;
                          const bool done = r.GetE57Root( root );
                          CHECK( !done || ( root.data3DSize == scans && root.images2DSize == images ), "the counts" );
                          return done;
                       } } );
      all.push_back( { "GetData3DCount", []( int64_t, bool opened ) { return opened; },
                       []( e57::Reader &r, int64_t ) { return r.GetData3DCount() == scans && r.GetImage2DCount() == images; } } );
      all.push_back( { "raw access", []( int64_t, bool opened ) { return opened; },
                       []( e57::Reader &r, int64_t ) {
                          return r.GetRawIMF().isOpen() && r.GetRawE57Root().isDefined( "data3D" ) && r.GetRawData3D().childCount() == scans &&
                                 r.GetRawImages2D().childCount() == images;
                       } } );
      all.push_back( { "IsOpen", []( int64_t, bool opened ) { return opened; }, []( e57::Reader &r, int64_t ) { return r.IsOpen(); } } );
      all.push_back( { "Close", []( int64_t, bool opened ) { return opened; },
                       []( e57::Reader &r, int64_t ) {
                          const bool done = r.Close();
                          CHECK( !r.IsOpen() && !r.Close(), "still open" );
                          return done;
                       } } );
      return all;
   }

   // The writer: two scans (the second with groups) and two images are declared, nothing is written
   struct SimpleWrite
   {
      std::string name;
      std::function<bool( int64_t index, bool opened )> possible;
      std::function<bool( e57::Writer &, int64_t index )> call;
      int64_t newScans = 0, newImages = 0;
   };
   e57::Data3D writtenScan( int64_t k )
   {
      e57::Data3D d;
      d.pointCount = 3;
      d.pointFields.cartesianXField = d.pointFields.cartesianYField = d.pointFields.cartesianZField = true;
      if ( k == 1 )
      {
         auto &g = d.pointGroupingSchemes.groupingByLine;
         g.idElementName = "columnIndex";
         g.groupsSize = 2;
         g.pointCountSize = 2;
      }
      return d;
   }
   e57::Image2D writtenImage( int64_t k )
   {
      e57::Image2D i;
      i.sphericalRepresentation.imageWidth = i.sphericalRepresentation.imageHeight = 4;
      ( k ? i.sphericalRepresentation.jpegImageSize : i.sphericalRepresentation.pngImageSize ) = 5;
      return i;
   }
   void declareSimple( e57::Writer &w )
   {
      for ( int64_t k = 0; k < scans; ++k )
      {
         e57::Data3D d = writtenScan( k );
         CHECK( w.NewData3D( d ) == k, "the index of a scan" );
      }
      for ( int64_t k = 0; k < images; ++k )
      {
         e57::Image2D i = writtenImage( k );
         CHECK( w.NewImage2D( i ) == k, "the index of an image" );
      }
   }
   std::vector<SimpleWrite> simpleWrites()
   {
      std::vector<SimpleWrite> all;
      const auto open = []( int64_t, bool opened ) { return opened; };
      const auto scan = []( int64_t k, bool opened ) { return opened && k >= 0 && k < scans; };
      all.push_back( { "NewData3D", open,
                       []( e57::Writer &w, int64_t ) {
                          e57::Data3D d = writtenScan( 0 );
                          return w.NewData3D( d ) == scans;
                       },
                       1 } );
      all.push_back( { "WriteData3DData", open,
                       []( e57::Writer &w, int64_t ) {
                          e57::Data3D d = writtenScan( 0 );
                          e57::Data3DPointsFloat b( d );
                          return w.WriteData3DData( d, b ) == scans;
                       },
                       1 } );
      all.push_back( { "NewImage2D", open,
                       []( e57::Writer &w, int64_t ) {
                          e57::Image2D i = writtenImage( 0 );
                          return w.NewImage2D( i ) == images;
                       },
                       0, 1 } );
      all.push_back( { "SetUpData3DPointsData double", scan, []( e57::Writer &w, int64_t k ) {
                         double x[3] = {}, y[3] = {}, z[3] = {};
                         e57::Data3DPointsDouble b;
                         b.cartesianX = x;
                         b.cartesianY = y;
                         b.cartesianZ = z;
                         auto cw = w.SetUpData3DPointsData( k, 3, b );
                         cw.write( 3 );
                         cw.close();
                         return true;
                      } } );
      all.push_back( { "SetUpData3DPointsData float", scan, []( e57::Writer &w, int64_t k ) {
                         float x[3] = {}, y[3] = {}, z[3] = {};
                         e57::Data3DPointsFloat b;
                         b.cartesianX = x;
                         b.cartesianY = y;
                         b.cartesianZ = z;
                         auto cw = w.SetUpData3DPointsData( k, 3, b );
                         cw.write( 3 );
                         cw.close();
                         return true;
                      } } );
      all.push_back( { "WriteData3DGroupsData", []( int64_t k, bool opened ) { return opened && k == 1; },
                       []( e57::Writer &w, int64_t k ) {
                          int64_t id[] = { 0, 1 }, start[] = { 0, 2 }, count[] = { 2, 1 };
                          return w.WriteData3DGroupsData( k, 2, id, start, count );
                       } } );
      for ( int t = e57::ImageNone; t <= e57::ImageMaskPNG; ++t )
         for ( int p = e57::ProjectionNone; p <= e57::ProjectionCylindrical; ++p )
            all.push_back( { fmt( "WriteImage2DData %d %d", t, p ),
                             [=]( int64_t k, bool opened ) {
                                return opened && p == e57::ProjectionSpherical && ( ( k == 0 && t == e57::ImagePNG ) || ( k == 1 && t == e57::ImageJPEG ) );
                             },
                             [=]( e57::Writer &w, int64_t k ) {
                                char bytes[] = "image";
                                const int64_t n = w.WriteImage2DData( k, static_cast<e57::Image2DType>( t ), static_cast<e57::Image2DProjection>( p ), bytes, 0, 5 );
                                CHECK( n == 0 || n == 5, "%lld bytes", (long long)n );
                                return n == 5;
                             } } );
      all.push_back( { "raw access", open, []( e57::Writer &w, int64_t ) {
                         return w.GetRawIMF().isOpen() && w.GetRawIMF().isWritable() && w.GetRawE57Root().isDefined( "data3D" ) &&
                                w.GetRawData3D().childCount() == scans && w.GetRawData3D().pathName() == "/data3D" &&
                                w.GetRawImages2D().childCount() == images && w.GetRawImages2D().pathName() == "/images2D";
                      } } );
      all.push_back( { "IsOpen", open, []( e57::Writer &w, int64_t ) { return w.IsOpen(); } } );
      all.push_back( { "Close", open, []( e57::Writer &w, int64_t ) {
                         const bool done = w.Close();
                         CHECK( !w.IsOpen() && !w.Close(), "still open" );
                         return done;
                      } } );
      return all;
   }

   // Coordinates and angles can't be plain integers; the time can
   void nodeTypes( vh::Run &r )
   {
      using T = e57::NumericalNodeType;
      const T types[] = { T::Integer, T::ScaledInteger, T::Float, T::Double };
      for ( int point = 0; point < 4; ++point )
         for ( int angle = 0; angle < 4; ++angle )
            for ( int time = 0; time < 4; ++time )
               for ( int fields = 0; fields < 8; ++fields )
                  r.test( [&] { return fmt( "simple node types %d %d %d, fields %d", point, angle, time, fields ); }, [&] {
                     e57::Writer w( r.path( "s.e57" ), e57::WriterOptions{} );
                     e57::Data3D d;
                     auto &f = d.pointFields;
                     d.pointCount = 3;
                     f.pointRangeNodeType = types[point];
                     f.angleNodeType = types[angle];
                     f.timeNodeType = types[time];
                     f.pointRangeScale = f.angleScale = f.timeScale = 0.5;
                     f.pointRangeMinimum = f.angleMinimum = f.timeMinimum = 0;
                     f.pointRangeMaximum = f.angleMaximum = f.timeMaximum = 100;
                     if ( fields & 1 )
                        f.cartesianXField = f.cartesianYField = f.cartesianZField = true;
                     if ( fields & 2 )
                        f.sphericalRangeField = f.sphericalAzimuthField = f.sphericalElevationField = true;
                     if ( fields & 4 )
                        f.timeStampField = true;
                     const bool refused = ( point == 0 && ( fields & 3 ) ) || ( angle == 0 && ( fields & 2 ) );
                     int got = 0;
                     r.transitions();
                     try
                     {
                        w.NewData3D( d );
                     }
                     catch ( const e57::E57Exception &e )
                     {
                        got = e.errorCode();
                        checkError( e );
                        CHECK( refused && got == e57::ErrorInvalidNodeType, "error %d (%s)", got, e.context().c_str() );
                     }
                     CHECK( refused == ( got != 0 ), "success" );
                     r.outcome( fmt( "%d", got ) );
                  } );
   }
   void simpleWriter( vh::Run &r )
   {
      const auto writes = simpleWrites();
      for ( size_t c = 0; c < writes.size(); ++c )
         for ( int opened = 0; opened < 2; ++opened )
            for ( int64_t k : { int64_t( 0 ), int64_t( 1 ), int64_t( 2 ), int64_t( -1 ), INT64_MAX, INT64_MIN } )
               r.test( [&] { return fmt( "simple writer %s %lld %s", writes[c].name.c_str(), (long long)k, opened ? "open" : "closed" ); }, [&] {
                  e57::Writer w( r.path( "s.e57" ), e57::WriterOptions{} );
                  declareSimple( w );
                  CHECK( w.IsOpen(), "not open" );
                  if ( !opened )
                     CHECK( w.Close(), "not closed" );
                  const bool possible = writes[c].possible( k, opened );
                  bool done = false;
                  r.transitions();
                  try
                  {
                     done = writes[c].call( w, k );
                  }
                  catch ( const e57::E57Exception &e )
                  {
                     checkError( e );
                     CHECK( !possible, "error %d (%s)", e.errorCode(), e.context().c_str() );
                     CHECK( e.errorCode() == e57::ErrorImageFileNotOpen || e.errorCode() == e57::ErrorChildIndexOutOfBounds, "error %d (%s)",
                            e.errorCode(), e.context().c_str() );
                  }
                  CHECK( done == possible, "the call %s", done ? "reports success" : "reports failure" );
                  w.Close();
                  CHECK( !w.IsOpen(), "still open" );
                  // A refused call leaves nothing behind
                  e57::Reader rd( r.path( "s.e57" ), e57::ReaderOptions{} );
                  CHECK( rd.GetData3DCount() == scans + ( done ? writes[c].newScans : 0 ), "%lld scans", (long long)rd.GetData3DCount() );
                  CHECK( rd.GetImage2DCount() == images + ( done ? writes[c].newImages : 0 ), "%lld images", (long long)rd.GetImage2DCount() );
               } );
      nodeTypes( r );
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
      for ( const char *metadata : { "", "m", "a <b> & ]]> \xc3\xa4" } )
         r.test( [&] { return fmt( "simple deprecated constructors '%s'", metadata ); }, [&] {
            e57::Writer w( r.path( "s.e57" ), std::string( metadata ) );
            declareSimple( w );
            w.Close();
            e57::Reader rd( r.path( "s.e57" ) );
            e57::E57Root root;
            CHECK( rd.IsOpen() && rd.GetE57Root( root ) && rd.GetData3DCount() == scans, "not read" );
            CHECK( root.coordinateMetadata == metadata, "the metadata are '%s'", root.coordinateMetadata.c_str() );
         } );
#pragma GCC diagnostic pop
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();
   for ( int mode = Writing; mode <= ReadingMemory; ++mode )
      for ( int phase = Idle; phase <= ClosedWriter; ++phase )
      {
         if ( mode != Writing && ( phase == WriterOpen || phase == WriterDone || phase == ClosedWriter ) )
            continue;
         Calls all;
         std::string prepared = "ok";
         try
         {
            World w;
            build( w, r.scratch, static_cast<Mode>( mode ), static_cast<Phase>( phase ) );
            all = calls( r.scratch, w );
            w.f->cancel();
            w.other->cancel();
         }
         catch ( const e57::E57Exception &e )
         {
            prepared = fmt( "error %d (%s)", e.errorCode(), e.context().c_str() );
         }
         r.test( fmt( "%s, %s", modeName[mode], phaseName[phase] ), [&] { CHECK( prepared == "ok", "preparation: %s", prepared.c_str() ); } );
         for ( auto &c : all )
         {
            const bool needsWriter = c.name.compare( 0, 7, "writer." ) == 0, needsReader = c.name.compare( 0, 7, "reader." ) == 0;
            const bool hasWriter = phase == WriterOpen || phase == WriterDone || phase == ClosedWriter;
            const bool hasReader = phase == ReaderOpen || phase == ReaderDone || phase == ClosedReader;
            if ( ( needsWriter && !hasWriter ) || ( needsReader && !hasReader ) )
               continue;
            r.test( [&] { return fmt( "%s, %s: %s", modeName[mode], phaseName[phase], c.name.c_str() ); }, [&] {
               World w;
               build( w, r.scratch, static_cast<Mode>( mode ), static_cast<Phase>( phase ) );
               runCall( r, w, c );
               if ( w.f->isOpen() )
                  w.f->cancel();
               w.other->cancel();
            } );
         }
      }
   const auto simples = simpleCalls();
   for ( size_t c = 0; c < simples.size(); ++c )
      for ( int opened = 0; opened < 2; ++opened )
         for ( int64_t k : { int64_t( 0 ), int64_t( 1 ), int64_t( 2 ), int64_t( -1 ), INT64_MAX, INT64_MIN } )
            r.test( [&] { return fmt( "simple %s %lld %s", simples[c].name.c_str(), (long long)k, opened ? "open" : "closed" ); }, [&] {
               writeSimple( r.path( "s.e57" ) );
               e57::Reader rd( r.path( "s.e57" ), e57::ReaderOptions{} );
               if ( !opened )
                  rd.Close();
               bool done = false;
               r.transitions();
               try
               {
                  done = simples[c].call( rd, k );
               }
               catch ( const e57::E57Exception &e )
               {
                  checkError( e );
                  CHECK( !simples[c].possible( k, opened ), "error %d (%s)", e.errorCode(), e.context().c_str() );
                  CHECK( e.errorCode() == e57::ErrorImageFileNotOpen || e.errorCode() == e57::ErrorChildIndexOutOfBounds, "error %d (%s)",
                         e.errorCode(), e.context().c_str() );
               }
               CHECK( done == simples[c].possible( k, opened ), "the call %s", done ? "reports success" : "reports failure" );
            } );
   simpleWriter( r );
   r.test( "texts of errors", [&] {
      std::set<std::string> seen;
      for ( int code = e57::Success; code <= e57::ErrorBadInputDataSize; ++code )
      {
         const std::string t = e57::Utilities::errorCodeToString( static_cast<e57::ErrorCode>( code ) );
         CHECK( !t.empty() && seen.insert( t ).second, "error %d has the text '%s'", code, t.c_str() );
      }
      for ( int code : { -1, 58, 1000 } )
         CHECK( !seen.count( e57::Utilities::errorCodeToString( static_cast<e57::ErrorCode>( code ) ) ), "code %d has the text of another", code );
   } );
   r.test( "versions", [&] {
      int major = 0, minor = 9;
      uint32_t a = 0, b = 9;
      std::string id, id2;
      e57::Utilities::getVersions( major, minor, id );
      e57::Version::get( a, b, id2 );
      CHECK( major == 1 && minor == 0 && a == 1 && b == 0 && !id.empty() && id == id2 && id == e57::Version::library() &&
                e57::Version::astm() == "1.0" && e57::Version::astmMajor() == 1 && e57::Version::astmMinor() == 0,
             "the versions" );
   } );
}
