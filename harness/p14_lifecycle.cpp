// P14: objects follow their documented open and close life cycle.
//
// One image file (being written or being read) with up to two handles, two record writers, two
// record readers, a blob and some elements. A small model says what the documentation prescribes
// for every call in every state. The model's reachable states are enumerated completely and every
// call is made on the real library in each of them, then all call sequences of a bounded length are
// run. After every call everything that can be observed is compared with the model.
#include "ref57.hpp"

#include <xercesc/util/PlatformUtils.hpp>

#include <deque>

using namespace vh;

namespace
{
   enum Kind
   {
      Close,
      Cancel,
      Copy,
      Drop,
      Set,
      BlobWrite,
      BlobRead,
      Writer,
      Write,
      WriteNew,
      CloseW,
      DropW,
      Reader,
      Read,
      ReadNew,
      CloseR,
      DropR
   };
   struct Op
   {
      Kind k;
      int slot = 0, v = 0;
      std::string show() const
      {
         static const char *n[] = { "close",    "cancel", "copy",   "drop",   "set",  "blobwrite", "blobread", "writer", "write",
                                    "writenew", "closeW", "dropW", "reader", "read", "readnew",   "closeR",   "dropR" };
         std::string s = n[k];
         if ( k >= Writer )
            s += std::to_string( slot );
         if ( k == Writer || k == Reader )
            s += "v" + std::to_string( v );
         return s;
      }
   };
   using Seq = std::vector<Op>;
   std::string show( const Seq &s )
   {
      std::string r;
      for ( auto &o : s )
         r += ( r.empty() ? "" : " " ) + o.show();
      return r;
   }

   // What destroying an open writer does to its vector, and whether an empty vector that was never
   // written can be read, is found out once; then it has to be the same always.
   struct Policy
   {
      bool dropCommits = false;
      bool readsUnwritten = false;
   } policy;

   const int VECTORS = 3; // 0 and 1 are to be written; 2 has three records
   const size_t BLOCK = 2;
   const size_t BLOB = 40;

   struct Writer_
   {
      bool exists = false, open = false;
      int v = 0;
      std::vector<int64_t> pending;
   };
   struct Reader_
   {
      bool exists = false, open = false;
      int v = 0;
      size_t pos = 0;
   };
   struct Model
   {
      bool writing = true;
      int handles = 1;
      bool open = true, saved = false;
      bool written[VECTORS] = {};
      std::vector<int64_t> rec[VECTORS];
      Writer_ w[2];
      Reader_ r[2];
      int elements = 0, blobs = 0;
      int64_t next = 0;

      bool dead() const
      {
         return handles == 0;
      }
      int writers() const
      {
         return w[0].open + w[1].open;
      }
      int readers() const
      {
         return r[0].open + r[1].open;
      }
      std::string key() const
      {
         // what can still make a difference
         std::string s = fmt( "%d%d%d%d", writing, handles, open, saved );
         if ( open )
         {
            s += fmt( " e%d b%d", elements, blobs );
            for ( int i = 0; i < VECTORS; ++i )
               s += fmt( " v%d,%zu", written[i], rec[i].size() );
         }
         for ( auto &x : w )
            s += !x.exists ? " w-" : x.open && open ? fmt( " w,%d,%zu", x.v, x.pending.size() ) : x.open ? " w1" : " w0";
         for ( auto &x : r )
            s += !x.exists ? " r-" : x.open && open ? fmt( " r,%d,%zu", x.v, x.pos ) : x.open ? " r1" : " r0";
         return s;
      }
      void destroyFile()
      {
         open = false;
      }
   };

   // "few": without the calls that only multiply the number of states
   std::vector<Op> ops( const Model &m, bool few = false )
   {
      std::vector<Op> o;
      if ( m.handles )
      {
         o.push_back( { Close } );
         o.push_back( { Cancel } );
         o.push_back( { Drop } );
      }
      if ( m.handles == 1 )
         o.push_back( { Copy } );
      if ( m.elements < 1 && ( !few || !m.open || !m.writing ) )
         o.push_back( { Set } );
      if ( m.blobs < 1 && ( !few || !m.open || !m.writing ) )
         o.push_back( { BlobWrite } );
      o.push_back( { BlobRead } );
      for ( int s = 0; s < 2; ++s )
      {
         if ( !m.w[s].exists )
         {
            if ( s == 0 || m.w[0].exists )
               for ( int v = 0; v < VECTORS; ++v )
                  if ( v != 1 || m.written[0] || m.writers() || !m.writing )
                     o.push_back( { Writer, s, v } );
            continue;
         }
         if ( m.w[s].pending.size() < ( few ? 1 : 2 ) * BLOCK || !m.w[s].open || !m.open )
         {
            o.push_back( { Write, s } );
            o.push_back( { WriteNew, s } );
         }
         o.push_back( { CloseW, s } );
         o.push_back( { DropW, s } );
      }
      for ( int s = 0; s < 2; ++s )
      {
         if ( !m.r[s].exists )
         {
            if ( s == 0 || m.r[0].exists )
               for ( int v = 0; v < VECTORS; ++v )
                  if ( v != 1 || m.written[1] )
                     o.push_back( { Reader, s, v } );
            continue;
         }
         if ( !few || m.r[s].pos == 0 || !m.r[s].open || !m.open )
         {
            o.push_back( { Read, s } );
            o.push_back( { ReadNew, s } );
         }
         o.push_back( { CloseR, s } );
         o.push_back( { DropR, s } );
      }
      return o;
   }

   // Apply the call to the model; returns the results that are allowed. "throws" means any
   // exception of the standard library.
   using Allowed = std::set<std::string>;
   std::string code( int c )
   {
      return std::to_string( c );
   }
   const std::string OK = "ok", THROWS = "exception";
   Allowed step( Model &m, const Op &o, size_t &count )
   {
      count = 0;
      const std::string closed = m.dead() ? THROWS : code( e57::ErrorImageFileNotOpen );
      auto dropFile = [&] {
         if ( m.open )
            m.open = false;
      };
      switch ( o.k )
      {
         case Close:
            if ( m.open && m.writing )
               m.saved = true;
            m.open = false;
            return { OK };
         case Cancel:
            m.open = false;
            return { OK };
         case Copy:
            m.handles = 2;
            return { OK };
         case Drop:
            if ( --m.handles == 0 )
               dropFile();
            return { OK };
         case Set:
            if ( !m.open )
               return { closed };
            if ( !m.writing )
               return { code( e57::ErrorFileReadOnly ) };
            ++m.elements;
            return { OK };
         case BlobWrite:
            if ( !m.open )
               return { closed };
            if ( !m.writing )
               return { code( e57::ErrorFileReadOnly ) };
            ++m.blobs;
            return { OK };
         case BlobRead:
            return { m.open ? OK : closed };
         case Writer:
         {
            if ( !m.open )
               return { closed };
            Allowed a;
            if ( m.writers() )
               a.insert( code( e57::ErrorTooManyWriters ) );
            if ( m.readers() )
               a.insert( code( e57::ErrorTooManyReaders ) );
            if ( !m.writing )
               a.insert( code( e57::ErrorFileReadOnly ) );
            else if ( !m.rec[o.v].empty() )
               a.insert( code( e57::ErrorSetTwice ) );
            if ( !a.empty() )
               return a;
            m.w[o.slot] = { true, true, o.v, {} };
            return { OK };
         }
         case Write:
         case WriteNew:
         {
            auto &w = m.w[o.slot];
            Allowed a;
            if ( !m.open )
               a.insert( closed );
            if ( !w.open )
               a.insert( code( e57::ErrorWriterNotOpen ) );
            if ( !a.empty() )
               return a;
            for ( size_t i = 0; i < BLOCK; ++i )
               w.pending.push_back( m.next++ );
            return { OK };
         }
         case CloseW:
         {
            auto &w = m.w[o.slot];
            if ( !w.open )
               return m.open ? Allowed{ OK } : Allowed{ OK, closed };
            w.open = false;
            if ( !m.open )
               return { closed };
            m.rec[w.v] = w.pending;
            m.written[w.v] = true;
            return { OK };
         }
         case DropW:
         {
            auto &w = m.w[o.slot];
            if ( w.open && m.open && policy.dropCommits )
            {
               m.rec[w.v] = w.pending;
               m.written[w.v] = true;
            }
            w = {};
            return { OK };
         }
         case Reader:
         {
            if ( !m.open )
               return { closed };
            Allowed a;
            if ( m.writers() )
               a.insert( code( e57::ErrorTooManyWriters ) );
            if ( m.readers() )
               a.insert( code( e57::ErrorTooManyReaders ) );
            if ( !m.written[o.v] && !policy.readsUnwritten )
               a.insert( code( e57::ErrorData3DReadInvalidZeroRecords ) );
            if ( !a.empty() )
               return a;
            m.r[o.slot] = { true, true, o.v, 0 };
            return { OK };
         }
         case Read:
         case ReadNew:
         {
            auto &r = m.r[o.slot];
            Allowed a;
            if ( !m.open )
               a.insert( closed );
            if ( !r.open )
               a.insert( code( e57::ErrorReaderNotOpen ) );
            if ( !a.empty() )
               return a;
            count = std::min( BLOCK, m.rec[r.v].size() - r.pos );
            r.pos += count;
            return { OK };
         }
         case CloseR:
         {
            auto &r = m.r[o.slot];
            r.open = false;
            return m.dead() ? Allowed{ OK, THROWS } : Allowed{ OK };
         }
         case DropR:
            m.r[o.slot] = {};
            return { OK };
      }
      return {};
   }

   std::vector<uint8_t> blobBytes( int n )
   {
      return n ? m::pattern( BLOB, static_cast<unsigned>( n + 1 ) ) : std::vector<uint8_t>( BLOB, 0 );
   }
   std::string bytesOfSource; // the file that is read
   std::vector<char> source;
   m::N sourceDoc;

   m::N vector( const char *name, const std::vector<int64_t> &v )
   {
      std::vector<m::Col> cols;
      if ( !v.empty() )
      {
         m::Col c;
         c.path = "i";
         c.i = v;
         cols.push_back( c );
      }
      return m::cv( name, m::structure( "", { m::integer( "i", 0, 0, 1000 ) } ), cols );
   }
   const char *const names[VECTORS] = { "v0", "v1", "v2" };

   // The objects of the library
   struct World
   {
      std::unique_ptr<e57::ImageFile> f[2];
      std::unique_ptr<e57::CompressedVectorNode> v[VECTORS];
      std::unique_ptr<e57::BlobNode> b;
      std::unique_ptr<e57::StructureNode> root;
      std::unique_ptr<e57::CompressedVectorWriter> w[2];
      std::unique_ptr<e57::CompressedVectorReader> r[2];
      int64_t wb[2][2][BLOCK], rb[2][2][BLOCK];
      std::string path;

      World( const std::string &p, bool writing ) : path( p )
      {
         if ( writing )
         {
            f[0].reset( new e57::ImageFile( path, "w" ) );
            m::N doc = sourceDoc;
            root.reset( new e57::StructureNode( f[0]->root() ) );
            for ( int i = 0; i < VECTORS; ++i )
            {
               const m::N n = vector( names[i], i == 2 ? std::vector<int64_t>{ 501, 502, 503 } : std::vector<int64_t>{} );
               e57::Node x = m::create( *f[0], n );
               root->set( names[i], x );
               v[i].reset( new e57::CompressedVectorNode( x ) );
               if ( i == 2 )
                  m::writeBinary( x, *f[0], n );
            }
            b.reset( new e57::BlobNode( *f[0], BLOB ) );
            root->set( "b", *b );
         }
         else
         {
            f[0].reset( new e57::ImageFile( path, "r" ) );
            root.reset( new e57::StructureNode( f[0]->root() ) );
            for ( int i = 0; i < VECTORS; ++i )
               v[i].reset( new e57::CompressedVectorNode( root->get( names[i] ) ) );
            b.reset( new e57::BlobNode( root->get( "b" ) ) );
         }
      }
      e57::ImageFile *file()
      {
         return f[0] ? f[0].get() : f[1].get();
      }
   };

   template <class F> std::string attempt( F f )
   {
      try
      {
         f();
         return OK;
      }
      catch ( const e57::E57Exception &e )
      {
         return code( e.errorCode() );
      }
      catch ( const std::exception & )
      {
         return THROWS;
      }
   }

   size_t got; // records delivered by the last read
   int64_t nextValue;
   std::string perform( World &x, const Op &o, int elements, int blobs )
   {
      got = 0;
      // buffers are made while the file is open
      auto buffers = [&]( int64_t *p ) {
         std::vector<e57::SourceDestBuffer> d;
         d.emplace_back( x.v[0]->destImageFile(), "i", p, BLOCK );
         return d;
      };
      return attempt( [&] {
         switch ( o.k )
         {
            case Close:
               x.file()->close();
               break;
            case Cancel:
               x.file()->cancel();
               break;
            case Copy:
               if ( x.f[0] )
                  x.f[1].reset( new e57::ImageFile( *x.f[0] ) );
               else
                  x.f[0].reset( new e57::ImageFile( *x.f[1] ) );
               CHECK( *x.f[0] == *x.f[1] && !( *x.f[0] != *x.f[1] ), "a copy of the handle is another file" );
               break;
            case Drop:
               // the oldest handle
               if ( x.f[0] )
                  x.f[0].reset();
               else
                  x.f[1].reset();
               break;
            case Set:
               x.root->set( "e" + std::to_string( elements ), e57::IntegerNode( x.v[0]->destImageFile(), elements ) );
               break;
            case BlobWrite:
            {
               auto p = blobBytes( blobs + 1 );
               x.b->write( p.data(), 0, p.size() );
               break;
            }
            case BlobRead:
            {
               std::vector<uint8_t> p( BLOB );
               x.b->read( p.data(), 0, p.size() );
               CHECK( p == blobBytes( blobs ), "the blob has other bytes" );
               break;
            }
            case Writer:
            {
               auto d = buffers( x.wb[o.slot][0] );
               x.w[o.slot].reset( new e57::CompressedVectorWriter( x.v[o.v]->writer( d ) ) );
               break;
            }
            case Write:
               for ( auto &half : x.wb[o.slot] )
                  for ( size_t i = 0; i < BLOCK; ++i )
                     half[i] = nextValue + static_cast<int64_t>( i );
               x.w[o.slot]->write( BLOCK );
               break;
            case WriteNew:
            {
               for ( size_t i = 0; i < BLOCK; ++i )
                  x.wb[o.slot][1][i] = nextValue + static_cast<int64_t>( i );
               auto d = buffers( x.wb[o.slot][1] );
               x.w[o.slot]->write( d, BLOCK );
               break;
            }
            case CloseW:
               x.w[o.slot]->close();
               break;
            case DropW:
               x.w[o.slot].reset();
               break;
            case Reader:
            {
               auto d = buffers( x.rb[o.slot][0] );
               x.r[o.slot].reset( new e57::CompressedVectorReader( x.v[o.v]->reader( d ) ) );
               break;
            }
            case Read:
               for ( auto &half : x.rb[o.slot] )
                  for ( auto &e : half )
                     e = -1;
               got = x.r[o.slot]->read();
               break;
            case ReadNew:
            {
               for ( auto &half : x.rb[o.slot] )
                  for ( auto &e : half )
                     e = -1;
               auto d = buffers( x.rb[o.slot][1] );
               got = x.r[o.slot]->read( d );
               break;
            }
            case CloseR:
               x.r[o.slot]->close();
               break;
            case DropR:
               x.r[o.slot].reset();
               break;
         }
      } );
   }

   void expect( const std::string &what, const std::string &got, const Allowed &want )
   {
      if ( want.count( got ) )
         return;
      std::string w;
      for ( auto &s : want )
         w += ( w.empty() ? "" : " or " ) + s;
      fail( "%s: result is %s, should be %s", what.c_str(), got.c_str(), w.c_str() );
   }

   void observe( World &x, const Model &m )
   {
      const std::string notOpen = code( e57::ErrorImageFileNotOpen );
      for ( auto &f : x.f )
      {
         if ( !f )
            continue;
         CHECK( f->isOpen() == m.open, "isOpen() of the file is %d", f->isOpen() );
         CHECK( f->isWritable() == m.writing, "isWritable() is %d", f->isWritable() );
         CHECK( f->fileName() == x.path, "fileName() is %s", f->fileName().c_str() );
         int n = -1;
         expect( "writerCount()", attempt( [&] { n = f->writerCount(); } ), { m.open ? OK : notOpen } );
         CHECK( !m.open || n == m.writers(), "writerCount() is %d, %d writers are open", n, m.writers() );
         expect( "readerCount()", attempt( [&] { n = f->readerCount(); } ), { m.open ? OK : notOpen } );
         CHECK( !m.open || n == m.readers(), "readerCount() is %d, %d readers are open", n, m.readers() );
         expect( "root()", attempt( [&] { f->root(); } ), { m.open ? OK : notOpen } );
         expect( "checkInvariant() of the file", attempt( [&] { f->checkInvariant( false ); } ), { OK } );
      }
      // when the file is closed, isOpen() may also be refused
      for ( int i = 0; i < 2; ++i )
      {
         bool open = false;
         if ( x.w[i] )
         {
            const auto s = attempt( [&] { open = x.w[i]->isOpen(); } );
            expect( "isOpen() of the writer", s, m.open ? Allowed{ OK } : Allowed{ OK, m.dead() ? THROWS : notOpen } );
            CHECK( s != OK || open == m.w[i].open, "isOpen() of writer %d is %d", i, open );
            if ( !m.dead() )
               expect( "checkInvariant() of the writer", attempt( [&] { x.w[i]->checkInvariant(); } ), { OK } );
         }
         if ( x.r[i] )
         {
            const auto s = attempt( [&] { open = x.r[i]->isOpen(); } );
            expect( "isOpen() of the reader", s, m.open ? Allowed{ OK } : Allowed{ OK, m.dead() ? THROWS : notOpen } );
            CHECK( s != OK || open == m.r[i].open, "isOpen() of reader %d is %d", i, open );
            if ( !m.dead() )
               expect( "checkInvariant() of the reader", attempt( [&] { x.r[i]->checkInvariant(); } ), { OK } );
            if ( m.open )
               CHECK( e57::Node( x.r[i]->compressedVectorNode() ) == e57::Node( *x.v[m.r[i].v] ), "the reader is for another vector" );
         }
         if ( x.w[i] && m.open )
            CHECK( e57::Node( x.w[i]->compressedVectorNode() ) == e57::Node( *x.v[m.w[i].v] ), "the writer is for another vector" );
      }
      if ( m.dead() )
         return;
      for ( int i = 0; i < VECTORS; ++i )
      {
         int64_t n = -1;
         expect( "childCount() of the vector", attempt( [&] { n = x.v[i]->childCount(); } ), { m.open ? OK : notOpen } );
         if ( m.open )
            CHECK( n == static_cast<int64_t>( m.rec[i].size() ), "vector %d has %lld records, not %zu", i, (long long)n,
                   m.rec[i].size() );
         expect( "checkInvariant() of the vector", attempt( [&] { x.v[i]->checkInvariant( false ); } ), { OK } );
      }
      if ( m.open )
         CHECK( x.root->childCount() == ( m.writing ? VECTORS + 1 : static_cast<int>( sourceDoc.kids.size() ) ) + m.elements, "the root has %lld children", (long long)x.root->childCount() );
   }

   Model start( bool writing )
   {
      Model m;
      m.writing = writing;
      if ( writing )
      {
         m.rec[2] = { 501, 502, 503 };
         m.written[2] = true;
      }
      else
      {
         m.rec[0] = { 1, 2, 3, 4, 5 };
         m.rec[1] = { 9 };
         m.rec[2] = { 501, 502, 503 };
         m.written[0] = m.written[1] = m.written[2] = true;
      }
      return m;
   }

   // run one sequence on the library
   void play( Run &r, bool writing, const Seq &seq )
   {
      const std::string path = writing ? r.path( "w.e57" ) : r.path( "r.e57" );
      const int fds = Run::openDescriptors();
      Model m = start( writing );
      {
         World x( path, writing );
         for ( auto &o : seq )
         {
            nextValue = m.next;
            const int slot = o.slot;
            const auto result = perform( x, o, m.elements, m.blobs );
            const Reader_ before = m.r[slot];
            size_t count;
            const auto allowed = step( m, o, count );
            expect( o.show(), result, allowed );
            if ( ( o.k == Read || o.k == ReadNew ) && result == OK )
            {
               CHECK( got == count, "%s delivered %zu records, not %zu", o.show().c_str(), got, count );
               for ( size_t i = 0; i < count; ++i )
                  CHECK( std::max( x.rb[slot][0][i], x.rb[slot][1][i] ) == m.rec[before.v][before.pos + i], "record %zu is wrong",
                         before.pos + i );
            }
            observe( x, m );
            r.transitions();
            r.outcome( o.show() + " " + result );
         }
         // What is in the file?
         if ( writing )
         {
            if ( m.open )
            {
               for ( int i = 0; i < 2; ++i )
               {
                  size_t c;
                  x.w[i].reset();
                  step( m, { DropW, i }, c );
               }
               expect( "close", attempt( [&] { x.file()->close(); } ), { OK } );
               m.saved = true;
            }
         }
      }
      const int now = Run::openDescriptors();
      CHECK( now == fds, "%d descriptors are left open", now - fds );
      if ( !writing )
      {
         CHECK( m::slurp( path ) == source, "the file that was read changed" );
         return;
      }
      if ( !m.saved )
      {
         CHECK( !m::exists( path ), "the cancelled file is still there" );
         return;
      }
      std::vector<m::N> kids;
      for ( int i = 0; i < VECTORS; ++i )
         kids.push_back( vector( names[i], m.rec[i] ) );
      kids.push_back( m::blob( "b", blobBytes( m.blobs ) ) );
      for ( int i = 0; i < m.elements; ++i )
         kids.push_back( m::integer( "e" + std::to_string( i ), i ) );
      m::N back;
      try
      {
         back = ref::decode( m::slurp( path ) ).root;
      }
      catch ( const ref::Bad &b )
      {
         fail( "the file is not well formed: %s", b.msg.c_str() );
      }
      back.name = "";
      const auto d = m::diff( m::structure( "", kids ), back );
      CHECK( d.empty(), "the file has other content: %s", d.c_str() );
      remove( path.c_str() );
   }

   // every call that is documented to be refused when the file is not open
   void closedCalls( Run &r, bool writing, bool cancel )
   {
      const std::string path = writing ? r.path( "w.e57" ) : r.path( "r.e57" );
      {
         e57::ImageFile f( path, writing ? "w" : "r" );
         std::vector<m::N> kids = {
            m::integer( "int", 5 ),
            m::scaled( "sca", 5, 0, 10, 0.5, 1 ),
            m::real( "flo", 0.5 ),
            m::str( "str", "x" ),
            m::blob( "blo", m::pattern( 10 ) ),
            m::vec( "vec", true, { m::integer( "", 1 ) } ),
            m::structure( "stu", { m::integer( "a", 1 ) } ),
         };
         std::vector<m::N> more = kids;
         more.push_back( vector( "v2", { 1, 2, 3 } ) );
         if ( writing )
            m::writeDoc( f, m::structure( "", more ) );
         e57::StructureNode root = f.root();
         e57::IntegerNode in( root.get( "int" ) );
         e57::ScaledIntegerNode sc( root.get( "sca" ) );
         e57::FloatNode fl( root.get( "flo" ) );
         e57::StringNode st( root.get( "str" ) );
         e57::BlobNode bl( root.get( "blo" ) );
         e57::VectorNode ve( root.get( "vec" ) );
         e57::StructureNode su( root.get( "stu" ) );
         e57::CompressedVectorNode cv( root.get( "v2" ) );
         e57::Node any = root.get( "int" );
         int64_t data[3] = {};
         std::vector<e57::SourceDestBuffer> d;
         d.emplace_back( f, "i", data, 3 );
         std::unique_ptr<e57::CompressedVectorReader> rd( new e57::CompressedVectorReader( cv.reader( d ) ) );
         std::vector<e57::ustring> strings( 3 );
         std::vector<uint8_t> bytes( 10 );
         auto p = bytes.data();
         if ( cancel )
            f.cancel();
         else
            f.close();
         std::string s, t;
         const std::string notOpen = code( e57::ErrorImageFileNotOpen );
         struct Call
         {
            const char *name;
            std::function<void()> f;
         };
         const std::vector<Call> calls = {
            { "ImageFile::root", [&] { f.root(); } },
            { "ImageFile::writerCount", [&] { f.writerCount(); } },
            { "ImageFile::readerCount", [&] { f.readerCount(); } },
            { "ImageFile::extensionsAdd", [&] { f.extensionsAdd( "q", "http://q" ); } },
            { "ImageFile::extensionsLookupPrefix", [&] { f.extensionsLookupPrefix( "q" ); } },
            { "ImageFile::extensionsLookupPrefix/2", [&] { f.extensionsLookupPrefix( "q", s ); } },
            { "ImageFile::extensionsLookupUri", [&] { f.extensionsLookupUri( "q", s ); } },
            { "ImageFile::extensionsCount", [&] { f.extensionsCount(); } },
            { "ImageFile::extensionsPrefix", [&] { f.extensionsPrefix( 0 ); } },
            { "ImageFile::extensionsUri", [&] { f.extensionsUri( 0 ); } },
            { "Node::isRoot", [&] { any.isRoot(); } },
            { "Node::parent", [&] { any.parent(); } },
            { "Node::pathName", [&] { any.pathName(); } },
            { "Node::elementName", [&] { any.elementName(); } },
            { "Node::isAttached", [&] { any.isAttached(); } },
            { "StructureNode::isRoot", [&] { su.isRoot(); } },
            { "StructureNode::parent", [&] { su.parent(); } },
            { "VectorNode::pathName", [&] { ve.pathName(); } },
            { "CompressedVectorNode::elementName", [&] { cv.elementName(); } },
            { "BlobNode::isAttached", [&] { bl.isAttached(); } },
            { "IntegerNode::value", [&] { in.value(); } },
            { "IntegerNode::minimum", [&] { in.minimum(); } },
            { "IntegerNode::maximum", [&] { in.maximum(); } },
            { "ScaledIntegerNode::rawValue", [&] { sc.rawValue(); } },
            { "ScaledIntegerNode::scaledValue", [&] { sc.scaledValue(); } },
            { "ScaledIntegerNode::minimum", [&] { sc.minimum(); } },
            { "ScaledIntegerNode::scaledMinimum", [&] { sc.scaledMinimum(); } },
            { "ScaledIntegerNode::maximum", [&] { sc.maximum(); } },
            { "ScaledIntegerNode::scaledMaximum", [&] { sc.scaledMaximum(); } },
            { "ScaledIntegerNode::scale", [&] { sc.scale(); } },
            { "ScaledIntegerNode::offset", [&] { sc.offset(); } },
            { "FloatNode::value", [&] { fl.value(); } },
            { "FloatNode::precision", [&] { fl.precision(); } },
            { "FloatNode::minimum", [&] { fl.minimum(); } },
            { "FloatNode::maximum", [&] { fl.maximum(); } },
            { "StringNode::value", [&] { st.value(); } },
            { "BlobNode::byteCount", [&] { bl.byteCount(); } },
            { "BlobNode::read", [&] { bl.read( p, 0, 10 ); } },
            { "BlobNode::write", [&] { bl.write( p, 0, 10 ); } },
            { "StructureNode::childCount", [&] { su.childCount(); } },
            { "StructureNode::isDefined", [&] { su.isDefined( "a" ); } },
            { "StructureNode::get(0)", [&] { su.get( 0 ); } },
            { "StructureNode::get(a)", [&] { su.get( "a" ); } },
            { "StructureNode::set", [&] { su.set( "b", any ); } },
            { "VectorNode::allowHeteroChildren", [&] { ve.allowHeteroChildren(); } },
            { "VectorNode::childCount", [&] { ve.childCount(); } },
            { "VectorNode::isDefined", [&] { ve.isDefined( "0" ); } },
            { "VectorNode::get(0)", [&] { ve.get( 0 ); } },
            { "VectorNode::get('0')", [&] { ve.get( "0" ); } },
            { "VectorNode::append", [&] { ve.append( any ); } },
            { "CompressedVectorNode::childCount", [&] { cv.childCount(); } },
            { "CompressedVectorNode::prototype", [&] { cv.prototype(); } },
            { "CompressedVectorNode::codecs", [&] { cv.codecs(); } },
            { "CompressedVectorNode::reader", [&] { cv.reader( d ); } },
            { "CompressedVectorNode::writer", [&] { cv.writer( d ); } },
            { "CompressedVectorReader::read", [&] { rd->read(); } },
            { "CompressedVectorReader::read/1", [&] { rd->read( d ); } },
            { "CompressedVectorReader::seek", [&] { rd->seek( 0 ); } },
            { "IntegerNode()", [&] { e57::IntegerNode( f, 1 ); } },
            { "ScaledIntegerNode(int)", [&] { e57::ScaledIntegerNode( f, 1, 0, 2, 1, 0 ); } },
            { "ScaledIntegerNode(double)", [&] { e57::ScaledIntegerNode( f, 1.0, 0.0, 2.0, 1.0, 0.0 ); } },
            { "FloatNode()", [&] { e57::FloatNode( f, 1.0 ); } },
            { "StringNode()", [&] { e57::StringNode( f, "x" ); } },
            { "BlobNode()", [&] { e57::BlobNode( f, 10 ); } },
            { "StructureNode()", [&] { e57::StructureNode x( f ); } },
            { "VectorNode()", [&] { e57::VectorNode x( f, true ); } },
         };
         for ( auto &c : calls )
         {
            expect( c.name, attempt( c.f ), { notOpen } );
            r.transitions();
         }
         // and these are not
         expect( "isOpen", attempt( [&] { f.isOpen(); } ), { OK } );
         expect( "isWritable", attempt( [&] { f.isWritable(); } ), { OK } );
         expect( "fileName", attempt( [&] { f.fileName(); } ), { OK } );
         expect( "close", attempt( [&] { f.close(); } ), { OK } );
         expect( "cancel", attempt( [&] { f.cancel(); } ), { OK } );
         expect( "reader close", attempt( [&] { rd->close(); } ), { OK } );
         expect( "isElementNameExtended", attempt( [&] { f.isElementNameExtended( "a:b" ); } ), { OK } );
         expect( "elementNameParse", attempt( [&] { f.elementNameParse( "a:b", s, t ); } ), { OK } );
         expect( "type", attempt( [&] { any.type(); } ), { OK } );
         expect( "destImageFile", attempt( [&] { any.destImageFile(); } ), { OK } );
         expect( "checkInvariant", attempt( [&] { root.checkInvariant(); } ), { OK } );
         expect( "checkInvariant", attempt( [&] { f.checkInvariant(); } ), { OK } );
      }
      if ( writing )
      {
         CHECK( m::exists( path ) == !cancel, "the file exists: %d", m::exists( path ) );
         remove( path.c_str() );
      }
   }

   // all sequences of exactly "depth" calls that begin with "seq"
   void extend( Run &r, bool writing, Seq &seq, const Model &m, size_t depth )
   {
      if ( seq.size() == depth )
      {
         play( r, writing, seq );
         return;
      }
      const auto all = ops( m );
      for ( auto &o : all )
      {
         Model n = m;
         size_t c;
         nextValue = 0;
         step( n, o, c );
         seq.push_back( o );
         extend( r, writing, seq, n, depth );
         seq.pop_back();
      }
   }
   void prefixes( Run &r, bool writing, Seq &seq, const Model &m, size_t depth, size_t inner )
   {
      if ( seq.size() == depth - inner )
      {
         r.test( [&] { return fmt( "%s %zu after ", writing ? "w" : "r", depth ) + show( seq ); },
                 [&] {
                    Seq s = seq;
                    extend( r, writing, s, m, depth );
                 } );
         return;
      }
      for ( auto &o : ops( m ) )
      {
         Model n = m;
         size_t c;
         step( n, o, c );
         seq.push_back( o );
         prefixes( r, writing, seq, n, depth, inner );
         seq.pop_back();
      }
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();
   sourceDoc = m::structure( "", { vector( "v0", { 1, 2, 3, 4, 5 } ), vector( "v1", { 9 } ), vector( "v2", { 501, 502, 503 } ), m::blob( "b", blobBytes( 0 ) ) } );
   sourceDoc.kids.push_back( m::integer( "int", 5 ) );
   sourceDoc.kids.push_back( m::scaled( "sca", 5, 0, 10, 0.5, 1 ) );
   sourceDoc.kids.push_back( m::real( "flo", 0.5 ) );
   sourceDoc.kids.push_back( m::str( "str", "x" ) );
   sourceDoc.kids.push_back( m::blob( "blo", m::pattern( 10 ) ) );
   sourceDoc.kids.push_back( m::vec( "vec", true, { m::integer( "", 1 ) } ) );
   sourceDoc.kids.push_back( m::structure( "stu", { m::integer( "a", 1 ) } ) );
   {
      e57::ImageFile f( r.path( "r.e57" ), "w" );
      m::writeDoc( f, sourceDoc );
      f.close();
   }
   source = m::slurp( r.path( "r.e57" ) );
   {
      // what the documentation and the library leave open
      World x( r.path( "w.e57" ), true );
      int64_t data[BLOCK] = { 1, 2 };
      std::vector<e57::SourceDestBuffer> d;
      d.emplace_back( *x.f[0], "i", data, BLOCK );
      policy.readsUnwritten = attempt( [&] { x.v[1]->reader( d ); } ) == OK;
      {
         auto w = x.v[0]->writer( d );
         w.write( BLOCK );
      }
      policy.dropCommits = x.v[0]->childCount() > 0;
      r.count( policy.dropCommits ? "destroying an open writer keeps its records" : "destroying an open writer drops its records", 1 );
   }

   for ( const bool writing : { true, false } )
      for ( const bool cancel : { false, true } )
         r.test( fmt( "calls on a closed file, %s, %s", writing ? "written" : "read", cancel ? "cancel" : "close" ),
                 [&] { closedCalls( r, writing, cancel ); } );

   // every call in every reachable state, reached by a shortest sequence
   for ( const bool writing : { true, false } )
   {
      std::deque<std::pair<Model, Seq>> todo;
      std::set<std::string> seen;
      const Model first = start( writing );
      todo.emplace_back( first, Seq() );
      seen.insert( first.key() );
      while ( !todo.empty() )
      {
         const auto at = todo.front();
         todo.pop_front();
         const auto all = ops( at.first, true );
         r.test( [&] { return std::string( writing ? "w" : "r" ) + " state " + show( at.second ); },
                 [&] {
                    r.state( at.first.key() );
                    for ( auto &o : all )
                    {
                       Seq s = at.second;
                       s.push_back( o );
                       play( r, writing, s );
                    }
                 } );
         for ( auto &o : all )
         {
            Model n = at.first;
            size_t c;
            step( n, o, c );
            if ( seen.insert( n.key() ).second )
            {
               Seq s = at.second;
               s.push_back( o );
               todo.emplace_back( n, s );
            }
         }
      }
      r.count( writing ? "states of a file being written" : "states of a file being read", r.shard == 0 ? seen.size() : 0 );
   }

   // all sequences
   for ( const bool writing : { true, false } )
   {
      Seq s;
      prefixes( r, writing, s, start( writing ), r.thorough ? 5 : 4, 2 );
   }
}
