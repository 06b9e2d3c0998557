// P11: a failed read from storage never yields wrong data.
//
// Every operating-system call of every script of reads is made to fail in every way, one at a time,
// from then on, or in pairs. Whatever a call that succeeds delivers is compared with what it delivers
// when nothing fails.
#include "scenes.hpp"
#include "shim.hpp"

using namespace vh;

namespace
{
   struct Script
   {
      std::string scene;
      int way; // 0: small blocks, 1: large blocks, 2: Simple API
      int policy = e57::ChecksumPolicy::ChecksumAll;
      std::string id() const
      {
         return scene + "/" + std::to_string( way ) + ( policy == 100 ? "" : "/policy" + std::to_string( policy ) );
      }
   };
   struct Vec
   {
      std::string path;
      m::N proto;
      std::vector<m::Col> cols;
      size_t records;
   };
   struct Golden
   {
      m::N doc;
      std::vector<Vec> vectors;
      std::vector<std::pair<std::string, std::vector<uint8_t>>> blobs;
      std::vector<shim::Kind> calls;
   };
   void collect( const m::N &n, const std::string &path, Golden &g )
   {
      if ( n.type == m::T::CV )
         g.vectors.push_back( { path, n.kids[0], n.cols, n.cols.empty() ? 0 : n.cols[0].size() } );
      else if ( n.type == m::T::Blob )
         g.blobs.emplace_back( path, n.bytes );
      else
         for ( size_t i = 0; i < n.kids.size(); ++i )
            collect( n.kids[i], path + "/" + ( n.type == m::T::Vector ? std::to_string( i ) : n.kids[i].name ), g );
   }

   // An open reader over all fields of a vector, which checks what it gets
   struct Cursor
   {
      const Vec &v;
      size_t cap, at = 0;
      std::vector<std::unique_ptr<m::Buf>> bufs;
      std::vector<e57::SourceDestBuffer> sdb;
      std::unique_ptr<e57::CompressedVectorReader> rd;
      Cursor( const Vec &vec, size_t c ) : v( vec ), cap( c )
      {
      }
      void open( const e57::ImageFile &f )
      {
         sdb.clear();
         bufs.clear();
         for ( auto &c : v.cols )
         {
            bufs.emplace_back( new m::Buf( c.type == m::T::String ? e57::UString : c.type == m::T::Float ? e57::Real64 : e57::Int64, cap ) );
            sdb.push_back( bufs.back()->sdb( f, c.path, false, false ) );
         }
         e57::Node n = f.root().get( v.path );
         rd.reset( new e57::CompressedVectorReader( e57::CompressedVectorNode( n ).reader( sdb ) ) );
      }
      size_t read()
      {
         const size_t n = rd->read();
         CHECK( n == std::min( cap, v.records - at ), "%zu records instead of %zu at %zu of %zu", n, std::min( cap, v.records - at ),
                at, v.records );
         for ( size_t c = 0; c < v.cols.size(); ++c )
            for ( size_t i = 0; i < n; ++i )
            {
               auto &col = v.cols[c];
               if ( col.type == m::T::String )
                  CHECK( bufs[c]->strs[i] == col.s[at + i], "wrong string in record %zu of %s", at + i, col.path.c_str() );
               else if ( col.type == m::T::Float )
                  CHECK( m::sameDouble( bufs[c]->getReal( i ), col.d[at + i] ), "wrong value in record %zu of %s", at + i, col.path.c_str() );
               else
                  CHECK( bufs[c]->getInt( i ) == col.i[at + i], "wrong value in record %zu of %s", at + i, col.path.c_str() );
            }
         at += n;
         return n;
      }
   };

   struct Player
   {
      Run &r;
      const Golden &g;
      std::string path;
      bool retry;
      std::string log;
      int errors = 0;

      // Carry out a call; after an error repeat it if wanted. True when it succeeded.
      bool call( const char *what, const std::function<void()> &f )
      {
         r.transitions();
         std::string res = m::attempt( f );
         if ( res == "ok" )
            return true;
         ++errors;
         log += std::string( what ) + " " + res + " ";
         if ( !retry )
            return false;
         return m::attempt( f ) == "ok";
      }
      void blob( e57::ImageFile &f, const std::pair<std::string, std::vector<uint8_t>> &b )
      {
         const int64_t size = static_cast<int64_t>( b.second.size() );
         const int64_t parts[][2] = { { 0, size }, { size / 3, size / 2 }, { 0, 1 } };
         for ( auto &p : parts )
            call( "blob", [&] {
               e57::BlobNode n( f.root().get( b.first ) );
               std::vector<uint8_t> got( static_cast<size_t>( p[1] ) + 8, 0xA5 );
               n.read( got.data(), p[0], static_cast<size_t>( p[1] ) );
               for ( int64_t i = 0; i < p[1]; ++i )
                  CHECK( got[i] == b.second[p[0] + i], "wrong byte %lld of %s", (long long)( p[0] + i ), b.first.c_str() );
               for ( size_t i = static_cast<size_t>( p[1] ); i < got.size(); ++i )
                  CHECK( got[i] == 0xA5, "blob read went too far" );
            } );
      }
      void foundation( const Script &s )
      {
         std::unique_ptr<e57::ImageFile> f;
         if ( !call( "open", [&] { f.reset( new e57::ImageFile( path, "r", s.policy ) ); } ) )
            return;
         const std::string d = m::diff( g.doc, m::observeFile( *f, false ), false );
         CHECK( d.empty(), "wrong tree: %s", d.c_str() );
         for ( auto &b : g.blobs )
            blob( *f, b );
         auto readAll = [&]( Cursor &c ) {
            if ( !call( "reader", [&] { c.open( *f ); } ) )
               return;
            for ( ;; )
            {
               size_t n = 0;
               if ( !call( "read", [&] { n = c.read(); } ) || n == 0 )
                  break;
            }
            call( "reader close", [&] { c.rd->close(); } );
         };
         for ( auto &v : g.vectors )
         {
            {
               Cursor c( v, s.way == 0 ? 7 : 61 );
               readAll( c );
            }
            if ( errors )
            {
               // again with another reader
               Cursor again( v, 50 );
               readAll( again );
            }
         }
         for ( auto &b : g.blobs )
            if ( errors )
               blob( *f, b );
         call( "close", [&] { f->close(); } );
      }
      void simple( const Script &s )
      {
         e57::ReaderOptions options;
         options.checksumPolicy = s.policy;
         std::unique_ptr<e57::Reader> rd;
         if ( !call( "Reader", [&] { rd.reset( new e57::Reader( path, options ) ); } ) )
            return;
         e57::E57Root root;
         call( "GetE57Root", [&] {
            if ( rd->GetE57Root( root ) )
               CHECK( root.guid == "file", "wrong guid" );
         } );
         for ( int64_t i = 0; i < rd->GetData3DCount(); ++i )
         {
            e57::Data3D h;
            bool ok = false;
            call( "ReadData3D", [&] { ok = rd->ReadData3D( i, h ); } );
            if ( !ok )
               continue;
            CHECK( h.pointCount == 60 && h.guid == "scan", "wrong header" );
            std::unique_ptr<e57::Data3DPointsDouble> p( new e57::Data3DPointsDouble( h ) );
            std::unique_ptr<e57::CompressedVectorReader> cv;
            if ( !call( "SetUp", [&] { cv.reset( new e57::CompressedVectorReader( rd->SetUpData3DPointsData( i, 60, *p ) ) ); } ) )
               continue;
            call( "read", [&] {
               const unsigned n = cv->read();
               CHECK( n == 60, "%u points", n );
               for ( int k = 0; k < 60; ++k )
                  CHECK( p->cartesianX[k] == k && p->cartesianY[k] == 2 * k && p->cartesianZ[k] == 3 * k && p->colorBlue[k] == k,
                         "wrong point %d", k );
            } );
            call( "reader close", [&] { cv->close(); } );
         }
         for ( int64_t i = 0; i < rd->GetImage2DCount(); ++i )
         {
            e57::Image2D h;
            call( "ReadImage2D", [&] {
               if ( rd->ReadImage2D( i, h ) )
                  CHECK( h.guid == "image" && h.visualReferenceRepresentation.jpegImageSize == 1500, "wrong header" );
            } );
            call( "ReadImage2DData", [&] {
               std::vector<uint8_t> b( 1500 );
               const int64_t n = rd->ReadImage2DData( i, e57::ProjectionVisual, e57::ImageJPEG, b.data(), 0, 1500 );
               CHECK( n == 0 || n == 1500, "%lld bytes", (long long)n );
               if ( n )
                  CHECK( b == m::pattern( 1500 ), "wrong bytes" );
            } );
         }
         call( "Close", [&] { rd->Close(); } );
      }
   };

   std::vector<shim::Mode> modes( shim::Kind k )
   {
      if ( k == shim::Read )
         return { shim::Error, shim::Interrupted, shim::Short, shim::ShortOne, shim::ShortAllBut, shim::Zero };
      return { shim::Error };
   }

   void play( Run &r, const Golden &g, const Script &s, const std::string &file, bool retry, const std::function<void()> &arm )
   {
      auto once = [&] {
         shim::start( r.scratch );
         arm();
         Player p{ r, g, file, retry, {} };
         if ( s.way == 2 )
            p.simple( s );
         else
            p.foundation( s );
         shim::stop();
         CHECK( shim::leaked().empty(), "a descriptor was left open (%s)", p.log.c_str() );
         r.outcome( s.id() + " " + p.log );
         r.count( "runs" );
      };
      const int before = Run::openDescriptors();
      if ( r.thorough )
         r.noLeak( once );
      else
         once();
      CHECK( Run::openDescriptors() == before, "descriptors left open" );
   }
}

void vh::enumerate( Run &r )
{
   std::vector<Script> scripts;
   for ( auto n : scene::names() )
   {
      const std::string s = n;
      if ( s == "scan" || s == "image" )
         scripts.push_back( { s, 2 } );
      scripts.push_back( { s, 1 } );
      if ( s == "records" || s == "mixed" )
         scripts.push_back( { s, 0 } );
   }
   scripts.push_back( { "packets", 0 } );
   // without verification of checksums, which would notice that a page was not read completely
   const size_t verified = scripts.size();
   for ( size_t i = 0; i < verified; ++i )
      for ( int policy : { 0, 25 } )
         if ( policy == 0 || r.thorough )
         {
            scripts.push_back( scripts[i] );
            scripts.back().policy = policy;
         }
   for ( auto &s : scripts )
   {
      const std::string file = r.path( "in-" + s.scene + ".e57" );
      Golden g;
      {
         scene::Play p;
         p.path = file;
         scene::set( p, s.scene );
         for ( auto &st : p.steps )
            st.run();
      }
      {
         e57::ImageFile f( file, "r" );
         g.doc = m::observeFile( f );
         collect( g.doc, "", g );
         f.close();
      }
      play( r, g, s, file, false, [] {} );
      for ( auto &c : shim::calls() )
         g.calls.push_back( c.kind );
      const size_t n = g.calls.size();
      r.count( "calls of " + s.id(), n );
      for ( size_t k = 0; k < n; ++k )
         r.test( fmt( "%s: call %zu %s fails", s.id().c_str(), k, shim::kindName( g.calls[k] ) ), [&] {
            for ( auto mode : modes( g.calls[k] ) )
               for ( bool retry : { false, true } )
                  play( r, g, s, file, retry, [&] { shim::setFault( k, mode ); } );
         } );
      if ( s.policy != e57::ChecksumPolicy::ChecksumAll && !r.thorough )
         continue;
      for ( size_t k = 0; k < n; ++k )
         r.test( fmt( "%s: from call %zu on", s.id().c_str(), k ), [&] {
            for ( auto mode : modes( g.calls[k] ) )
               play( r, g, s, file, true, [&] { shim::setFaultFrom( k, g.calls[k], mode ); } );
         } );
      if ( n <= 150 || r.thorough )
         for ( size_t k = 0; k < n; ++k )
            r.test( fmt( "%s: call %zu and another", s.id().c_str(), k ), [&] {
               for ( size_t l = k + 1; l < std::min( n, k + ( r.thorough ? 40 : 10 ) ); ++l )
                  for ( auto mode : { shim::Error, shim::Short } )
                     play( r, g, s, file, true, [&] {
                        shim::setFault( k, shim::Error );
                        shim::setFault( l, mode );
                     } );
            } );
      // opening the file leaves nothing behind
      for ( size_t k = 0; k < std::min<size_t>( n, 60 ); ++k )
         r.test( fmt( "%s: memory after call %zu failed", s.id().c_str(), k ), [&] {
            r.noLeak( [&] {
               shim::start( r.scratch );
               shim::setFault( k, shim::Error );
               Player p{ r, g, file, false, {} };
               if ( s.way == 2 )
                  p.simple( s );
               else
                  p.foundation( s );
               shim::stop();
            } );
         } );
   }
}
