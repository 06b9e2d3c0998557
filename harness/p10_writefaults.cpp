// P10: a failed write to storage never goes unnoticed.
//
// Every operating-system call of every history is made to fail in every way, one at a time, from
// then on, or together with the calls that clean up.
#include "ref57.hpp"
#include "scenes.hpp"
#include "shim.hpp"

#include <unistd.h>

using namespace vh;

namespace
{
   std::vector<shim::Mode> modes( shim::Kind k )
   {
      switch ( k )
      {
         case shim::Read:
            return { shim::Error, shim::Interrupted, shim::Short, shim::ShortOne, shim::ShortAllBut, shim::Zero };
         case shim::Write:
            return { shim::Error, shim::NoSpace, shim::Interrupted, shim::Short, shim::ShortOne, shim::ShortAllBut, shim::Zero };
         case shim::Close:
            return { shim::Error, shim::NoSpace };
         default:
            return { shim::Error };
      }
   }
   struct Golden
   {
      std::vector<char> bytes;
      m::N doc;
      std::vector<shim::Kind> calls;
   };
   const std::string file( Run &r )
   {
      return r.path( "out.e57" );
   }
   Golden golden( Run &r, const std::string &name )
   {
      Golden g;
      shim::start( r.scratch );
      {
         scene::Play p;
         p.path = file( r );
         scene::set( p, name );
         for ( auto &s : p.steps )
            s.run();
      }
      shim::stop();
      for ( auto &c : shim::calls() )
         g.calls.push_back( c.kind );
      g.bytes = m::slurp( file( r ) );
      e57::ImageFile f( file( r ), "r" );
      g.doc = m::observeFile( f );
      f.close();
      return g;
   }
   void correct( Run &r, const Golden &g, const std::string &what )
   {
      if ( m::slurp( file( r ) ) == g.bytes )
         return;
      try
      {
         e57::ImageFile f( file( r ), "r" );
         const std::string d = m::diff( g.doc, m::observeFile( f ) );
         CHECK( d.empty(), "%s, but the file differs: %s", what.c_str(), d.c_str() );
         f.close();
         ref::decode( m::slurp( file( r ) ) );
      }
      catch ( const e57::E57Exception &e )
      {
         fail( "%s, but the file cannot be read: error %d", what.c_str(), e.errorCode() );
      }
      catch ( const ref::Bad &b )
      {
         fail( "%s, but the file is not well formed: %s", what.c_str(), b.msg.c_str() );
      }
   }
   enum After
   {
      Close,
      Cancel,
      Destroy,
      Retry,
      NAfter
   };
   const char *afterName[] = { "close", "cancel", "destroy", "retry" };

   // Returns a description of what happened
   void play( Run &r, const Golden &g, const std::string &name, After after, const std::function<void()> &arm, bool transient )
   {
      ::unlink( file( r ).c_str() );
      const int before = Run::openDescriptors();
      bool reported = false, givenUp = false, finished = false;
      std::string where = "nothing";
      shim::start( r.scratch );
      arm();
      {
         scene::Play p;
         p.path = file( r );
         scene::set( p, name );
         for ( auto &s : p.steps )
         {
            std::string res = m::attempt( s.run );
            if ( res != "ok" )
            {
               reported = true;
               where = std::string( s.name ) + " " + res;
               if ( after == Retry && s.retry && transient )
                  res = m::attempt( s.run );
               if ( res != "ok" )
               {
                  givenUp = true;
                  break;
               }
            }
            r.transitions();
         }
         finished = !givenUp;
         if ( givenUp && p.cw && after != Destroy )
            m::attempt( [&] { p.cw->close(); } );
         if ( givenUp && p.f )
         {
            if ( after == Close )
            {
               m::attempt( [&] { p.f->close(); } );
               m::attempt( [&] { p.f->close(); } );
            }
            else if ( after == Cancel || after == Retry )
            {
               const std::string res = m::attempt( [&] { p.f->cancel(); } );
               CHECK( res == "ok" || shim::injected() > 1 || !transient, "cancel failed: %s", res.c_str() );
            }
         }
         else if ( givenUp && p.w && after == Close )
            m::attempt( [&] { p.w->Close(); } );
      }
      const uint64_t took = shim::injected();
      r.count( "runs" );
      shim::stop();
      CHECK( shim::leaked().empty(), "a descriptor was left open (%s)", where.c_str() );
      CHECK( Run::openDescriptors() == before, "%d descriptors instead of %d (%s)", Run::openDescriptors(), before, where.c_str() );
      r.outcome( name + " " + where + " " + afterName[after] + ( finished ? " finished" : "" ) );
      if ( !reported )
         correct( r, g, took ? "a call failed and no error was reported" : "no call failed" );
      else if ( finished )
         correct( r, g, "the failed call (" + where + ") was repeated with success" );
   }
}

void vh::enumerate( Run &r )
{
   for ( auto name : scene::names() )
   {
      const Golden g = golden( r, name );
      const size_t n = g.calls.size();
      // one call fails
      for ( size_t k = 0; k < n; ++k )
         r.test( fmt( "%s: call %zu %s fails", name, k, shim::kindName( g.calls[k] ) ), [&] {
            for ( auto mode : modes( g.calls[k] ) )
               for ( int a = 0; a < NAfter; ++a )
                  play( r, g, name, static_cast<After>( a ), [&] { shim::setFault( k, mode ); }, true );
         } );
      // from then on all calls of one kind fail
      for ( size_t k = 0; k < n; ++k )
         r.test( fmt( "%s: from call %zu on", name, k ), [&] {
            for ( auto kind : { shim::Read, shim::Write, shim::Seek, shim::Close } )
               if ( g.calls[k] == kind )
                  for ( int a = 0; a < Retry; ++a )
                     for ( auto mode : { shim::Error, shim::NoSpace, shim::Short } )
                        if ( mode == shim::Error || kind == shim::Write )
                           play( r, g, name, static_cast<After>( a ), [&] { shim::setFaultFrom( k, kind, mode ); }, false );
         } );
      // one call fails, and so does closing or removing the file afterwards
      for ( size_t k = 0; k < n; ++k )
         r.test( fmt( "%s: call %zu and the clean-up", name, k ), [&] {
            for ( auto kind : { shim::Close, shim::Remove } )
               for ( int a = 0; a < Retry; ++a )
                  play( r, g, name, static_cast<After>( a ),
                        [&] {
                           shim::setFault( k, shim::Error );
                           shim::setFaultFrom( k + 1, kind, shim::Error );
                        },
                        false );
         } );
      // two calls fail
      if ( n < 120 || r.thorough )
         for ( size_t k = 0; k < n; ++k )
            r.test( fmt( "%s: call %zu and another", name, k ), [&] {
               for ( size_t l = k + 1; l < std::min( n, k + ( r.thorough ? 40 : 12 ) ); ++l )
                  for ( int a = 0; a < NAfter; ++a )
                     play( r, g, name, static_cast<After>( a ),
                           [&] {
                              shim::setFault( k, shim::Error );
                              shim::setFault( l, shim::Error );
                           },
                           false );
            } );
      r.count( std::string( "calls of " ) + name, n );
   }
   // without verification of checksums, which would notice that a page was not read completely
   for ( std::string name : { "blob", "blobs", "records", "mixed", "longname" } )
   {
      name += "/0";
      const Golden g = golden( r, name );
      for ( size_t k = 0; k < g.calls.size(); ++k )
         if ( g.calls[k] == shim::Read )
            r.test( fmt( "%s: call %zu %s fails", name.c_str(), k, shim::kindName( g.calls[k] ) ), [&] {
               for ( auto mode : modes( g.calls[k] ) )
                  for ( int a = 0; a < NAfter; ++a )
                     play( r, g, name, static_cast<After>( a ), [&] { shim::setFault( k, mode ); }, true );
            } );
      r.count( "calls of " + name, g.calls.size() );
   }
}
