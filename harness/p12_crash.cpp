// P12: an unfinished file is never mistaken for a complete one.
//
// The writes of every history are recorded. What is on disk when the process stops after any of
// them, or within one of them, is put together and opened. Cancelling and destroying is done at
// every point of every history.
#include "scenes.hpp"
#include "shim.hpp"

#include <unistd.h>

using namespace vh;

namespace
{
   // Histories besides the named ones: all sequences of these parts
   const char parts[] = "bBvwtr";
   void compose( scene::Play &p, const std::string &seq )
   {
      p.open();
      size_t nodes = 0;
      std::vector<size_t> blobs, vectors;
      int count = 0;
      static const char *names[] = { "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7" };
      for ( char c : seq )
      {
         switch ( c )
         {
            case 'b': // a blob of two pages
               p.set( names[nodes], m::blob( "", std::vector<uint8_t>( 1300 ) ) );
               blobs.push_back( nodes++ );
               break;
            case 'B': // write part of all blobs there are
               for ( size_t b : blobs )
                  p.blob( b, 100 * count, m::pattern( 700, static_cast<unsigned>( 2 + count ) ) );
               ++count;
               break;
            case 'v':
               p.set( names[nodes], scene::Play::vectorNode() );
               vectors.push_back( nodes++ );
               p.vector( vectors.back(), { 2, 1 }, 60 );
               break;
            case 'w': // more than a packet
               p.set( names[nodes], scene::Play::vectorNode() );
               vectors.push_back( nodes++ );
               p.vector( vectors.back(), { 20 }, 400 );
               break;
            case 't':
               p.set( names[nodes++], m::str( "", std::string( 900, 't' ) ) );
               break;
            case 'r':
               p.set( names[nodes++], m::structure( "", { m::integer( "a", 1 ), m::real( "b", 0.1 ) } ) );
               break;
         }
      }
      p.close();
   }
   void setScene( scene::Play &p, const std::string &name )
   {
      if ( name[0] == '+' )
         compose( p, name.substr( 1 ) );
      else
         scene::set( p, name );
   }
   struct Recorded
   {
      std::vector<shim::Call> calls;
      std::vector<char> bytes;
      m::N doc;
      size_t steps = 0;
   };
   Recorded record( Run &r, const std::string &name )
   {
      Recorded g;
      const std::string file = r.path( "out.e57" );
      ::unlink( file.c_str() );
      shim::start( r.scratch, true );
      {
         scene::Play p;
         p.path = file;
         setScene( p, name );
         g.steps = p.steps.size();
         for ( auto &s : p.steps )
            s.run();
      }
      shim::stop();
      g.calls = shim::calls();
      g.bytes = m::slurp( file );
      e57::ImageFile f( file, "r" );
      g.doc = m::observeFile( f );
      f.close();
      return g;
   }
   // What opening this content gives must be an error or the finished document
   void judge( Run &r, const Recorded &g, const std::vector<char> &content, const std::string &where )
   {
      const std::string file = r.path( "crashed.e57" );
      m::spit( file, content );
      for ( auto policy : { 100, 0, 40 } )
      {
         const std::string res = m::attempt( [&] {
            e57::ImageFile f( file, "r", policy );
            const std::string d = m::diff( g.doc, m::observeFile( f ) );
            CHECK( d.empty(), "%s (policy %d): a file with other content can be read: %s", where.c_str(), policy, d.c_str() );
            f.close();
         } );
         r.outcome( where.substr( 0, where.find( ' ' ) ) + " " + res );
         r.count( "states opened" );
      }
   }
   void crashes( Run &r, const std::string &name, const Recorded &g )
   {
      // how much of the last write arrives
      std::vector<size_t> lengths = { 1, 47, 48, 49, 512, 1019, 1020, 1021, 1023 };
      size_t writes = 0;
      for ( auto &c : g.calls )
         writes += c.kind == shim::Write;
      size_t k = 0;
      std::vector<char> disk;
      auto put = [&]( const shim::Call &c, size_t n ) {
         std::vector<char> d = disk;
         if ( d.size() < static_cast<size_t>( c.offset ) + n )
            d.resize( static_cast<size_t>( c.offset ) + n );
         std::copy( c.data.begin(), c.data.begin() + static_cast<long>( n ), d.begin() + c.offset );
         return d;
      };
      for ( auto &c : g.calls )
      {
         if ( c.kind == shim::Trunc )
            fail( "unexpected truncation" );
         if ( c.kind != shim::Write )
            continue;
         const std::string at = fmt( "%s write %zu/%zu", name.c_str(), k, writes );
         if ( k == 0 )
            judge( r, g, disk, at + " before" );
         const bool last = k + 1 == writes;
         if ( last )
            for ( size_t n = 1; n < c.data.size(); n += ( r.thorough || name[0] != '+' || n < 56 ) ? 1 : 97 )
               judge( r, g, put( c, n ), at + fmt( " torn at %zu", n ) );
         else if ( r.thorough || name[0] != '+' || name.size() <= 3 )
            for ( size_t n : lengths )
               if ( n < c.data.size() )
                  judge( r, g, put( c, n ), at + fmt( " torn at %zu", n ) );
         disk = put( c, c.data.size() );
         judge( r, g, disk, at + " after" );
         ++k;
      }
      CHECK( disk == g.bytes, "the recorded writes do not make up the file" );
   }
   // Give up after each step, in each way; with "from" the system fails from that call on
   void giveUp( Run &r, const std::string &name, const Recorded &g, size_t from, size_t to )
   {
      const std::string file = r.path( "out.e57" );
      const bool simple = name == "scan" || name == "image";
      auto one = [&]( size_t steps, bool cancel, bool existing, const std::function<void()> &arm, const std::string &what ) {
         ::unlink( file.c_str() );
         if ( existing )
            m::spit( file, g.bytes );
         bool opened = false, closed = false;
         shim::start( r.scratch );
         arm();
         {
            scene::Play p;
            p.path = file;
            setScene( p, name );
            for ( size_t i = 0; i < steps; ++i )
               if ( m::attempt( p.steps[i].run ) != "ok" )
                  break;
               else if ( i == 0 )
                  opened = true;
               else if ( i + 1 == p.steps.size() )
                  closed = true;
            if ( cancel && p.f )
            {
               m::attempt( [&] { p.f->cancel(); } );
               CHECK( closed || !m::exists( file ), "%s: the file is still there after cancel", what.c_str() );
            }
         }
         shim::stop();
         CHECK( shim::leaked().empty(), "%s: a descriptor was left open", what.c_str() );
         r.transitions();
         if ( !opened )
            return;
         if ( closed )
            CHECK( m::exists( file ), "%s: the closed file is gone", what.c_str() );
         else if ( !simple )
            CHECK( !m::exists( file ), "%s: the file is still there", what.c_str() );
         else if ( m::exists( file ) )
            m::attempt( [&] { e57::ImageFile f( file, "r" ); } ); // the Simple API finishes the file when destroyed
      };
      for ( size_t n = 1; n <= ( from == 0 ? g.steps : 0 ); ++n )
         for ( bool cancel : { false, true } )
            for ( bool existing : { false, true } )
               one( n, cancel, existing, [] {}, fmt( "after %zu steps", n ) );
      for ( size_t k = from + 1; k < std::min( to, g.calls.size() ); ++k )
         {
            const auto kind = g.calls[k].kind;
            if ( kind == shim::Remove )
               continue;
            for ( bool cancel : { false, true } )
            {
               one( g.steps, cancel, false, [&] { shim::setFault( k, shim::Error ); }, fmt( "call %zu failed", k ) );
               one( g.steps, cancel, false, [&] { shim::setFaultFrom( k, kind, shim::Error ); }, fmt( "from call %zu on", k ) );
            }
         }
   }
}

void vh::enumerate( Run &r )
{
   std::vector<std::string> all( scene::names().begin(), scene::names().end() );
   std::vector<std::string> level = { "+" };
   for ( int d = 0; d < ( r.thorough ? 4 : 3 ); ++d )
   {
      std::vector<std::string> next;
      for ( auto &s : level )
         for ( const char *c = parts; *c; ++c )
            next.push_back( s + *c );
      all.insert( all.end(), next.begin(), next.end() );
      level = next;
   }
   for ( auto &name : all )
   {
      r.test( "crash " + name, [&] { crashes( r, name, record( r, name ) ); } );
      const bool deep = name[0] != '+' || name.size() <= 3 || r.thorough;
      r.test( "give up " + name, [&] { giveUp( r, name, record( r, name ), 0, deep ? 30 : 0 ); } );
      if ( deep )
      {
         const size_t calls = record( r, name ).calls.size();
         for ( size_t k = 29; k < calls; k += 30 )
            r.test( fmt( "give up %s from %zu", name.c_str(), k ), [&] { giveUp( r, name, record( r, name ), k, k + 31 ); } );
      }
   }
}
