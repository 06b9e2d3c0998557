// P09: tree-building calls keep the element tree well formed.
//
// A pool of elements is given, and every call that puts one element into another. The reachable
// states of a small model of the rules are enumerated completely; in every state every call is made
// on the real library, and the result and the whole observable tree are compared with the model.
#include "trees.hpp"

#include <cmath>
#include <deque>
#include <set>
#include <unordered_map>

using namespace vh;

namespace
{
   struct El
   {
      m::N what;
      int file = 0;
      bool exists = true;
      int parent = -1;
      std::string name;
      std::vector<int> kids;
      bool used = false;           // as prototype or codecs
      int proto = -1, codecs = -1; // of a compressed vector
   };
   using Codes = std::set<int>;
   struct Op
   {
      enum
      {
         Set,
         Append,
         MakeCv
      } op;
      int target, node, codecs;
      std::string path;
      std::string show() const
      {
         return op == Set ? fmt( "%d.set(%s,%d)", target, path.c_str(), node )
                : op == Append ? fmt( "%d.append(%d)", target, node )
                               : fmt( "%d=cv(%d,%d)", target, node, codecs );
      }
   };
   const int ANY = -1;

   struct Model
   {
      std::vector<El> e;
      int top( int i ) const
      {
         while ( e[i].parent >= 0 )
            i = e[i].parent;
         return i;
      }
      bool isFileRoot( int i ) const
      {
         return e[i].name == "/";
      }
      bool attached( int i ) const
      {
         const int t = top( i );
         if ( isFileRoot( t ) )
            return true;
         for ( size_t c = 0; c < e.size(); ++c )
            if ( e[c].exists && ( e[c].proto == t || e[c].codecs == t ) )
               return attached( static_cast<int>( c ) );
         return false;
      }
      std::string path( int i ) const
      {
         std::string s;
         for ( ; e[i].parent >= 0; i = e[i].parent )
            s = "/" + e[i].name + s;
         return s.empty() ? "/" : s;
      }
      int child( int i, const std::string &n ) const
      {
         for ( int k : e[i].kids )
            if ( e[k].name == n )
               return k;
         return -1;
      }
      bool container( int i ) const
      {
         return e[i].what.type == m::T::Structure || e[i].what.type == m::T::Vector;
      }
      // identical in every visible characteristic except the values
      bool same( int a, int b ) const
      {
         const m::N &x = e[a].what, &y = e[b].what;
         if ( x.type != y.type )
            return false;
         switch ( x.type )
         {
            case m::T::Integer:
               return x.min == y.min && x.max == y.max;
            case m::T::Scaled:
               return x.min == y.min && x.max == y.max && x.scale == y.scale && x.offset == y.offset;
            case m::T::Float:
               return x.single == y.single && x.fmin == y.fmin && x.fmax == y.fmax;
            case m::T::String:
               return true;
            case m::T::Blob:
               return x.bytes.size() == y.bytes.size();
            case m::T::CV:
               return same( e[a].proto, e[b].proto ) && same( e[a].codecs, e[b].codecs );
            case m::T::Vector:
               if ( x.hetero != y.hetero || e[a].kids.size() != e[b].kids.size() )
                  return false;
               for ( size_t i = 0; i < e[a].kids.size(); ++i )
                  if ( !same( e[a].kids[i], e[b].kids[i] ) )
                     return false;
               return true;
            case m::T::Structure:
               if ( e[a].kids.size() != e[b].kids.size() )
                  return false;
               for ( int k : e[a].kids )
               {
                  const int o = child( b, e[k].name );
                  if ( o < 0 || !same( k, o ) )
                     return false;
               }
               return true;
         }
         return false;
      }
      bool constrained( int i ) const
      {
         for ( ; e[i].parent >= 0; )
         {
            i = e[i].parent;
            if ( e[i].what.type == m::T::Vector && !e[i].what.hetero && e[i].kids.size() > 1 )
               return true;
         }
         return e[i].used;
      }
      static bool number( const std::string &s )
      {
         return !s.empty() && s.find_first_not_of( "0123456789" ) == std::string::npos;
      }
      // errors of a name as such
      static void nameErrors( const std::string &s, Codes &c )
      {
         if ( s.empty() )
            c.insert( { e57::ErrorPathNameEmpty, e57::ErrorPathNameMalformed } );
         else if ( number( s ) )
            return;
         else if ( s.find( ':' ) != std::string::npos )
         {
            const size_t k = s.find( ':' );
            Codes in;
            for ( auto &part : { s.substr( 0, k ), s.substr( k + 1 ) } )
               if ( part.empty() || part.find_first_of( ": " ) != std::string::npos || isdigit( part[0] ) )
                  in.insert( e57::ErrorPathNameMalformed );
            // none of the prefixes is registered here
            in.insert( e57::ErrorPathNameExtensionNotRegistered );
            c.insert( in.begin(), in.end() );
         }
         else if ( s.find( ' ' ) != std::string::npos || isdigit( s[0] ) )
            c.insert( e57::ErrorPathNameMalformed );
      }
      static std::vector<std::string> split( const std::string &p, bool &absolute )
      {
         std::vector<std::string> f;
         absolute = !p.empty() && p[0] == '/';
         size_t at = absolute ? 1 : 0;
         if ( at == p.size() )
            return f;
         for ( ;; )
         {
            const size_t k = p.find( '/', at );
            if ( k == std::string::npos )
            {
               f.push_back( p.substr( at ) );
               return f;
            }
            f.push_back( p.substr( at, k - at ) );
            at = k + 1;
         }
      }
      bool below( int i, int ancestor ) const
      {
         for ( ; i >= 0; i = e[i].parent )
            if ( i == ancestor )
               return true;
         return false;
      }
      // rules for making "node" a child of "into"
      void placeErrors( int into, const std::string &name, int node, Codes &c ) const
      {
         if ( child( into, name ) >= 0 )
            c.insert( e57::ErrorSetTwice );
         if ( e[into].what.type == m::T::Vector ? name != std::to_string( e[into].kids.size() ) : number( name ) )
            c.insert( ANY );
         if ( e[node].parent >= 0 || attached( node ) || e[node].used || below( into, node ) )
            c.insert( e57::ErrorAlreadyHasParent );
         if ( e[node].file != e[into].file )
            c.insert( e57::ErrorDifferentDestImageFile );
         if ( constrained( into ) )
            c.insert( e57::ErrorHomogeneousViolation );
         if ( e[into].what.type == m::T::Vector && !e[into].what.hetero )
            for ( int k : e[into].kids )
               if ( !same( k, node ) )
                  c.insert( e57::ErrorHomogeneousViolation );
      }
      void place( int into, const std::string &name, int node )
      {
         e[node].parent = into;
         e[node].name = name;
         e[into].kids.push_back( node );
      }
      bool hasBinary( int i ) const
      {
         if ( e[i].what.type == m::T::Blob || e[i].what.type == m::T::CV )
            return true;
         for ( int k : e[i].kids )
            if ( hasBinary( k ) )
               return true;
         return false;
      }
      // Can the call be made at all (its objects exist)?
      bool possible( const Op &o ) const
      {
         switch ( o.op )
         {
            case Op::Set:
            case Op::Append:
               return e[o.target].exists && e[o.node].exists;
            default:
               // one prototype or codecs for two vectors: not claimed
               return !e[o.target].exists && e[o.node].exists && e[o.codecs].exists && !e[o.node].used && !e[o.codecs].used && o.node != o.codecs;
         }
      }
      // The rules: acceptable errors, empty if the call must succeed (and is then carried out)
      Codes apply( const Op &o )
      {
         Codes c;
         if ( o.op == Op::Append )
         {
            placeErrors( o.target, std::to_string( e[o.target].kids.size() ), o.node, c );
            if ( c.empty() )
               place( o.target, std::to_string( e[o.target].kids.size() ), o.node );
            return c;
         }
         if ( o.op == Op::MakeCv )
         {
            for ( int i : { o.node, o.codecs } )
            {
               if ( e[i].parent >= 0 || attached( i ) || e[i].used )
                  c.insert( e57::ErrorAlreadyHasParent );
               if ( e[i].file != e[o.target].file )
                  c.insert( e57::ErrorDifferentDestImageFile );
            }
            if ( o.node == o.codecs )
               c.insert( ANY );
            if ( hasBinary( o.node ) )
               c.insert( e57::ErrorBadPrototype );
            if ( c.empty() )
            {
               e[o.target].exists = true;
               e[o.target].proto = o.node;
               e[o.target].codecs = o.codecs;
               e[o.node].used = e[o.codecs].used = true;
            }
            return c;
         }
         bool absolute;
         const auto f = split( o.path, absolute );
         if ( f.empty() )
         {
            c.insert( absolute ? e57::ErrorSetTwice : e57::ErrorPathNameEmpty );
            return c;
         }
         for ( auto &s : f )
            nameErrors( s, c );
         int at = absolute ? top( o.target ) : o.target;
         if ( !container( at ) )
         {
            c.insert( ANY );
            return c;
         }
         for ( size_t i = 0; i + 1 < f.size(); ++i )
         {
            const int k = child( at, f[i] );
            if ( k < 0 )
            {
               c.insert( e57::ErrorPathUndefined );
               if ( constrained( at ) )
                  c.insert( e57::ErrorHomogeneousViolation );
               return c;
            }
            if ( !container( k ) )
            {
               c.insert( ANY );
               return c;
            }
            at = k;
         }
         placeErrors( at, f.back(), o.node, c );
         if ( c.empty() )
            place( at, f.back(), o.node );
         return c;
      }
      std::string key() const
      {
         std::string s;
         for ( auto &x : e )
         {
            s += x.exists ? ( x.used ? "u" : "e" ) : "-";
            s += std::to_string( x.parent ) + x.name + "(";
            for ( int k : x.kids )
               s += std::to_string( k ) + ",";
            s += ")" + std::to_string( x.proto ) + "," + std::to_string( x.codecs ) + ";";
         }
         return s;
      }
      m::N tree( int i, bool inVector = false ) const
      {
         m::N n = e[i].what;
         n.name = inVector || e[i].parent < 0 ? "" : e[i].name;
         if ( n.type == m::T::CV )
         {
            n.kids = { tree( e[i].proto ), tree( e[i].codecs ) };
            return n;
         }
         n.kids.clear();
         for ( int k : e[i].kids )
            n.kids.push_back( tree( k, n.type == m::T::Vector ) );
         return n;
      }
   };

   // The same pool in the real library
   struct World
   {
      std::vector<std::unique_ptr<e57::ImageFile>> files;
      std::vector<std::unique_ptr<e57::Node>> n;
      std::vector<std::string> paths;

      World( Run &r, const Model &m )
      {
         int count = 1;
         for ( auto &x : m.e )
            count = std::max( count, x.file + 1 );
         for ( int i = 0; i < count; ++i )
         {
            paths.push_back( r.path( fmt( "f%d.e57", i ) ) );
            files.emplace_back( new e57::ImageFile( paths.back(), "w" ) );
         }
         for ( size_t i = 0; i < m.e.size(); ++i )
         {
            auto &x = m.e[i];
            if ( !x.exists )
               n.emplace_back();
            else if ( m.isFileRoot( static_cast<int>( i ) ) )
               n.emplace_back( new e57::Node( files[x.file]->root() ) );
            else
               n.emplace_back( new e57::Node( m::create( *files[x.file], x.what ) ) );
         }
      }
      std::string apply( const Op &o )
      {
         return m::attempt( [&] {
            if ( o.op == Op::Set )
            {
               e57::StructureNode s( *n[o.target] );
               s.set( o.path, *n[o.node] );
            }
            else if ( o.op == Op::Append )
            {
               e57::VectorNode v( *n[o.target] );
               v.append( *n[o.node] );
            }
            else
               n[o.target].reset( new e57::Node( e57::CompressedVectorNode(
                  n[o.node]->destImageFile(), *n[o.node], e57::VectorNode( *n[o.codecs] ) ) ) );
         } );
      }
      void verify( const Model &m )
      {
         for ( size_t i = 0; i < m.e.size(); ++i )
         {
            auto &x = m.e[i];
            if ( !x.exists )
               continue;
            const int self = static_cast<int>( i );
            e57::Node &nd = *n[i];
            const bool root = x.parent < 0;
            CHECK( nd.isRoot() == root, "element %zu: isRoot %d", i, nd.isRoot() );
            CHECK( nd.parent() == ( root ? nd : *n[x.parent] ), "element %zu: wrong parent", i );
            CHECK( nd.elementName() == ( root ? "" : x.name ), "element %zu: name '%s' instead of '%s'", i,
                   nd.elementName().c_str(), x.name.c_str() );
            CHECK( nd.pathName() == m.path( self ), "element %zu: path '%s' instead of '%s'", i,
                   nd.pathName().c_str(), m.path( self ).c_str() );
            CHECK( nd.isAttached() == m.attached( self ), "element %zu: isAttached is %d", i, nd.isAttached() );
            CHECK( nd.destImageFile() == *files[x.file], "element %zu: other file", i );
            auto kids = [&]( auto &c ) {
               CHECK( c.childCount() == static_cast<int64_t>( x.kids.size() ), "element %zu: %lld children instead of %zu",
                      i, (long long)c.childCount(), x.kids.size() );
               for ( size_t k = 0; k < x.kids.size(); ++k )
               {
                  auto &kn = *n[x.kids[k]];
                  const auto &name = m.e[x.kids[k]].name;
                  CHECK( c.get( static_cast<int64_t>( k ) ) == kn, "element %zu: child %zu is another element", i, k );
                  CHECK( c.isDefined( name ), "element %zu: child '%s' not defined", i, name.c_str() );
                  CHECK( c.get( name ) == kn, "element %zu: child '%s' is another element", i, name.c_str() );
                  CHECK( c.get( m.path( x.kids[k] ) ) == kn, "element %zu: path %s is another element", i,
                         m.path( x.kids[k] ).c_str() );
               }
               CHECK( !c.isDefined( "zz" ), "element %zu: zz defined", i );
               for ( int64_t bad : { int64_t( -1 ), static_cast<int64_t>( x.kids.size() ), INT64_MAX, INT64_MIN } )
               {
                  const std::string res = m::attempt( [&] { c.get( bad ); } );
                  CHECK( res == std::to_string( e57::ErrorChildIndexOutOfBounds ), "element %zu: get(%lld) gives %s", i,
                         (long long)bad, res.c_str() );
               }
            };
            if ( x.what.type == m::T::Structure )
            {
               e57::StructureNode s( nd );
               kids( s );
            }
            else if ( x.what.type == m::T::Vector )
            {
               e57::VectorNode v( nd );
               kids( v );
            }
            else if ( x.what.type == m::T::CV )
            {
               e57::CompressedVectorNode c( nd );
               CHECK( c.prototype() == *n[x.proto], "element %zu: other prototype", i );
               CHECK( static_cast<e57::Node>( c.codecs() ) == *n[x.codecs], "element %zu: other codecs", i );
            }
            if ( root )
               nd.checkInvariant( true, true );
         }
      }
      void closeAndCompare( const Model &m )
      {
         for ( size_t f = 0; f < files.size(); ++f )
         {
            files[f]->close();
            e57::ImageFile g( paths[f], "r" );
            const std::string d = m::diff( m.tree( static_cast<int>( f ) ), m::observeFile( g, false ), false );
            CHECK( d.empty(), "the file has another tree: %s", d.c_str() );
            g.root().checkInvariant( true, true );
            g.close();
         }
      }
   };

   std::string codes( const Codes &c )
   {
      std::string s;
      for ( int x : c )
         s += ( s.empty() ? "" : "," ) + ( x == ANY ? std::string( "any" ) : std::to_string( x ) );
      return s;
   }
   bool matches( const std::string &got, const Codes &want )
   {
      if ( want.empty() || got == "ok" )
         return want.empty() && got == "ok";
      return want.count( ANY ) || want.count( std::stoi( got ) );
   }

   struct Config
   {
      std::string name;
      Model start;
      std::vector<Op> ops;
   };

   // Everything in one state: all refused calls one after the other, then each accepted one
   void visit( Run &r, const Config &c, const std::vector<int> &path )
   {
      Model m = c.start;
      World w( r, m );
      auto step = [&]( World &world, Model &mod, const Op &o, bool check ) {
         Model after = mod;
         const Codes want = after.apply( o );
         const std::string got = world.apply( o );
         CHECK( matches( got, want ), "%s: %s instead of %s", o.show().c_str(), got.c_str(),
                want.empty() ? "success" : codes( want ).c_str() );
         mod = after;
         if ( check )
            world.verify( mod );
         return want.empty();
      };
      // at every step on the way, all the calls that are to be refused are tried as well
      for ( size_t i = 0; i <= path.size(); ++i )
      {
         for ( auto &o : c.ops )
         {
            Model probe = m;
            if ( !m.possible( o ) || probe.apply( o ).empty() )
               continue;
            step( w, m, o, i == path.size() );
            r.transitions();
         }
         if ( i < path.size() )
            step( w, m, c.ops[path[i]], i + 1 == path.size() );
      }
      w.verify( m );
      r.state( c.name + m.key() );
      r.outcome( c.name + m.key() );
      w.closeAndCompare( m );
      for ( auto &o : c.ops )
      {
         Model probe = m;
         if ( !m.possible( o ) || !probe.apply( o ).empty() )
            continue;
         Model m2 = c.start;
         World w2( r, m2 );
         for ( int k : path )
            step( w2, m2, c.ops[k], false );
         step( w2, m2, o, true );
         r.transitions();
      }
   }

   void explore( Run &r, const Config &c, size_t limit )
   {
      // breadth-first search of the model alone
      std::unordered_map<std::string, int> seen;
      std::deque<std::pair<Model, std::vector<int>>> todo;
      todo.emplace_back( c.start, std::vector<int>{} );
      seen[c.start.key()] = 1;
      size_t states = 0;
      while ( !todo.empty() )
      {
         auto cur = todo.front();
         todo.pop_front();
         ++states;
         r.test( [&] {
            std::string s = c.name + ":";
            for ( int k : cur.second )
               s += " " + c.ops[k].show();
            return s;
         },
                 [&] { visit( r, c, cur.second ); } );
         if ( cur.second.size() >= limit )
            continue;
         for ( size_t k = 0; k < c.ops.size(); ++k )
         {
            if ( !cur.first.possible( c.ops[k] ) )
               continue;
            Model next = cur.first;
            if ( !next.apply( c.ops[k] ).empty() )
               continue;
            if ( seen.emplace( next.key(), 1 ).second )
            {
               auto p = cur.second;
               p.push_back( static_cast<int>( k ) );
               todo.emplace_back( next, p );
            }
         }
      }
   }

   El el( const m::N &n, int file = 0 )
   {
      El x;
      x.what = n;
      x.file = file;
      return x;
   }
   El fileRoot( int file )
   {
      El x = el( m::structure( "" ), file );
      x.name = "/";
      return x;
   }
   void sets( Config &c, std::vector<int> targets, std::vector<std::string> paths, std::vector<int> nodes )
   {
      for ( int t : targets )
         for ( auto &p : paths )
            for ( int n : nodes )
               c.ops.push_back( { Op::Set, t, n, 0, p } );
   }
   void appends( Config &c, std::vector<int> targets, std::vector<int> nodes )
   {
      for ( int t : targets )
         for ( int n : nodes )
            c.ops.push_back( { Op::Append, t, n, 0, "" } );
   }

   // ---- homogeneity: every pair of descriptions ----
   std::vector<std::pair<std::string, m::N>> descriptions()
   {
      std::vector<std::pair<std::string, m::N>> v;
      auto add = [&]( const std::string &id, const m::N &n ) { v.emplace_back( id, n ); };
      add( "i", m::integer( "", 1, 0, 9 ) );
      add( "i-value", m::integer( "", 2, 0, 9 ) );
      add( "i-min", m::integer( "", 1, -1, 9 ) );
      add( "i-max", m::integer( "", 1, 0, 10 ) );
      add( "s", m::scaled( "", 1, 0, 9, 0.5, 1 ) );
      add( "s-value", m::scaled( "", 2, 0, 9, 0.5, 1 ) );
      add( "s-min", m::scaled( "", 1, -1, 9, 0.5, 1 ) );
      add( "s-max", m::scaled( "", 1, 0, 10, 0.5, 1 ) );
      add( "s-scale", m::scaled( "", 1, 0, 9, 0.25, 1 ) );
      add( "s-offset", m::scaled( "", 1, 0, 9, 0.5, 2 ) );
      add( "f", m::real( "", 1, false, 0, 9 ) );
      add( "f-value", m::real( "", 2, false, 0, 9 ) );
      add( "f-min", m::real( "", 1, false, -1, 9 ) );
      add( "f-max", m::real( "", 1, false, 0, 10 ) );
      add( "f-single", m::real( "", 1, true, 0, 9 ) );
      add( "t", m::str( "", "x" ) );
      add( "t-value", m::str( "", "yyy" ) );
      add( "b", m::blob( "", m::pattern( 5 ) ) );
      add( "b-value", m::blob( "", m::pattern( 5, 7 ) ) );
      add( "b-size", m::blob( "", m::pattern( 6 ) ) );
      add( "{}", m::structure( "" ) );
      add( "{a}", m::structure( "", { m::integer( "a", 1, 0, 9 ) } ) );
      add( "{a-value}", m::structure( "", { m::integer( "a", 2, 0, 9 ) } ) );
      add( "{a-max}", m::structure( "", { m::integer( "a", 1, 0, 8 ) } ) );
      add( "{b}", m::structure( "", { m::integer( "b", 1, 0, 9 ) } ) );
      add( "{ab}", m::structure( "", { m::integer( "a", 1, 0, 9 ), m::str( "b" ) } ) );
      add( "{ba}", m::structure( "", { m::str( "b" ), m::integer( "a", 1, 0, 9 ) } ) );
      add( "{ac}", m::structure( "", { m::integer( "a", 1, 0, 9 ), m::str( "c" ) } ) );
      add( "{a{}}", m::structure( "", { m::structure( "a" ) } ) );
      add( "{a{b}}", m::structure( "", { m::structure( "a", { m::integer( "b", 1, 0, 9 ) } ) } ) );
      add( "{a{b-max}}", m::structure( "", { m::structure( "a", { m::integer( "b", 1, 0, 8 ) } ) } ) );
      add( "[]", m::vec( "", false ) );
      add( "<>", m::vec( "", true ) );
      add( "[i]", m::vec( "", false, { m::integer( "", 1, 0, 9 ) } ) );
      add( "[i-value]", m::vec( "", false, { m::integer( "", 3, 0, 9 ) } ) );
      add( "[i-max]", m::vec( "", false, { m::integer( "", 1, 0, 8 ) } ) );
      add( "[ii]", m::vec( "", false, { m::integer( "", 1, 0, 9 ), m::integer( "", 2, 0, 9 ) } ) );
      add( "<i>", m::vec( "", true, { m::integer( "", 1, 0, 9 ) } ) );
      add( "<it>", m::vec( "", true, { m::integer( "", 1, 0, 9 ), m::str( "" ) } ) );
      add( "<ti>", m::vec( "", true, { m::str( "" ), m::integer( "", 1, 0, 9 ) } ) );
      add( "c", m::cv( "", m::structure( "", { m::integer( "a", 1, 0, 9 ) } ) ) );
      add( "c-proto", m::cv( "", m::structure( "", { m::integer( "a", 1, 0, 8 ) } ) ) );
      add( "c-name", m::cv( "", m::structure( "", { m::integer( "b", 1, 0, 9 ) } ) ) );
      add( "{a<it>}", m::structure( "", { m::vec( "a", true, { m::integer( "", 1, 0, 9 ), m::str( "" ) } ) } ) );
      add( "{a<ti>}", m::structure( "", { m::vec( "a", true, { m::str( "" ), m::integer( "", 1, 0, 9 ) } ) } ) );
      return v;
   }
   bool alike( const m::N &x, const m::N &y )
   {
      if ( x.type != y.type || x.kids.size() != y.kids.size() )
         return false;
      if ( x.type == m::T::Structure )
      {
         for ( auto &k : x.kids )
         {
            bool found = false;
            for ( auto &l : y.kids )
               found = found || ( l.name == k.name && alike( k, l ) );
            if ( !found )
               return false;
         }
         return true;
      }
      for ( size_t i = 0; i < x.kids.size(); ++i )
         if ( !alike( x.kids[i], y.kids[i] ) )
            return false;
      return x.min == y.min && x.max == y.max && x.scale == y.scale && x.offset == y.offset && x.single == y.single &&
             x.fmin == y.fmin && x.fmax == y.fmax && x.hetero == y.hetero && x.bytes.size() == y.bytes.size();
   }
   // All attributes of numbers with neighbouring and extreme values
   std::vector<std::vector<m::N>> grids()
   {
      std::vector<std::vector<m::N>> all( 3 );
      for ( int64_t lo : { INT64_MIN, INT64_MIN + 1, int64_t( -1 ), int64_t( 0 ) } )
         for ( int64_t hi : { int64_t( 5 ), int64_t( 6 ), INT64_MAX - 1, INT64_MAX } )
         {
            all[0].push_back( m::integer( "", 1 + all[0].size() % 4, lo, hi ) );
            if ( ( lo == 0 || lo == INT64_MIN ) && ( hi == 5 || hi == INT64_MAX ) )
               for ( double scale : { 1.0, 0.5, std::nextafter( 0.5, 1 ), -1.0, 1e-9 } )
                  for ( double offset : { 0.0, 1.0, std::nextafter( 1.0, 2 ), -1e9 } )
                     all[1].push_back( m::scaled( "", 1 + all[1].size() % 4, lo, hi, scale, offset ) );
         }
      for ( int single = 0; single < 2; ++single )
         for ( double lo : { -double( std::numeric_limits<float>::max() ), -1.0, 0.0 } )
            for ( double hi : { 5.0, double( std::nextafter( 5.0f, 6.0f ) ), double( std::numeric_limits<float>::max() ) } )
               all[2].push_back( m::real( "", 1 + all[2].size() % 4, single, lo, hi ) );
      return all;
   }
   void gridPairs( Run &r )
   {
      for ( auto &grid : grids() )
         for ( size_t i = 0; i < grid.size(); ++i )
            r.test( fmt( "homogeneous grid type=%d %zu", (int)grid[i].type, i ), [&] {
               e57::ImageFile f( r.path( "a.e57" ), "w" );
               for ( size_t j = 0; j < grid.size(); ++j )
                  for ( int inside = 0; inside < 2; ++inside )
                  {
                     auto wrap = [&]( m::N n ) {
                        if ( !inside )
                           return n;
                        n.name = "a";
                        return m::structure( "", { n } );
                     };
                     e57::VectorNode v( f, false );
                     v.append( m::create( f, wrap( grid[i] ) ) );
                     v.append( m::create( f, wrap( grid[i] ) ) );
                     const bool fine = alike( grid[i], grid[j] );
                     const std::string res = m::attempt( [&] { v.append( m::create( f, wrap( grid[j] ) ) ); } );
                     CHECK( res == ( fine ? "ok" : std::to_string( e57::ErrorHomogeneousViolation ) ), "%zu beside %zu: %s", j, i, res.c_str() );
                     CHECK( v.childCount() == ( fine ? 3 : 2 ), "%lld children", (long long)v.childCount() );
                     r.transitions();
                     r.outcome( fine ? "grid alike" : "grid different" );
                  }
               f.cancel();
            } );
   }
   // x and y appended to a homogeneous vector by a call or by path, the vector attached or not
   void pairs( Run &r )
   {
      const auto d = descriptions();
      for ( auto &x : d )
         for ( auto &y : d )
            r.test( "homogeneous " + x.first + " " + y.first, [&] {
               const bool fine = alike( x.second, y.second );
               for ( int attached = 0; attached < 2; ++attached )
                  for ( int byPath = 0; byPath < 2; ++byPath )
                     for ( int hetero = 0; hetero < 2; ++hetero )
                     {
                        e57::ImageFile f( r.path( "a.e57" ), "w" );
                        e57::VectorNode v( f, hetero );
                        e57::StructureNode holder( f );
                        if ( attached )
                           f.root().set( "h", holder );
                        holder.set( "v", v );
                        auto put = [&]( const m::N &n, const char *p ) {
                           auto node = m::create( f, n );
                           return m::attempt( [&] {
                              if ( byPath )
                                 holder.set( p, node );
                              else
                                 v.append( node );
                           } );
                        };
                        std::string res = put( x.second, "v/0" );
                        CHECK( res == "ok", "first child refused: %s", res.c_str() );
                        res = put( y.second, "v/1" );
                        const std::string want = fine || hetero ? "ok" : std::to_string( e57::ErrorHomogeneousViolation );
                        CHECK( res == want, "second child: %s instead of %s (attached %d, by path %d, hetero %d)", res.c_str(),
                               want.c_str(), attached, byPath, hetero );
                        CHECK( v.childCount() == ( want == "ok" ? 2 : 1 ), "%lld children", (long long)v.childCount() );
                        if ( want != "ok" )
                        {
                           // a fitting one is still accepted
                           res = put( x.second, "v/1" );
                           CHECK( res == "ok", "fitting child refused: %s", res.c_str() );
                        }
                        f.root().checkInvariant( true, true );
                        r.transitions( 3 );
                     }
               r.outcome( x.first + " " + y.first );
            } );
   }

   // ---- path names: every short string over the characters that matter ----
   void pathNames( Run &r )
   {
      const std::string chars = "a0/: b1";
      const int len = r.thorough ? 6 : 5;
      std::vector<std::string> all = { "" };
      size_t from = 0;
      for ( int l = 1; l <= len; ++l )
      {
         const size_t end = all.size();
         for ( size_t i = from; i < end; ++i )
            for ( char ch : chars )
               all.push_back( all[i] + ch );
         from = end;
      }
      // /a is a vector of two, /b a structure with a structure /b/a
      Model base;
      base.e = { fileRoot( 0 ), el( m::vec( "", true ) ), el( m::structure( "" ) ), el( m::structure( "" ) ),
                 el( m::integer( "", 1 ) ), el( m::str( "" ) ), el( m::integer( "", 2 ) ) };
      const std::vector<Op> build = { { Op::Set, 0, 1, 0, "a" }, { Op::Set, 0, 2, 0, "b" }, { Op::Set, 0, 3, 0, "b/a" },
                                      { Op::Append, 1, 4, 0, "" }, { Op::Append, 1, 5, 0, "" } };
      for ( int target : { 0, 2 } )
         for ( size_t first = 0; first < all.size(); first += 200 )
            r.test( fmt( "paths target=%d %zu..", target, first ), [&] {
               std::unique_ptr<World> w;
               Model m;
               for ( size_t i = first; i < std::min( all.size(), first + 200 ); ++i )
               {
                  if ( !w )
                  {
                     m = base;
                     w.reset( new World( r, m ) );
                     for ( auto &o : build )
                     {
                        m.apply( o );
                        CHECK( w->apply( o ) == "ok", "building failed" );
                     }
                  }
                  const std::string &p = all[i];
                  // looking it up
                  bool absolute;
                  const auto f = Model::split( p, absolute );
                  Codes bad;
                  if ( f.empty() && !absolute )
                     bad.insert( e57::ErrorPathNameEmpty );
                  for ( auto &s : f )
                     Model::nameErrors( s, bad );
                  const bool slash = f.size() > 1 && f.back().empty(); // may be taken as merely not defined
                  int at = absolute ? 0 : target;
                  for ( auto &s : f )
                     at = at < 0 ? -1 : m.child( at, s );
                  e57::StructureNode s( *w->n[target] );
                  bool def = false;
                  std::string res = m::attempt( [&] { def = s.isDefined( p ); } );
                  const bool lone = bad.size() == 1 && bad.count( e57::ErrorPathNameExtensionNotRegistered );
                  if ( bad.empty() || ( lone && res == "ok" ) )
                     CHECK( res == "ok" && def == ( bad.empty() && at >= 0 ), "isDefined('%s') gives %s %d", p.c_str(), res.c_str(), def );
                  else
                     CHECK( ( res == "ok" && !def && ( slash || bad.count( e57::ErrorPathNameExtensionNotRegistered ) ) ) || matches( res, bad ),
                            "isDefined('%s') gives %s", p.c_str(), res.c_str() );
                  std::unique_ptr<e57::Node> got;
                  res = m::attempt( [&] { got.reset( new e57::Node( s.get( p ) ) ); } );
                  if ( ( bad.empty() && at < 0 ) || slash )
                     bad.insert( e57::ErrorPathUndefined );
                  CHECK( matches( res, bad ), "get('%s') gives %s instead of %s", p.c_str(), res.c_str(), codes( bad ).c_str() );
                  if ( got )
                     CHECK( *got == *w->n[at], "get('%s') gives another element", p.c_str() );
                  // putting something there
                  const Op o = { Op::Set, target, 6, 0, p };
                  const Codes want = m.apply( o );
                  res = w->apply( o );
                  CHECK( matches( res, want ), "set('%s') gives %s instead of %s", p.c_str(), res.c_str(),
                         want.empty() ? "success" : codes( want ).c_str() );
                  r.transitions( 3 );
                  r.outcome( p + res );
                  if ( res == "ok" || i % 50 == 0 )
                     w->verify( m );
                  if ( res == "ok" )
                  {
                     w->closeAndCompare( m );
                     w.reset();
                  }
               }
               if ( w )
                  w->closeAndCompare( m );
            } );
   }
}

void vh::enumerate( Run &r )
{
   {
      Config c;
      c.name = "structures";
      c.start.e = { fileRoot( 0 ), el( m::structure( "" ) ), el( m::structure( "" ) ), el( m::structure( "" ) ), el( m::integer( "", 3 ) ) };
      sets( c, { 0, 1, 2, 3 }, { "a", "b", "a/a", "a/b", "/a", "/a/a" }, { 0, 1, 2, 3, 4 } );
      sets( c, { 0, 1 }, { "a/a/a", "b/a", "0", "a/0", "/", "", "a/", "//a", "x:y", "a b" }, { 1, 2, 4 } );
      explore( r, c, r.thorough ? 9 : 3 );
   }
   {
      Config c;
      c.name = "vectors";
      c.start.e = { fileRoot( 0 ), el( m::vec( "", false ) ), el( m::vec( "", true ) ), el( m::structure( "" ) ), el( m::structure( "" ) ),
                    el( m::integer( "", 3, 0, 9 ) ), el( m::integer( "", 4, 0, 9 ) ), el( m::integer( "", 3, 0, 8 ) ) };
      const std::vector<int> all = { 0, 1, 2, 3, 4, 5, 6, 7 };
      appends( c, { 1, 2 }, all );
      sets( c, { 0 }, { "a", "b" }, all );
      sets( c, { 0 }, { "a/0", "a/1", "a/2", "a/x", "a/00" }, { 1, 3, 5, 6, 7 } );
      sets( c, { 3, 4 }, { "a" }, { 1, 2, 3, 4, 5, 7 } );
      explore( r, c, r.thorough ? 4 : 3 );
   }
   {
      // a homogeneous vector with structures and vectors in it
      Config c;
      c.name = "constraint";
      c.start.e = { fileRoot( 0 ),           el( m::vec( "", false ) ),       el( m::structure( "" ) ), el( m::structure( "" ) ),
                    el( m::vec( "", true ) ), el( m::vec( "", true ) ), el( m::integer( "", 1, 0, 9 ) ), el( m::integer( "", 2, 0, 9 ) ) };
      appends( c, { 1 }, { 2, 3, 4, 5 } );
      sets( c, { 0 }, { "v" }, { 1 } );
      sets( c, { 2, 3 }, { "a", "a/0" }, { 4, 5, 6, 7 } );
      appends( c, { 4, 5 }, { 6, 7 } );
      explore( r, c, r.thorough ? 9 : 6 );
   }
   {
      Config c;
      c.name = "prototypes";
      c.start.e = { fileRoot( 0 ),
                    el( m::structure( "" ) ),
                    el( m::structure( "" ) ),
                    el( m::vec( "", true ) ),
                    el( m::vec( "", true ) ),
                    el( m::integer( "", 1, 0, 9 ) ),
                    el( m::blob( "", m::pattern( 4 ) ) ),
                    el( m::cv( "", m::structure( "" ) ) ),
                    el( m::cv( "", m::structure( "" ) ) ) };
      for ( int i : { 7, 8 } )
      {
         c.start.e[i].exists = false;
         for ( int p : { 0, 1, 2, 3, 5, 6 } )
            for ( int k : { 3, 4 } )
               c.ops.push_back( { Op::MakeCv, i, p, k, "" } );
      }
      for ( int p : { 7, 8 } )
         for ( int k : { 3 } )
            c.ops.push_back( { Op::MakeCv, 15 - p, p, k, "" } );
      sets( c, { 0 }, { "a", "a/a" }, { 1, 2, 3, 5, 6, 7, 8 } );
      sets( c, { 1, 2 }, { "a" }, { 1, 2, 3, 5, 6, 7, 8 } );
      appends( c, { 3 }, { 1, 5, 7 } );
      explore( r, c, r.thorough ? 5 : 4 );
   }
   {
      Config c;
      c.name = "two files";
      c.start.e = { fileRoot( 0 ),
                    fileRoot( 1 ),
                    el( m::structure( "" ), 0 ),
                    el( m::structure( "" ), 1 ),
                    el( m::vec( "", true ), 0 ),
                    el( m::vec( "", false ), 1 ),
                    el( m::integer( "", 1, 0, 9 ), 0 ),
                    el( m::integer( "", 1, 0, 9 ), 1 ),
                    el( m::cv( "", m::structure( "" ) ), 0 ) };
      c.start.e[8].exists = false;
      const std::vector<int> all = { 0, 1, 2, 3, 4, 5, 6, 7 };
      sets( c, { 0, 1, 2, 3 }, { "a", "/a", "a/a", "a/0" }, all );
      appends( c, { 4, 5 }, all );
      c.ops.push_back( { Op::MakeCv, 8, 2, 4, "" } );
      c.ops.push_back( { Op::MakeCv, 8, 2, 5, "" } );
      explore( r, c, r.thorough ? 4 : 3 );
   }
   pairs( r );
   gridPairs( r );
   pathNames( r );
}
