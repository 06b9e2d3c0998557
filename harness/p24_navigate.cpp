// P24: every way to reach an element leads to the same element.
//
// For every tree the elements are collected by index, then every element is looked up from every
// structure and vector by every relative and absolute path, by parent() and through every downcast.
#include <xercesc/util/PlatformUtils.hpp>

#include "trees.hpp"

using namespace vh;

namespace
{
   struct Element
   {
      e57::Node node;
      const m::N *model;
      size_t parent;
      std::vector<std::string> path; // from the root of its tree
   };

   void collect( const e57::Node &node, const m::N &model, size_t parent, std::vector<std::string> path, std::vector<Element> &out )
   {
      const size_t me = out.size();
      out.push_back( { node, &model, parent, path } );
      if ( model.type != m::T::Structure && model.type != m::T::Vector )
         return;
      for ( size_t i = 0; i < model.kids.size(); ++i )
      {
         auto p = path;
         p.push_back( model.type == m::T::Vector ? std::to_string( i ) : model.kids[i].name );
         const auto at = static_cast<int64_t>( i );
         collect( model.type == m::T::Vector ? e57::VectorNode( node ).get( at ) : e57::StructureNode( node ).get( at ),
                  model.kids[i], me, p, out );
      }
   }

   std::string join( const std::vector<std::string> &v, size_t from, bool absolute )
   {
      std::string s;
      for ( size_t i = from; i < v.size(); ++i )
         s += ( i > from || absolute ? "/" : "" ) + v[i];
      return s.empty() && absolute ? "/" : s;
   }

   // Where a path leads in the model
   long resolve( const std::vector<Element> &all, size_t base, const std::string &path )
   {
      size_t at = path[0] == '/' ? 0 : base;
      size_t i = path[0] == '/' ? 1 : 0;
      while ( i < path.size() )
      {
         const size_t e = std::min( path.find( '/', i ), path.size() );
         const std::string field = path.substr( i, e - i );
         i = e + 1;
         size_t k = 1;
         for ( ; k < all.size(); ++k )
            if ( all[k].parent == at && all[k].path.back() == field )
               break;
         if ( k >= all.size() )
            return -1;
         at = k;
      }
      return static_cast<long>( at );
   }

   e57::NodeType apiType( const m::N &n )
   {
      switch ( n.type )
      {
         case m::T::Structure:
            return e57::TypeStructure;
         case m::T::Vector:
            return e57::TypeVector;
         case m::T::CV:
            return e57::TypeCompressedVector;
         case m::T::Integer:
            return e57::TypeInteger;
         case m::T::Scaled:
            return e57::TypeScaledInteger;
         case m::T::Float:
            return e57::TypeFloat;
         case m::T::String:
            return e57::TypeString;
         default:
            return e57::TypeBlob;
      }
   }

   template <class T> void downcast( const Element &e, e57::NodeType type, const std::string &what )
   {
      const bool right = apiType( *e.model ) == type;
      const std::string res = m::attempt( [&] {
         T t( e.node );
         const e57::Node up = t;
         CHECK( up == e.node && !( up != e.node ), "%s: another element after casting down and up", what.c_str() );
         CHECK( t.elementName() == e.node.elementName() && t.pathName() == e.node.pathName() && t.isRoot() == e.node.isRoot() &&
                   t.isAttached() == e.node.isAttached() && t.parent() == e.node.parent() &&
                   t.destImageFile() == e.node.destImageFile(),
                "%s: the accessors of the casted element differ", what.c_str() );
      } );
      CHECK( res == ( right ? "ok" : "39" ), "%s: cast to type %d gives %s", what.c_str(), type, res.c_str() );
   }

   template <class T>
   void lookups( Run &r, const std::vector<Element> &all, size_t at, const std::vector<std::string> &paths, const std::string &what )
   {
      const T n( all[at].node );
      const auto count = static_cast<int64_t>( all[at].model->kids.size() );
      CHECK( n.childCount() == count, "%s: childCount() is %lld", what.c_str(), (long long)n.childCount() );
      for ( int64_t i : { int64_t( -1 ), count, count + 1, INT64_MAX, INT64_MIN, int64_t( 1 ) << 32, -( int64_t( 1 ) << 32 ) } )
      {
         const std::string res = m::attempt( [&] { n.get( i ); } );
         CHECK( res == "3", "%s: get( %lld ) gives %s", what.c_str(), (long long)i, res.c_str() );
      }
      for ( auto &p : paths )
      {
         const long to = resolve( all, at, p );
         CHECK( n.isDefined( p ) == ( to >= 0 ), "%s: isDefined( '%s' ) is %d", what.c_str(), p.c_str(), to < 0 );
         e57::Node got = all[0].node;
         const std::string res = m::attempt( [&] { got = n.get( p ); } );
         CHECK( res == ( to >= 0 ? "ok" : "22" ), "%s: get( '%s' ) gives %s", what.c_str(), p.c_str(), res.c_str() );
         if ( to >= 0 )
            CHECK( got == all[static_cast<size_t>( to )].node, "%s: get( '%s' ) is another element, %s", what.c_str(), p.c_str(),
                   got.pathName().c_str() );
         r.transitions();
      }
   }

   void verify( Run &r, const e57::Node &root, const m::N &model, bool attached, const e57::ImageFile &imf, const std::string &where )
   {
      std::vector<Element> all;
      collect( root, model, 0, {}, all );
      std::set<std::string> set = { "/", "zz", "/zz", "0", "/0" };
      for ( auto &e : all )
         for ( size_t from = 0; from < e.path.size(); ++from )
            for ( bool absolute : { false, true } )
            {
               const std::string p = join( e.path, from, absolute );
               set.insert( p );
               set.insert( p + "/zz" );
               set.insert( p + "/0" );
               set.insert( p + "/a" );
               // a name that begins or ends like it
               if ( !isdigit( static_cast<unsigned char>( e.path.back()[0] ) ) )
               {
                  set.insert( p + "x" );
                  if ( e.path.back().size() > 1 && p[p.size() - 2] != ':' )
                     set.insert( p.substr( 0, p.size() - 1 ) );
               }
               else
                  set.insert( p + "0" );
            }
      const std::vector<std::string> paths( set.begin(), set.end() );
      for ( size_t i = 0; i < all.size(); ++i )
      {
         const Element &e = all[i];
         const std::string path = join( e.path, 0, true ), what = where + " " + path;
         CHECK( e.node.type() == apiType( *e.model ), "%s: type() is %d", what.c_str(), e.node.type() );
         CHECK( e.node.isRoot() == ( i == 0 ), "%s: isRoot() is %d", what.c_str(), e.node.isRoot() );
         CHECK( e.node.pathName() == path, "%s: pathName() is %s", what.c_str(), e.node.pathName().c_str() );
         CHECK( e.node.elementName() == ( i ? e.path.back() : "" ), "%s: elementName() is '%s'", what.c_str(),
                e.node.elementName().c_str() );
         CHECK( e.node.isAttached() == attached, "%s: isAttached() is %d", what.c_str(), e.node.isAttached() );
         CHECK( e.node.destImageFile() == imf, "%s: destImageFile() is another file", what.c_str() );
         CHECK( e.node.parent() == all[e.parent].node, "%s: parent() is %s", what.c_str(), e.node.parent().pathName().c_str() );
         for ( size_t k = 0; k < all.size(); ++k )
            CHECK( ( e.node == all[k].node ) == ( i == k ) && ( e.node != all[k].node ) == ( i != k ), "%s: compared with %s", what.c_str(),
                   join( all[k].path, 0, true ).c_str() );
         downcast<e57::StructureNode>( e, e57::TypeStructure, what );
         downcast<e57::VectorNode>( e, e57::TypeVector, what );
         downcast<e57::CompressedVectorNode>( e, e57::TypeCompressedVector, what );
         downcast<e57::IntegerNode>( e, e57::TypeInteger, what );
         downcast<e57::ScaledIntegerNode>( e, e57::TypeScaledInteger, what );
         downcast<e57::FloatNode>( e, e57::TypeFloat, what );
         downcast<e57::StringNode>( e, e57::TypeString, what );
         downcast<e57::BlobNode>( e, e57::TypeBlob, what );
         if ( e.model->type == m::T::Structure )
            lookups<e57::StructureNode>( r, all, i, paths, what );
         else if ( e.model->type == m::T::Vector )
            lookups<e57::VectorNode>( r, all, i, paths, what );
         else if ( e.model->type == m::T::CV )
         {
            // prototype and codecs are trees of their own
            e57::CompressedVectorNode cv( e.node );
            verify( r, cv.prototype(), e.model->kids[0], attached, imf, what + " prototype" );
            if ( e.model->kids.size() > 1 )
               verify( r, cv.codecs(), e.model->kids[1], attached, imf, what + " codecs" );
         }
      }
      r.count( "elements", all.size() );
   }

   void document( Run &r, const m::N &doc )
   {
      const std::string p = r.path( "a.e57" );
      {
         e57::ImageFile f( p, "w" );
         f.extensionsAdd( "x", "http://x" );
         // trees that are not attached to the file
         for ( auto &k : doc.kids )
            verify( r, m::create( f, k ), k, false, f, "unattached" );
         m::writeDoc( f, doc );
         verify( r, f.root(), doc, true, f, "written" );
         CHECK( e57::Node( f.root() ) == e57::Node( f.root() ), "root() is not equal to itself" );
         f.close();
      }
      e57::ImageFile f( p, "r" );
      verify( r, f.root(), doc, true, f, "read" );
      f.close();
      r.outcome( fmt( "%zu", doc.kids.size() ) );
   }

   // All forests over few kinds of element
   void small( int n, std::vector<m::N> &cur, const std::vector<std::string> &names, const std::function<void( const std::vector<m::N> & )> &f )
   {
      if ( n == 0 )
      {
         f( cur );
         return;
      }
      for ( int k = 1; k <= n; ++k )
      {
         auto with = [&]( m::N t ) {
            t.name = names[cur.size() % names.size()];
            cur.push_back( t );
            small( n - k, cur, names, f );
            cur.pop_back();
         };
         if ( k == 1 )
            with( m::integer( "", 1 ) );
         std::vector<m::N> sub;
         small( k - 1, sub, names, [&]( const std::vector<m::N> &kids ) {
            with( m::structure( "", kids ) );
            with( m::vec( "", true, kids ) );
         } );
      }
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();
   for ( int n = 0; n <= ( r.thorough ? 3 : 2 ); ++n )
      tree::all( n, [&]( const m::N &doc, const std::string &id ) {
         r.test( [&] { return fmt( "tree %s", id.c_str() ); }, [&] { document( r, doc ); } );
      } );
   // the same names at every level, names that contain each other, names with prefixes
   const std::vector<std::vector<std::string>> names = {
      { "a", "b", "c", "d", "e", "f", "g" }, { "a", "aa", "ab", "aaa", "a.a", "a-", "a_" }, { "x:a", "a", "x:aa", "x", "x:x", "ax", "x:b" } };
   for ( size_t s = 0; s < names.size(); ++s )
      for ( int n = 1; n <= ( r.thorough ? 6 : 5 ) - ( s ? 1 : 0 ); ++n )
      {
         std::vector<m::N> cur;
         size_t number = 0;
         small( n, cur, names[s], [&]( const std::vector<m::N> &kids ) {
            r.test( [&] { return fmt( "names %zu n=%d #%zu", s, n, number ); }, [&] { document( r, m::structure( "", kids ) ); } );
            ++number;
         } );
      }
   // long vectors: indices of several digits
   for ( size_t n : { 10, 11, 12, 99, 100, 101 } )
      r.test( fmt( "vector of %zu", n ), [&] {
         std::vector<m::N> v;
         for ( size_t i = 0; i < n; ++i )
            v.push_back( m::integer( "", static_cast<int64_t>( i ) ) );
         document( r, m::structure( "", { m::vec( "v", false, v ) } ) );
      } );
   // deep trees
   for ( int depth : { 10, 25 } )
      for ( int kind : { 0, 1, 2 } )
         r.test( fmt( "depth %d kind %d", depth, kind ), [&] {
            m::N n = m::integer( "i", 3 );
            for ( int k = 0; k < depth; ++k )
               n = kind == 0 || ( kind == 2 && k % 2 ) ? m::structure( "a", { [&] { n.name = "a"; return n; }() } ) : m::vec( "a", true, { n } );
            n.name = "a";
            document( r, m::structure( "", { n } ) );
         } );
   // nested prototypes
   for ( size_t records : { 0, 2 } )
      r.test( fmt( "prototype records=%zu", records ), [&] {
         const m::N proto = m::structure( "", { m::integer( "a", 0, 0, 9 ), m::structure( "b", { m::integer( "a", 0, 0, 9 ), m::vec( "v", true, { m::integer( "", 0, 0, 5 ), m::structure( "", { m::integer( "a", 0, 0, 9 ) } ) } ) } ) } );
         std::vector<std::pair<std::string, const m::N *>> lv;
         m::leaves( proto, "", lv );
         std::vector<m::Col> cols;
         for ( auto &l : lv )
         {
            m::Col c;
            c.path = l.first;
            c.i.assign( records, 3 );
            cols.push_back( c );
         }
         document( r, m::structure( "", { m::cv( "v", proto, cols ), m::structure( "b", { m::integer( "a", 1 ) } ) } ) );
      } );
}
