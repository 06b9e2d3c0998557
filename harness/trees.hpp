// Enumeration of small element trees.
#pragma once

#include <algorithm>
#include <functional>

#include "fields.hpp"

namespace tree
{
   // A small compressed vector
   inline m::N smallCv( const std::string &name, size_t records = 3 )
   {
      m::N d = fld::doc( { fld::Int( -3, 3 ), fld::F64() }, records );
      d.kids[0].name = name;
      return d.kids[0];
   }

   // The element kinds without children; distinct values so that elements cannot be mixed up
   inline std::vector<m::N> leafKinds( int salt )
   {
      return { m::integer( "", 7 + salt, -5, 100 ),
               m::scaled( "", 11 + salt, 0, 1000, 0.5, -3 ),
               m::real( "", 1.5 + salt, true ),
               m::real( "", 0.1 * ( salt + 1 ), false ),
               m::str( "", "s" + std::to_string( salt ) ),
               m::blob( "", m::pattern( 5 + static_cast<size_t>( salt ), 3 + static_cast<unsigned>( salt ) ) ),
               smallCv( "", 2 + static_cast<size_t>( salt ) % 2 ),
               m::structure( "" ),
               m::vec( "", false ),
               m::vec( "", true ) };
   }

   inline bool sameShape( const m::N &a, const m::N &b )
   {
      if ( a.type != b.type )
         return false;
      if ( a.type == m::T::Vector && a.hetero != b.hetero )
         return false;
      if ( a.type == m::T::Float && a.single != b.single )
         return false;
      if ( a.kids.size() != b.kids.size() )
         return false;
      for ( size_t i = 0; i < a.kids.size(); ++i )
         if ( !sameShape( a.kids[i], b.kids[i] ) || ( a.type == m::T::Structure && a.kids[i].name != b.kids[i].name ) )
            return false;
      return true;
   }

   // Types for which a homogeneous vector of several children is enumerated
   inline bool plain( const m::N &n )
   {
      return n.type != m::T::CV && n.type != m::T::Blob && n.kids.empty();
   }

   // Call f for every forest of exactly n elements; "salt" numbers the elements
   inline void forests( int n, std::vector<m::N> &cur, int salt, const std::function<void( const std::vector<m::N> & )> &f )
   {
      if ( n == 0 )
      {
         f( cur );
         return;
      }
      // the next tree of the forest has k elements
      for ( int k = 1; k <= n; ++k )
      {
         auto withTree = [&]( m::N t ) {
            t.name = std::string( 1, static_cast<char>( 'a' + cur.size() ) );
            cur.push_back( t );
            forests( n - k, cur, salt + k, f );
            cur.pop_back();
         };
         if ( k == 1 )
         {
            for ( auto &l : leafKinds( salt ) )
               withTree( l );
            continue;
         }
         std::vector<m::N> sub;
         forests( k - 1, sub, salt + 1, [&]( const std::vector<m::N> &kids ) {
            withTree( m::structure( "", kids ) );
            withTree( m::vec( "", true, kids ) );
            bool hom = true;
            for ( auto &c : kids )
               hom = hom && plain( c ) && sameShape( c, kids[0] );
            if ( hom )
            {
               auto v = kids;
               // homogeneous: same declared attributes, other values
               withTree( m::vec( "", false, v ) );
            }
         } );
      }
   }

   inline std::string id( const m::N &n )
   {
      static const char *t[] = { "{}", "<>", "C", "I", "S", "F", "T", "B" };
      std::string s = t[static_cast<int>( n.type )];
      if ( n.type == m::T::Float && n.single )
         s = "f";
      if ( n.type == m::T::Vector )
         s = n.hetero ? "<>" : "[]";
      if ( ( n.type == m::T::Structure || n.type == m::T::Vector ) && !n.kids.empty() )
      {
         std::string in;
         for ( auto &k : n.kids )
            in += id( k );
         s = s.substr( 0, 1 ) + in + s.substr( 1 );
      }
      return s;
   }

   // All documents whose root has exactly n descendants
   inline void all( int n, const std::function<void( const m::N &doc, const std::string &id )> &f )
   {
      std::vector<m::N> cur;
      forests( n, cur, 0, [&]( const std::vector<m::N> &kids ) {
         m::N d = m::structure( "", kids );
         f( d, id( d ) );
      } );
   }
}
