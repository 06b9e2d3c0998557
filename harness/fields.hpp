// Catalogue of field types for compressed vectors, with deterministic values.
#pragma once

#include <cfloat>

#include "model.hpp"

namespace fld
{
   struct Field
   {
      std::string id;
      m::N node;
   };

   inline Field Int( int64_t lo, int64_t hi )
   {
      return { vh::fmt( "I[%lld,%lld]", (long long)lo, (long long)hi ), m::integer( "", lo, lo, hi ) };
   }
   inline Field Sca( int64_t lo, int64_t hi, double s = 0.001, double o = 10 )
   {
      return { vh::fmt( "S[%lld,%lld]%g+%g", (long long)lo, (long long)hi, s, o ),
               m::scaled( "", lo, lo, hi, s, o ) };
   }
   inline Field F32()
   {
      return { "F32", m::real( "", 0, true ) };
   }
   inline Field F64()
   {
      return { "F64", m::real( "", 0, false ) };
   }
   inline Field Str()
   {
      return { "Str", m::str( "" ) };
   }

   inline uint64_t mix( uint64_t x )
   {
      x += 0x9E3779B97F4A7C15ull;
      x = ( x ^ ( x >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
      x = ( x ^ ( x >> 27 ) ) * 0x94D049BB133111EBull;
      return x ^ ( x >> 31 );
   }

   // Value number k of a field; the first ones are the corner cases
   inline int64_t intValue( const m::N &n, uint64_t k, uint64_t salt )
   {
      const uint64_t span = static_cast<uint64_t>( n.max ) - static_cast<uint64_t>( n.min );
      uint64_t off;
      switch ( ( k + salt ) % 7 )
      {
         case 0:
            off = span;
            break;
         case 1:
            off = 0;
            break;
         case 2:
            off = span / 2;
            break;
         case 3:
            off = span ? 1 : 0;
            break;
         case 4:
            off = span ? span - 1 : 0;
            break;
         default:
            off = span == UINT64_MAX ? mix( k * 131 + salt ) : mix( k * 131 + salt ) % ( span + 1 );
      }
      return static_cast<int64_t>( static_cast<uint64_t>( n.min ) + off );
   }
   inline double realValue( const m::N &n, uint64_t k, uint64_t salt )
   {
      const double lim = n.single ? FLT_MAX : DBL_MAX;
      const double tiny = n.single ? FLT_MIN : DBL_MIN;
      double v;
      switch ( ( k + salt ) % 9 )
      {
         case 0:
            v = lim;
            break;
         case 1:
            v = -lim;
            break;
         case 2:
            v = 0;
            break;
         case 3:
            v = tiny;
            break;
         case 4:
            v = n.single ? 1.401298464324817e-45 : 4.9406564584124654e-324;
            break;
         case 5:
            v = -1.0 / 3;
            break;
         default:
            v = ( static_cast<double>( mix( k + salt ) >> 11 ) / 9007199254740992.0 - 0.5 ) * 1000.0;
      }
      return n.single ? static_cast<double>( static_cast<float>( v ) ) : v;
   }
   inline std::string strValue( uint64_t k, uint64_t salt, bool longOnes )
   {
      static const size_t lens[] = { 0, 1, 3, 126, 127, 128, 129, 10, 0, 2, 5, 300 };
      const size_t len = longOnes ? lens[( k + salt ) % 12] : ( k + salt ) % 4;
      std::string s;
      for ( size_t i = 0; i < len; ++i )
         s += static_cast<char>( mix( k * 1000003 + i + salt ) & 0xFF );
      return s;
   }
   inline m::Col column( const std::string &path, const m::N &n, size_t count, uint64_t salt = 0,
                         bool longStrings = true )
   {
      m::Col c;
      c.path = path;
      c.type = n.type;
      c.single = n.single;
      for ( size_t k = 0; k < count; ++k )
      {
         if ( n.type == m::T::Float )
            c.d.push_back( realValue( n, k, salt ) );
         else if ( n.type == m::T::String )
            c.s.push_back( strValue( k, salt, longStrings ) );
         else
            c.i.push_back( intValue( n, k, salt ) );
      }
      return c;
   }

   // A document with one compressed vector "/v" holding the given fields f0, f1, ...
   inline m::N doc( const std::vector<Field> &fs, size_t count, uint64_t salt = 0, bool longStrings = true )
   {
      m::N proto = m::structure( "prototype" );
      std::vector<m::Col> cols;
      for ( size_t i = 0; i < fs.size(); ++i )
      {
         m::N f = fs[i].node;
         f.name = "f" + std::to_string( i );
         proto.kids.push_back( f );
         cols.push_back( column( f.name, f, count, salt + i * 3, longStrings ) );
      }
      return m::structure( "", { m::cv( "v", proto, cols ) } );
   }
   inline std::string id( const std::vector<Field> &fs )
   {
      std::string s;
      for ( auto &f : fs )
         s += ( s.empty() ? "" : "," ) + f.id;
      return s;
   }

   inline int64_t pow2( unsigned w ) // 2^w - 1 as span, w <= 63
   {
      return static_cast<int64_t>( ( static_cast<uint64_t>( 1 ) << w ) - 1 );
   }

   // One field per bit width 1..63 plus the full ranges
   inline std::vector<Field> widths()
   {
      std::vector<Field> v;
      for ( unsigned w = 1; w <= 63; ++w )
         v.push_back( Int( 0, pow2( w ) ) );
      v.push_back( Int( INT64_MIN, INT64_MAX ) );
      return v;
   }
   inline std::vector<Field> shifted()
   {
      std::vector<Field> v;
      for ( unsigned w = 1; w <= 62; ++w )
      {
         const int64_t half = static_cast<int64_t>( 1 ) << ( w - 1 );
         v.push_back( Int( -half, half - 1 ) );  // signed
         v.push_back( Int( -3, half + 1 ) );     // odd range
         v.push_back( Int( INT64_MAX - pow2( w ), INT64_MAX ) );
         v.push_back( Int( INT64_MIN, INT64_MIN + pow2( w ) ) );
      }
      v.push_back( Int( INT64_MIN + 1, INT64_MAX ) );
      v.push_back( Int( INT64_MIN, INT64_MAX - 1 ) );
      v.push_back( Int( INT64_MIN, 0 ) );
      v.push_back( Int( INT64_MIN, -1 ) );
      v.push_back( Int( -1, INT64_MAX ) );
      return v;
   }
   // Documents in which 50 records, the unit the writer works in, come to more than what is left of
   // a data packet, so that packets are cut within the streams at uneven places: a field beside long
   // strings, and wide records
   inline m::N besideStrings( const Field &f, size_t len, size_t count, bool behind )
   {
      m::N d = behind ? doc( { f, Str() }, count, len ) : doc( { Str(), f }, count, len );
      auto &s = d.kids[0].cols[behind ? 1 : 0].s;
      for ( size_t k = 0; k < count; ++k )
      {
         s[k].resize( len + k % 7 );
         for ( size_t i = 0; i < s[k].size(); ++i )
            s[k][i] = static_cast<char>( mix( i + 31 * k ) );
      }
      return d;
   }
   inline m::N wideRecords( const Field &f, size_t fields, size_t count )
   {
      std::vector<Field> fs;
      for ( size_t i = 0; i < fields; ++i )
         fs.push_back( i % 4 == 1 ? f : F64() );
      return doc( fs, count, fields );
   }

   // A representative for each encoder/decoder path
   inline std::vector<Field> kinds()
   {
      return { Int( 5, 5 ),       Int( 0, 1 ),          Int( -3, 3 ),       Int( 0, 200 ),
               Int( 0, 511 ),     Int( -40000, 40000 ), Int( 0, 0xFFFFFF ), Int( 0, 0xFFFFFFFFLL ),
               Int( -5, 0x3FFFFFFFFFLL ), Int( INT64_MIN, INT64_MAX ), Sca( -1000, 1000 ), Sca( 7, 7 ),
               F32(),             F64(),                Str() };
   }
}
