// P07: values that do not fit are reported, never altered.
//
// The oracle computes, for a value in memory (or in the file), a field description, a memory type
// and the two option flags, the value that has to arrive or the error that has to be reported. It
// works with exact integers and extended-precision reals and allows scaled values the rounding of
// double arithmetic. Every combination is executed on the real library.
#include <algorithm>
#include <cfloat>
#include <set>

#include "fields.hpp"

using namespace vh;
using fld::Field;

namespace
{
   using R = e57::MemoryRepresentation;
   const std::string OutOfBounds = std::to_string( e57::ErrorValueOutOfBounds ), NotRep = std::to_string( e57::ErrorValueNotRepresentable ),
                     ScaledNotRep = std::to_string( e57::ErrorScaledValueNotRepresentable ),
                     TooLarge = std::to_string( e57::ErrorReal64TooLarge ), Numeric = std::to_string( e57::ErrorExpectingNumeric ),
                     Text = std::to_string( e57::ErrorExpectingUString ), Conv = std::to_string( e57::ErrorConversionRequired );

   // A number, exactly
   struct V
   {
      bool real = false;
      int64_t i = 0;
      double d = 0;
   };
   V I( int64_t i )
   {
      V v;
      v.i = i;
      return v;
   }
   V D( double d )
   {
      V v;
      v.real = true;
      v.d = d;
      return v;
   }
   std::string show( const V &v )
   {
      return v.real ? fmt( "%.17g", v.d ) : fmt( "%lld", (long long)v.i );
   }

   // What has to happen: an error, or a value between lo and hi (exact reals), or a NaN.
   // "soft" marks results at the edge of what rounding decides: the error is acceptable too.
   struct Want
   {
      std::string error;
      long double lo = 0, hi = 0;
      bool nan = false, soft = false;
   };
   Want error( const std::string &e )
   {
      Want w;
      w.error = e;
      return w;
   }
   Want exactly( long double x )
   {
      Want w;
      w.lo = w.hi = x;
      w.nan = std::isnan( x );
      return w;
   }
   bool isInt( R r )
   {
      return r != e57::Bool && r != e57::Real32 && r != e57::Real64 && r != e57::UString;
   }
   void limits( R r, long double &lo, long double &hi )
   {
      switch ( r )
      {
         case e57::Int8:
            lo = INT8_MIN, hi = INT8_MAX;
            break;
         case e57::UInt8:
            lo = 0, hi = UINT8_MAX;
            break;
         case e57::Int16:
            lo = INT16_MIN, hi = INT16_MAX;
            break;
         case e57::UInt16:
            lo = 0, hi = UINT16_MAX;
            break;
         case e57::Int32:
            lo = INT32_MIN, hi = INT32_MAX;
            break;
         case e57::UInt32:
            lo = 0, hi = UINT32_MAX;
            break;
         default:
            lo = INT64_MIN, hi = INT64_MAX;
      }
   }
   const long double eps = 1.0L / ( 1ull << 51 );

   // ---- writing: from memory to the raw value of the field ----
   Want wantWrite( const m::N &f, R rep, bool conv, bool scal, const V &v )
   {
      if ( f.type == m::T::String )
         return rep == e57::UString ? exactly( 0 ) : error( Text );
      if ( rep == e57::UString )
         return error( Numeric );
      const bool real = rep == e57::Real32 || rep == e57::Real64;
      const long double x = v.real ? static_cast<long double>( v.d ) : static_cast<long double>( v.i );
      if ( f.type == m::T::Float )
      {
         if ( !real && !conv )
            return error( Conv );
         if ( f.single )
         {
            if ( rep == e57::Real64 && ( v.d > FLT_MAX || v.d < -FLT_MAX ) )
               return error( TooLarge );
            return exactly( v.real ? static_cast<float>( v.d ) : static_cast<float>( v.i ) );
         }
         return exactly( v.real ? v.d : static_cast<double>( v.i ) );
      }
      const long double lo = f.min, hi = f.max;
      if ( f.type == m::T::Scaled && scal )
      {
         if ( real && !conv )
            return error( Conv );
         const long double t = ( x - f.offset ) / f.scale;
         if ( std::isnan( t ) )
            return error( ScaledNotRep );
         const long double slack = eps * ( std::fabs( x / f.scale ) + std::fabs( f.offset / f.scale ) + 1 );
         Want w;
         w.lo = std::ceil( t - 0.5L - slack );
         w.hi = std::floor( t + 0.5L + slack );
         const long double L = -9223372036854775808.0L, H = 9223372036854775807.0L;
         const bool edge64 = ( w.lo < L && w.hi >= L ) || ( w.hi > H && w.lo <= H );
         if ( w.hi < L || w.lo > H )
            return error( ScaledNotRep );
         if ( w.hi < lo || w.lo > hi )
         {
            // a value that may also be beyond 64 bits
            Want e = error( OutOfBounds );
            e.soft = edge64;
            return e;
         }
         w.soft = edge64 || w.lo < lo || w.hi > hi;
         w.lo = std::max( w.lo, lo );
         w.hi = std::min( w.hi, hi );
         return w;
      }
      if ( ( real || rep == e57::Bool ) && !conv )
         return error( Conv );
      if ( real )
      {
         if ( std::isnan( v.d ) || std::trunc( v.d ) < -9223372036854775808.0 || std::trunc( v.d ) >= 9223372036854775808.0 )
            return error( NotRep );
      }
      const long double t = std::trunc( x );
      if ( t < lo || t > hi )
         return error( OutOfBounds );
      return exactly( t );
   }

   // ---- reading: from the raw value of the field to memory ----
   Want wantRead( const m::N &f, R rep, bool conv, bool scal, const V &v )
   {
      if ( f.type == m::T::String )
         return rep == e57::UString ? exactly( 0 ) : error( Text );
      if ( rep == e57::UString )
         return error( Numeric );
      const bool real = rep == e57::Real32 || rep == e57::Real64;
      long double lo = 0, hi = 0;
      limits( rep, lo, hi );
      if ( f.type == m::T::Float )
      {
         if ( rep == e57::Real64 )
            return exactly( v.d );
         if ( rep == e57::Real32 )
         {
            if ( !f.single && ( v.d > FLT_MAX || v.d < -FLT_MAX ) )
               return error( NotRep );
            return exactly( static_cast<float>( v.d ) );
         }
         if ( !conv )
            return error( Conv );
         if ( rep == e57::Bool )
            return exactly( v.d == 0 ? 0 : 1 );
         const long double t = std::trunc( static_cast<long double>( v.d ) );
         if ( std::isnan( v.d ) || t < lo || t > hi )
            return error( NotRep );
         Want w = exactly( t );
         // only fits once the fraction is dropped: may be refused
         w.soft = v.d < lo || v.d > hi;
         return w;
      }
      if ( f.type == m::T::Scaled && scal )
      {
         if ( real && !conv )
            return error( Conv );
         const long double x = v.i;
         const long double t = x * f.scale + f.offset;
         const long double slack = eps * ( std::fabs( x * f.scale ) + std::fabs( static_cast<long double>( f.offset ) ) );
         Want w;
         if ( rep == e57::Real64 )
         {
            w.lo = t - slack;
            w.hi = t + slack;
            if ( w.lo < -DBL_MAX )
               w.lo = -INFINITY;
            if ( w.hi > DBL_MAX )
               w.hi = INFINITY;
            return w;
         }
         if ( rep == e57::Real32 )
         {
            if ( t - slack > FLT_MAX || t + slack < -FLT_MAX )
               return error( ScaledNotRep );
            // rounded to float: half a unit on either side
            w.lo = std::nextafterf( static_cast<float>( t - slack ), -INFINITY );
            w.hi = std::nextafterf( static_cast<float>( t + slack ), INFINITY );
            return w;
         }
         w.lo = std::ceil( t - 0.5L - slack );
         w.hi = std::floor( t + 0.5L + slack );
         if ( rep == e57::Bool )
         {
            const bool canZero = w.lo <= 0 && w.hi >= 0, mustZero = w.lo == 0 && w.hi == 0;
            w.lo = canZero ? 0 : 1;
            w.hi = mustZero ? 0 : 1;
            return w;
         }
         if ( w.hi < lo || w.lo > hi )
            return error( ScaledNotRep );
         w.soft = w.lo < lo || w.hi > hi;
         return w;
      }
      if ( real )
      {
         if ( !conv )
            return error( Conv );
         return exactly( rep == e57::Real32 ? static_cast<float>( v.i ) : static_cast<double>( v.i ) );
      }
      if ( rep == e57::Bool )
         return exactly( v.i ? 1 : 0 );
      if ( static_cast<long double>( v.i ) < lo || static_cast<long double>( v.i ) > hi )
         return error( NotRep );
      return exactly( v.i );
   }

   void judge( const std::string &what, const Want &w, const std::string &got, long double value )
   {
      if ( got != "ok" )
      {
         CHECK( w.error == got || w.soft, "%s: error %s instead of %s", what.c_str(), got.c_str(),
                w.error.empty() ? fmt( "%.20Lg", w.lo ).c_str() : w.error.c_str() );
         CHECK( got == OutOfBounds || got == NotRep || got == ScaledNotRep || got == TooLarge || got == Numeric || got == Text || got == Conv,
                "%s: undocumented error %s", what.c_str(), got.c_str() );
         return;
      }
      CHECK( w.error.empty() || w.soft, "%s: accepted as %.20Lg instead of error %s", what.c_str(), value, w.error.c_str() );
      if ( !w.error.empty() )
         return;
      if ( w.nan )
         CHECK( std::isnan( value ), "%s: %.20Lg instead of NaN", what.c_str(), value );
      else
         CHECK( value >= w.lo && value <= w.hi, "%s: %.20Lg instead of %.20Lg", what.c_str(), value, w.lo );
   }

   // ---- values ----
   struct Less
   {
      bool operator()( double a, double b ) const
      {
         return memcmp( &a, &b, 8 ) < 0;
      }
   };
   const std::vector<int64_t> &cornersI()
   {
      static const std::vector<int64_t> c = { INT64_MIN, INT64_MIN + 1, -( int64_t( 1 ) << 53 ) - 1, -4294967296, -2147483649, -2147483648, -2147483647, -65536,
                                              -32769, -32768, -32767, -257, -256, -129, -128, -127, -2, -1, 0, 1, 2, 100, 126, 127, 128, 254, 255, 256,
                                              32766, 32767, 32768, 65534, 65535, 65536, 16777217, 2147483646, 2147483647, 2147483648, 4294967294,
                                              4294967295, 4294967296, ( int64_t( 1 ) << 53 ) + 1, INT64_MAX - 1, INT64_MAX };
      return c;
   }
   std::vector<V> valuesFor( const m::N &f, R rep, bool writing )
   {
      std::set<int64_t> is;
      std::set<double, Less> ds;
      if ( rep == e57::UString )
         return { f.type == m::T::Float ? D( 0 ) : I( f.type == m::T::String ? 0 : f.min ) };
      // around the declared range, raw and scaled
      if ( f.type == m::T::Integer || f.type == m::T::Scaled )
      {
         for ( int64_t b : { f.min, f.max } )
            for ( int64_t o : { -2, -1, 0, 1, 2 } )
            {
               const __int128 t = static_cast<__int128>( b ) + o;
               if ( t >= INT64_MIN && t <= INT64_MAX )
                  is.insert( static_cast<int64_t>( t ) );
            }
         for ( int64_t b : { f.min, f.max } )
            for ( double o : { -1.5, -1.0, -0.75, -0.5, -0.25, 0.0, 0.25, 0.49, 0.5, 0.75, 1.0, 1.5 } )
               ds.insert( static_cast<double>( b ) + o );
         if ( f.type == m::T::Scaled )
            for ( int64_t b : { f.min, f.max } )
               for ( double o : { -1.0, -0.6, -0.4, 0.0, 0.4, 0.6, 1.0 } )
               {
                  const double s = ( static_cast<double>( b ) + o ) * f.scale + f.offset;
                  ds.insert( s );
                  if ( std::fabs( s ) < 9e18 )
                  {
                     is.insert( static_cast<int64_t>( std::floor( s ) ) );
                     is.insert( static_cast<int64_t>( std::floor( s ) ) + 1 );
                  }
               }
      }
      for ( auto c : cornersI() )
         is.insert( c );
      for ( auto c : cornersI() )
         for ( double o : { -0.5, 0.0, 0.5 } )
            ds.insert( static_cast<double>( c ) + o );
      for ( double d : { 0.0, -0.0, 0.1, -0.1, 0.99999, -0.99999, 1e-310, -1e-310, 4.9e-324, 1e-45, 1e-40, 1e10, -1e10, 9223372036854775808.0, -9223372036854775808.0,
                         std::nextafter( 9223372036854775808.0, 0.0 ), std::nextafter( -9223372036854775808.0, -1e300 ), 1.8446744073709552e19, 1e25, -1e25,
                         static_cast<double>( FLT_MAX ), static_cast<double>( -FLT_MAX ), std::nextafter( static_cast<double>( FLT_MAX ), 1e300 ),
                         std::nextafter( static_cast<double>( -FLT_MAX ), -1e300 ), 1e39, -1e39, DBL_MAX, -DBL_MAX, static_cast<double>( INFINITY ),
                         static_cast<double>( -INFINITY ), static_cast<double>( NAN ) } )
         ds.insert( d );
      std::vector<V> out;
      if ( writing )
      {
         if ( rep == e57::Bool )
            return { I( 0 ), I( 1 ) };
         if ( isInt( rep ) )
         {
            long double lo, hi;
            limits( rep, lo, hi );
            for ( auto i : is )
               if ( i >= lo && i <= hi )
                  out.push_back( I( i ) );
            return out;
         }
         std::set<double, Less> seen;
         for ( double d : ds )
            if ( rep == e57::Real64 )
               out.push_back( D( d ) );
            else if ( !( std::fabs( d ) > FLT_MAX ) || std::isinf( d ) )
               if ( seen.insert( static_cast<float>( d ) ).second )
                  out.push_back( D( static_cast<float>( d ) ) );
         return out;
      }
      // values that can be in the file
      if ( f.type == m::T::Float )
      {
         std::set<double, Less> seen;
         for ( double d : ds )
            if ( !f.single )
               out.push_back( D( d ) );
            else if ( !( std::fabs( d ) > FLT_MAX ) || std::isinf( d ) )
               if ( seen.insert( static_cast<float>( d ) ).second )
                  out.push_back( D( static_cast<float>( d ) ) );
         return out;
      }
      if ( f.type == m::T::String )
         return { I( 0 ) };
      // raw values whose scaled value is at the limit of the memory type
      if ( f.type == m::T::Scaled )
      {
         long double lo, hi;
         limits( rep, lo, hi );
         for ( long double b : { lo, hi } )
            for ( long double o : { -1.0L, -0.5L, 0.0L, 0.5L, 1.0L } )
            {
               const long double raw = ( b + o - f.offset ) / f.scale;
               if ( std::fabs( raw ) < 9e18L )
                  for ( int k : { -1, 0, 1 } )
                     is.insert( static_cast<int64_t>( std::floor( raw ) ) + k );
            }
      }
      for ( auto i : is )
         if ( i >= f.min && i <= f.max )
            out.push_back( I( i ) );
      return out;
   }

   std::vector<Field> fieldList( bool thorough )
   {
      std::vector<Field> fs = { fld::Int( 0, 0 ), fld::Int( 5, 5 ), fld::Int( -7, -7 ), fld::Int( 0, 1 ), fld::Int( 1, 2 ), fld::Int( -1, 0 ),
                                fld::Int( 0, 255 ), fld::Int( -128, 127 ), fld::Int( -100, 100 ), fld::Int( 0, 65535 ), fld::Int( -32768, 32767 ),
                                fld::Int( 0, 4294967295LL ), fld::Int( -2147483648LL, 2147483647LL ), fld::Int( INT64_MIN, INT64_MAX ),
                                fld::Int( INT64_MAX - 1, INT64_MAX ), fld::Int( INT64_MAX, INT64_MAX ), fld::Int( INT64_MIN, INT64_MIN + 1 ),
                                fld::Int( INT64_MIN, 0 ), fld::Int( 0, INT64_MAX ), fld::F32(), fld::F64(), fld::Str() };
      const std::pair<double, double> so[] = { { 1, 0 }, { 0.001, 10 }, { 0.5, 0 }, { -2, 3 }, { 3, -1 }, { 1e-9, 1e5 }, { 1e300, 0 }, { 1e-300, 0 }, { 1, 0.25 } };
      const std::pair<int64_t, int64_t> ranges[] = { { -1000, 1000 }, { INT64_MIN, INT64_MAX }, { 7, 7 }, { 0, 255 }, { -2147483648LL, 2147483647LL } };
      for ( auto &s : so )
         for ( auto &g : ranges )
            if ( thorough || &g < ranges + 3 || &s < so + 3 )
               fs.push_back( fld::Sca( g.first, g.second, s.first, s.second ) );
      return fs;
   }
   const char *flags[] = { "", "conv", "scal", "conv+scal" };

   void put( m::Buf &b, size_t i, const V &v )
   {
      if ( b.rep == e57::UString )
         b.setStr( i, "text" );
      else if ( v.real )
         b.setReal( i, v.d );
      else
         b.setInt( i, v.i );
   }
   long double get( const m::Buf &b, size_t i )
   {
      return b.isReal() ? static_cast<long double>( b.getReal( i ) ) : static_cast<long double>( b.getInt( i ) );
   }

   // Read record k of vector "v" in its native type
   long double stored( e57::ImageFile &f, const m::N &field, const std::string &name, size_t count, size_t k )
   {
      e57::CompressedVectorNode cv( f.root().get( name ) );
      CHECK( cv.childCount() == static_cast<int64_t>( count ), "%lld records", (long long)cv.childCount() );
      m::N proto = m::structure( "prototype", { field } );
      auto cols = m::readRecords( cv, proto, 0 );
      auto &c = cols.at( 0 );
      CHECK( c.size() == count, "%zu records read", c.size() );
      if ( field.type == m::T::String )
      {
         CHECK( c.s[k] == "text", "wrong text" );
         return 0;
      }
      return field.type == m::T::Float ? static_cast<long double>( c.d[k] ) : static_cast<long double>( c.i[k] );
   }
}

void vh::enumerate( Run &r )
{
   const auto fields = fieldList( r.thorough );

   // 1. writing
   for ( auto &fd : fields )
      for ( R rep : m::allReps )
         for ( int fl = 0; fl < 4; ++fl )
         {
            if ( fl >= 2 && fd.node.type == m::T::String )
               continue;
            r.test( [&] { return fmt( "write %s from %s %s", fd.id.c_str(), m::repName( rep ), flags[fl] ); },
                    [&] {
                       m::N f = fd.node;
                       f.name = "f";
                       const bool conv = fl & 1, scal = fl & 2;
                       const auto values = valuesFor( f, rep, true );
                       std::vector<V> good;
                       std::vector<Want> goodWant;
                       std::vector<V> bad;
                       for ( auto &v : values )
                       {
                          const Want w = wantWrite( f, rep, conv, scal, v );
                          if ( w.error.empty() && !w.soft )
                          {
                             good.push_back( v );
                             goodWant.push_back( w );
                          }
                          else
                             bad.push_back( v );
                       }
                       const std::string p = r.path( "a.e57" );
                       auto make = [&]( e57::ImageFile &file, const std::string &name ) {
                          e57::StructureNode proto( file );
                          proto.set( "f", m::create( file, f ) );
                          e57::CompressedVectorNode cv( file, proto, e57::VectorNode( file, true ) );
                          file.root().set( name, cv );
                          return cv;
                       };
                       // the values that fit, in one block
                       if ( !good.empty() )
                       {
                          {
                             e57::ImageFile file( p, "w" );
                             auto cv = make( file, "v" );
                             m::Buf b( rep, good.size(), 0 );
                             for ( size_t i = 0; i < good.size(); ++i )
                                put( b, i, good[i] );
                             std::vector<e57::SourceDestBuffer> sb{ b.sdb( file, "f", conv, scal ) };
                             const std::string got = m::attempt( [&] {
                                auto w = cv.writer( sb );
                                w.write( good.size() );
                                w.close();
                             } );
                             CHECK( got == "ok", "writing %zu values that fit (%s ...): error %s", good.size(), show( good[0] ).c_str(), got.c_str() );
                             file.close();
                          }
                          e57::ImageFile file( p, "r" );
                          for ( size_t i = 0; i < good.size(); ++i )
                          {
                             judge( "write " + show( good[i] ), goodWant[i], "ok", stored( file, f, "v", good.size(), i ) );
                             r.count( "transfers" );
                          }
                          file.close();
                          r.outcome( fmt( "%s %s %s stored", fd.id.c_str(), m::repName( rep ), flags[fl] ) );
                       }
                       // those that do not, one at a time: alone, and between values that fit
                       for ( auto &v : bad )
                          for ( int place = 0; place < ( good.empty() ? 1 : 3 ); ++place )
                          {
                             const Want w = wantWrite( f, rep, conv, scal, v );
                             {
                                e57::ImageFile file( p, "w" );
                                auto cv = make( file, "v" );
                                const size_t n = place == 0 ? 1 : 3, at = place == 0 ? 0 : static_cast<size_t>( place );
                                m::Buf b( rep, n, 0 );
                                for ( size_t i = 0; i < n; ++i )
                                   put( b, i, i == at ? v : good[0] );
                                std::vector<e57::SourceDestBuffer> sb{ b.sdb( file, "f", conv, scal ) };
                                auto wr = cv.writer( sb );
                                const std::string got = m::attempt( [&] { wr.write( n ); } );
                                r.count( "transfers" );
                                r.outcome( fmt( "%s %s %s %s", fd.id.c_str(), m::repName( rep ), flags[fl], got.c_str() ) );
                                if ( got != "ok" )
                                {
                                   judge( "write " + show( v ), w, got, 0 );
                                   file.cancel();
                                   continue;
                                }
                                wr.close();
                                file.close();
                             }
                             e57::ImageFile file( p, "r" );
                             judge( "write " + show( v ), w, "ok", stored( file, f, "v", place == 0 ? 1 : 3, static_cast<size_t>( place ) ) );
                             file.close();
                          }
                    } );
         }

   // 2. reading
   for ( auto &fd : fields )
      for ( R rep : m::allReps )
         for ( int fl = 0; fl < 4; ++fl )
         {
            if ( fl >= 2 && fd.node.type != m::T::Scaled && fd.node.type != m::T::Integer )
               continue;
            r.test( [&] { return fmt( "read %s into %s %s", fd.id.c_str(), m::repName( rep ), flags[fl] ); },
                    [&] {
                       m::N f = fd.node;
                       f.name = "f";
                       const bool conv = fl & 1, scal = fl & 2;
                       const auto values = valuesFor( f, rep, false );
                       const std::string p = r.path( "a.e57" );
                       std::vector<V> good, bad;
                       for ( auto &v : values )
                       {
                          const Want w = wantRead( f, rep, conv, scal, v );
                          ( w.error.empty() && !w.soft ? good : bad ).push_back( v );
                       }
                       // vector 0 holds all values that can be read, each other one is in its own vector
                       std::vector<std::vector<V>> vectors{ good };
                       for ( auto &v : bad )
                       {
                          vectors.push_back( { v } );
                          if ( !good.empty() )
                             vectors.push_back( { good[0], v, good[0] } );
                       }
                       {
                          m::N doc = m::structure( "" );
                          for ( size_t k = 0; k < vectors.size(); ++k )
                          {
                             m::Col c;
                             c.path = "f";
                             c.type = f.type;
                             c.single = f.single;
                             for ( auto &v : vectors[k] )
                                if ( f.type == m::T::String )
                                   c.s.push_back( "text" );
                                else if ( v.real )
                                   c.d.push_back( v.d );
                                else
                                   c.i.push_back( v.i );
                             if ( c.size() )
                                doc.kids.push_back( m::cv( "v" + std::to_string( k ), m::structure( "prototype", { f } ), { c } ) );
                          }
                          e57::ImageFile file( p, "w" );
                          m::writeDoc( file, doc );
                          file.close();
                       }
                       e57::ImageFile file( p, "r" );
                       for ( size_t k = 0; k < vectors.size(); ++k )
                       {
                          auto &vs = vectors[k];
                          if ( vs.empty() )
                             continue;
                          m::Buf b( rep, vs.size(), 0 );
                          b.poison();
                          std::vector<e57::SourceDestBuffer> sb{ b.sdb( file, "f", conv, scal ) };
                          auto rd = e57::CompressedVectorNode( file.root().get( "v" + std::to_string( k ) ) ).reader( sb );
                          unsigned n = 0;
                          const std::string got = m::attempt( [&] { n = rd.read(); } );
                          r.count( "transfers", vs.size() );
                          r.outcome( fmt( "%s %s %s %s", fd.id.c_str(), m::repName( rep ), flags[fl], got.c_str() ) );
                          if ( k == 0 )
                             CHECK( got == "ok" && n == vs.size(), "reading %zu values that fit (%s ...): %s, %u records", vs.size(),
                                    show( vs[0] ).c_str(), got.c_str(), n );
                          const V &special = vs[vs.size() / 2];
                          if ( got != "ok" )
                             judge( "read " + show( special ), wantRead( f, rep, conv, scal, special ), got, 0 );
                          else
                          {
                             CHECK( n == vs.size(), "%u records", n );
                             for ( size_t i = 0; i < vs.size(); ++i )
                                if ( f.type == m::T::String )
                                   CHECK( b.strs[i] == "text", "wrong text" );
                                else
                                   judge( "read " + show( vs[i] ), wantRead( f, rep, conv, scal, vs[i] ), "ok", get( b, i ) );
                          }
                          rd.close();
                       }
                       file.close();
                    } );
         }

   // 3. the same field with a value that does not fit behind many that do (full packets)
   for ( auto &fd : { fld::Int( 0, 100 ), fld::Sca( -50, 50, 0.5, 1 ), fld::F32(), fld::Int( 3, 3 ) } )
      for ( size_t before : { size_t( 0 ), size_t( 7 ), size_t( 63 ), size_t( 64 ), size_t( 1023 ), size_t( 1024 ), size_t( 20000 ) } )
         r.test( [&] { return fmt( "late %s before=%zu", fd.id.c_str(), before ); },
                 [&] {
                    m::N f = fd.node;
                    f.name = "f";
                    const std::string p = r.path( "a.e57" );
                    e57::ImageFile file( p, "w" );
                    e57::StructureNode proto( file );
                    proto.set( "f", m::create( file, f ) );
                    e57::CompressedVectorNode cv( file, proto, e57::VectorNode( file, true ) );
                    file.root().set( "v", cv );
                    m::Buf b( f.single ? e57::Real64 : e57::Int64, before + 2, 0 );
                    for ( size_t i = 0; i < before + 2; ++i )
                       put( b, i, f.single ? D( 1.5 ) : I( 3 ) );
                    put( b, before, f.single ? D( 1e39 ) : I( 101 ) );
                    std::vector<e57::SourceDestBuffer> sb{ b.sdb( file, "f", true, false ) };
                    auto wr = cv.writer( sb );
                    const std::string got = m::attempt( [&] { wr.write( before + 2 ); } );
                    CHECK( got == ( f.single ? TooLarge : OutOfBounds ), "record %zu: %s", before, got.c_str() );
                    file.cancel();
                    r.count( "transfers", before + 2 );
                    r.outcome( fmt( "%s late %s", fd.id.c_str(), got.c_str() ) );
                 } );

   // 4. element values: all triples (minimum, value, maximum)
   {
      const std::vector<int64_t> c = { INT64_MIN, INT64_MIN + 1, -2147483649, -1, 0, 1, 2147483648, INT64_MAX - 1, INT64_MAX };
      for ( auto lo : c )
         for ( auto hi : c )
            r.test( [&] { return fmt( "element integer %lld..%lld", (long long)lo, (long long)hi ); },
                    [&] {
                       const std::string p = r.path( "a.e57" );
                       e57::ImageFile f( p, "w" );
                       e57::VectorNode v( f, true );
                       f.root().set( "v", v );
                       m::N want = m::vec( "v", true );
                       for ( auto x : c )
                       {
                          const bool in = lo <= x && x <= hi;
                          const std::string a = m::attempt( [&] { v.append( e57::IntegerNode( f, x, lo, hi ) ); } );
                          CHECK( a == ( in ? "ok" : OutOfBounds ), "IntegerNode %lld: %s", (long long)x, a.c_str() );
                          const std::string b = m::attempt( [&] { v.append( e57::ScaledIntegerNode( f, x, lo, hi, 0.25, -1 ) ); } );
                          CHECK( b == ( in ? "ok" : OutOfBounds ), "ScaledIntegerNode %lld: %s", (long long)x, b.c_str() );
                          if ( in )
                          {
                             want.kids.push_back( m::integer( "", x, lo, hi ) );
                             want.kids.push_back( m::scaled( "", x, lo, hi, 0.25, -1 ) );
                          }
                          r.count( "transfers", 2 );
                       }
                       f.close();
                       e57::ImageFile g( p, "r" );
                       const std::string df = m::diff( m::structure( "", { want } ), m::observeFile( g ) );
                       CHECK( df.empty(), "%s", df.c_str() );
                       g.close();
                       r.outcome( fmt( "%zu elements", want.kids.size() ) );
                    } );
      const std::vector<double> d = { -DBL_MAX, -1e39, -3.4028234663852886e38, -1.5, 0, 0.1, 1.5, 3.4028234663852886e38, 1e39, DBL_MAX };
      for ( int single = 0; single < 2; ++single )
         for ( auto lo : d )
            for ( auto hi : d )
               r.test( [&] { return fmt( "element float%d %.17g..%.17g", single ? 32 : 64, lo, hi ); },
                       [&] {
                          const std::string p = r.path( "a.e57" );
                          e57::ImageFile f( p, "w" );
                          e57::VectorNode v( f, true );
                          f.root().set( "v", v );
                          std::vector<double> kept;
                          const double L = single && lo < -FLT_MAX ? -FLT_MAX : lo, H = single && hi > FLT_MAX ? FLT_MAX : hi;
                          for ( auto x : { -static_cast<double>( INFINITY ), -DBL_MAX, -1e39, -3.4028234663852886e38, -1.5, -0.5, 0.0, 0.1, 1.5, 2.0, 3.4028234663852886e38, 1e39,
                                           DBL_MAX, static_cast<double>( INFINITY ) } )
                          {
                             const bool in = L <= x && x <= H;
                             const std::string a = m::attempt( [&] {
                                e57::FloatNode n( f, x, single ? e57::PrecisionSingle : e57::PrecisionDouble, lo, hi );
                                CHECK( m::sameDouble( n.value(), x ) || ( single && m::sameDouble( n.value(), static_cast<float>( x ) ) ), "value %.17g", n.value() );
                                v.append( n );
                             } );
                             CHECK( a == ( in ? "ok" : OutOfBounds ), "FloatNode %.17g: %s", x, a.c_str() );
                             if ( in )
                                kept.push_back( x );
                             r.count( "transfers" );
                          }
                          f.close();
                          e57::ImageFile g( p, "r" );
                          e57::VectorNode w( g.root().get( "v" ) );
                          CHECK( w.childCount() == static_cast<int64_t>( kept.size() ), "%lld elements", (long long)w.childCount() );
                          for ( size_t i = 0; i < kept.size(); ++i )
                          {
                             e57::FloatNode n( w.get( static_cast<int64_t>( i ) ) );
                             const double want = single ? static_cast<float>( kept[i] ) : kept[i];
                             CHECK( m::sameDouble( n.value(), want ), "%.17g read back as %.17g", kept[i], n.value() );
                          }
                          g.close();
                          r.outcome( fmt( "%zu elements", kept.size() ) );
                       } );
      // scaled elements given by their scaled values
      for ( double scale : { 1.0, 0.5, 0.001, -2.0, 1e300, 1e-300, 3.0 } )
         for ( double off : { 0.0, 10.0, -0.25, 1e10 } )
            r.test( [&] { return fmt( "element scaled %g+%g", scale, off ); },
                    [&] {
                       const std::string p = r.path( "a.e57" );
                       e57::ImageFile f( p, "w" );
                       for ( double x : { -1e300, -1e25, -9.3e18, -9.2e18, -1e10, -100.0, -0.5, 0.0, 0.3, 0.5, 100.0, 1e10, 9.2e18, 9.3e18, 1e25, 1e300,
                                          static_cast<double>( INFINITY ), static_cast<double>( NAN ) } )
                       {
                          const long double t = ( static_cast<long double>( x ) - off ) / scale;
                          int64_t raw = 0;
                          double back = 0;
                          const std::string a = m::attempt( [&] {
                             e57::ScaledIntegerNode n( f, x, x, x, scale, off );
                             raw = n.rawValue();
                             back = n.scaledValue();
                             CHECK( n.minimum() == raw && n.maximum() == raw, "bounds %lld %lld of %lld", (long long)n.minimum(), (long long)n.maximum(), (long long)raw );
                          } );
                          const bool surely = std::fabs( t ) < 9.22e18L, never = !( std::fabs( t ) < 9.2234e18L );
                          r.count( "transfers" );
                          r.outcome( fmt( "scaled %g %g %g: %s", scale, off, x, a.c_str() ) );
                          if ( surely )
                             CHECK( a == "ok", "scaled value %g refused: %s", x, a.c_str() );
                          if ( never )
                             CHECK( a == std::to_string( e57::ErrorBadAPIArgument ) || a == OutOfBounds || a == ScaledNotRep,
                                    "scaled value %g of scale %g offset %g: %s (raw %lld)", x, scale, off, a.c_str(), (long long)raw );
                          if ( a == "ok" )
                          {
                             const long double slack = eps * ( std::fabs( x / scale ) + std::fabs( off / scale ) + 1 );
                             CHECK( std::fabs( raw - t ) <= 0.5L + slack, "scaled value %g: raw %lld", x, (long long)raw );
                             const long double s = static_cast<long double>( raw ) * scale + off;
                             CHECK( std::fabs( back - s ) <= eps * ( std::fabs( s ) + std::fabs( off ) ), "scaledValue %g instead of %Lg", back, s );
                          }
                       }
                       f.close();
                    } );
   }
}
