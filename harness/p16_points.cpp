// P16: scan points, groups and images survive the Simple API round trip.
//
// All single fields, all pairs of fields and all fields together, with every node type, with float
// and double buffers for writing and reading, all block sizes of a list, parts of the fields, several
// scans in every order, groups, and images in pieces.
#include <xercesc/util/PlatformUtils.hpp>

#include "simple.hpp"

using namespace vh;
using namespace simple;

namespace
{
   const int FIELDS = 23;
   const uint32_t ALL = ( 1u << FIELDS ) - 1;

   // ---- scans ----
   struct Scan
   {
      uint32_t fields = ALL;
      int types = 0; // 0 double, 1 single, 2 scaled integer, 3 integer or scaled integer
      size_t count = 3;
      uint64_t salt = 0;
      std::string show() const
      {
         return fmt( "%06x/%d/%zu", fields, types, count );
      }
   };

   Data3D header( const Scan &s )
   {
      Data3D d;
      d.guid = fmt( "scan %llu", (unsigned long long)s.salt );
      d.pointCount = s.count;
      Flags &f = d.pointFields;
      for ( int k = 0; k < FIELDS; ++k )
         f.*fields()[k].flag = ( s.fields >> k ) & 1;
      const auto type = [&]( Type &t, bool integer ) {
         t = s.types == 0   ? Type::Double
             : s.types == 1 ? Type::Float
             : s.types == 3 && integer ? Type::Integer
                                       : Type::ScaledInteger;
      };
      type( f.pointRangeNodeType, false );
      type( f.angleNodeType, false );
      type( f.timeNodeType, true );
      type( f.intensityNodeType, true );
      if ( s.types >= 2 )
      {
         f.pointRangeScale = s.types == 2 ? 0.001 : 0.25;
         f.pointRangeMinimum = s.types == 2 ? -100 : 4, f.pointRangeMaximum = 1000;
         f.angleScale = s.types == 2 ? 0.0001 : 0.5;
         f.angleMinimum = -4, f.angleMaximum = s.types == 2 ? 7 : -1;
         f.timeScale = 0.125;
         f.timeMinimum = s.types == 2 ? -1000 : 10, f.timeMaximum = 2000000;
         f.intensityScale = 0.5;
      }
      d.intensityLimits.intensityMinimum = s.types == 3 ? -20 : 0;
      d.intensityLimits.intensityMaximum = s.types == 0 ? 1 : s.types == 1 ? 255 : 4095;
      const double lo[] = { 0, 0, 10, 0 }, hi[] = { 255, 65535, 500, 1 };
      auto &c = d.colorLimits;
      c.colorRedMinimum = c.colorGreenMinimum = c.colorBlueMinimum = lo[s.types];
      c.colorRedMaximum = c.colorGreenMaximum = c.colorBlueMaximum = hi[s.types];
      f.rowIndexMaximum = s.types == 0 ? INT32_MAX : s.types == 1 ? 255 : 1000 + s.types;
      f.columnIndexMaximum = s.types == 0 ? 1 : s.types == 1 ? INT32_MAX : 77;
      f.returnMaximum = s.types == 0 ? 255 : s.types == 1 ? 1 : 10;
      return d;
   }

   uint64_t mix( uint64_t x )
   {
      x += 0x9E3779B97F4A7C15ull;
      x = ( x ^ ( x >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
      x = ( x ^ ( x >> 27 ) ) * 0x94D049BB133111EBull;
      return x ^ ( x >> 31 );
   }
   Type typeOf( const Data3D &d, int field )
   {
      switch ( fields()[field].kind )
      {
         case Point:
            return d.pointFields.pointRangeNodeType;
         case Angle:
            return d.pointFields.angleNodeType;
         case Time:
            return d.pointFields.timeNodeType;
         case Intensity:
            return d.pointFields.intensityNodeType;
         case Normal:
            return Type::Float;
         default:
            return Type::Integer;
      }
   }
   double scaleOf( const Data3D &d, int field )
   {
      switch ( fields()[field].kind )
      {
         case Point:
            return d.pointFields.pointRangeScale;
         case Angle:
            return d.pointFields.angleScale;
         case Time:
            return d.pointFields.timeScale;
         default:
            return d.pointFields.intensityScale;
      }
   }
   // The value given to the writer
   double value( const Data3D &d, const Scan &s, int field, size_t i )
   {
      double lo, hi;
      limits( d, field, lo, hi );
      const Kind kind = fields()[field].kind;
      if ( kind == Point || kind == Angle || kind == Time )
         lo = std::max( lo, -1e6 ), hi = std::min( hi, 1e6 );
      const uint64_t r = mix( s.salt * 1000003 + static_cast<uint64_t>( field ) * 7919 + i );
      const size_t at = ( i + static_cast<size_t>( field ) ) % 6;
      double v = at == 0   ? lo
                 : at == 1 ? hi
                           : lo + ( hi - lo ) * ( static_cast<double>( r >> 11 ) / 9007199254740992.0 );
      switch ( typeOf( d, field ) )
      {
         case Type::Integer:
            v = std::floor( v );
            break;
         case Type::ScaledInteger:
            // other values than coordinates are not rounded
            if ( kind == Time || kind == Intensity )
               v = std::floor( v / scaleOf( d, field ) ) * scaleOf( d, field );
            break;
         case Type::Float:
            if ( kind != Point && kind != Angle )
               v = static_cast<float>( v );
            break;
         default:
            break;
      }
      return v;
   }
   // The value that has to be read
   template <typename W, typename R> double expected( const Data3D &d, const Scan &s, int field, size_t i )
   {
      double v = value( d, s, field, i );
      const Kind kind = fields()[field].kind;
      if ( kind != Point && kind != Angle )
         return v;
      v = static_cast<W>( v );
      if ( typeOf( d, field ) == Type::ScaledInteger )
      {
         const double scale = scaleOf( d, field );
         v = static_cast<double>( static_cast<int64_t>( std::floor( v / scale + .5 ) ) ) * scale;
      }
      else if ( typeOf( d, field ) == Type::Float )
         v = static_cast<float>( v );
      return static_cast<R>( v );
   }

   enum WriteMode
   {
      AtOnce,   // WriteData3DData
      Blocks,   // NewData3D, SetUpData3DPointsData and blocks
      Allocated // buffers allocated by Data3DPointsData
   };

   template <typename T> void fill( Buffers<T> &b, const Data3D &d, const Scan &s, size_t from, size_t n )
   {
      for ( int k = 0; k < FIELDS; ++k )
         if ( ( s.fields >> k ) & 1 )
            for ( size_t i = 0; i < n; ++i )
               b.set( k, i, value( d, s, k, from + i ) );
   }

   template <typename T>
   void writePoints( e57::Writer &w, int64_t index, const Data3D &d, const Scan &s, size_t block )
   {
      Buffers<T> b( d.pointFields, block );
      auto writer = w.SetUpData3DPointsData( index, block, b.b );
      for ( size_t from = 0; from < s.count; from += block )
      {
         const size_t n = std::min( block, s.count - from );
         fill( b, d, s, from, n );
         writer.write( n );
      }
      writer.close();
   }
   // Returns the header that determines the values
   template <typename T> Data3D writeScan( e57::Writer &w, const Scan &s, WriteMode mode, size_t block )
   {
      Data3D d = header( s );
      const Data3D given = d;
      if ( mode == AtOnce )
      {
         Buffers<T> b( d.pointFields, s.count );
         fill( b, given, s, 0, s.count );
         w.WriteData3DData( d, b.b );
         return given;
      }
      if ( mode == Allocated )
      {
         e57::Data3DPointsData_t<T> b( d );
         // the values are chosen for the given limits
         Data3D values = given;
         values.pointFields.pointRangeNodeType = d.pointFields.pointRangeNodeType;
         values.pointFields.angleNodeType = d.pointFields.angleNodeType;
         eachBuffer( b, [&]( int k, auto *&p ) {
            CHECK( ( p != nullptr ) == static_cast<bool>( ( s.fields >> k ) & 1 ), "buffer of %s", fields()[k].name );
            if ( p )
               for ( size_t i = 0; i < s.count; ++i )
                  p[i] = static_cast<std::remove_reference_t<decltype( *p )>>( value( values, s, k, i ) );
         } );
         w.WriteData3DData( d, b );
         return values;
      }
      const int64_t index = w.NewData3D( d );
      writePoints<T>( w, index, d, s, block );
      return given;
   }

   template <typename W, typename R>
   void readScan( e57::Reader &r, int64_t index, const Data3D &d, const Scan &s, size_t block, uint32_t which )
   {
      Data3D h;
      CHECK( r.ReadData3D( index, h ), "ReadData3D returned false" );
      CHECK( h.pointCount == s.count, "%zu points instead of %zu", static_cast<size_t>( h.pointCount ), s.count );
      if ( s.count == 0 )
         return;
      for ( int k = 0; k < FIELDS; ++k )
         CHECK( h.pointFields.*fields()[k].flag == static_cast<bool>( ( s.fields >> k ) & 1 ), "field %s",
                fields()[k].name );
      Flags wanted = h.pointFields;
      for ( int k = 0; k < FIELDS; ++k )
         wanted.*fields()[k].flag = ( which >> k ) & 1;
      Buffers<R> b( wanted, block );
      const auto compare = [&]( auto get, size_t from, size_t n ) {
         for ( int k = 0; k < FIELDS; ++k )
            if ( ( which >> k ) & 1 & ( s.fields >> k ) )
               for ( size_t i = 0; i < n; ++i )
               {
                  const double want = expected<W, R>( d, s, k, from + i ), got = get( k, i );
                  CHECK( got == want, "%s of point %zu is %.17g instead of %.17g", fields()[k].name, from + i, got,
                         want );
               }
      };
      {
         auto reader = r.SetUpData3DPointsData( index, block, b.b );
         size_t from = 0;
         for ( ;; )
         {
            const size_t n = reader.read();
            if ( n == 0 )
               break;
            CHECK( n <= block && from + n <= s.count, "%zu points after %zu of %zu", n, from, s.count );
            CHECK( n == block || from + n == s.count, "%zu points in a block of %zu", n, block );
            compare( [&]( int k, size_t i ) { return b.get( k, i ); }, from, n );
            from += n;
         }
         CHECK( from == s.count, "%zu points read instead of %zu", from, s.count );
         reader.close();
      }
   }
   // As the documentation does it: buffers allocated for the header that was read
   template <typename W, typename R> void readAllocated( e57::Reader &r, int64_t index, const Data3D &d, const Scan &s )
   {
      Data3D h;
      CHECK( r.ReadData3D( index, h ), "ReadData3D returned false" );
      e57::Data3DPointsData_t<R> b( h );
      eachBuffer( b, []( int, auto *&p ) {
         if ( p )
            p[0] = 1;
      } );
      auto reader = r.SetUpData3DPointsData( index, h.pointCount, b );
      const size_t n = reader.read();
      CHECK( n == s.count, "%zu points instead of %zu", n, s.count );
      eachBuffer( b, [&]( int k, auto *&p ) {
         CHECK( ( p != nullptr ) == static_cast<bool>( ( s.fields >> k ) & 1 ), "buffer of %s", fields()[k].name );
         if ( p )
            for ( size_t i = 0; i < n; ++i )
            {
               const double want = expected<W, R>( d, s, k, i ), got = static_cast<double>( p[i] );
               CHECK( got == want, "%s of point %zu is %.17g instead of %.17g", fields()[k].name, i, got, want );
            }
      } );
      reader.close();
   }

   void writeAny( bool single, e57::Writer &w, const Scan &s, WriteMode mode, size_t block, Data3D &d )
   {
      d = single ? writeScan<float>( w, s, mode, block ) : writeScan<double>( w, s, mode, block );
   }
   void readAny( bool wSingle, bool rSingle, e57::Reader &r, int64_t index, const Data3D &d, const Scan &s, size_t block,
                 uint32_t which )
   {
      if ( wSingle && rSingle )
         readScan<float, float>( r, index, d, s, block, which );
      else if ( wSingle )
         readScan<float, double>( r, index, d, s, block, which );
      else if ( rSingle )
         readScan<double, float>( r, index, d, s, block, which );
      else
         readScan<double, double>( r, index, d, s, block, which );
   }
   void readAllocatedAny( bool wSingle, bool rSingle, e57::Reader &r, int64_t index, const Data3D &d, const Scan &s )
   {
      if ( wSingle && rSingle )
         readAllocated<float, float>( r, index, d, s );
      else if ( wSingle )
         readAllocated<float, double>( r, index, d, s );
      else if ( rSingle )
         readAllocated<double, float>( r, index, d, s );
      else
         readAllocated<double, double>( r, index, d, s );
   }

   void oneScan( const std::string &file, const Scan &s, bool wSingle, WriteMode mode, size_t wBlock, size_t rBlock,
                 uint32_t which )
   {
      Data3D d;
      {
         e57::Writer w( file, e57::WriterOptions{} );
         writeAny( wSingle, w, s, mode, wBlock, d );
         w.Close();
      }
      e57::Reader r( file, e57::ReaderOptions{} );
      for ( bool rSingle : { false, true } )
      {
         readAny( wSingle, rSingle, r, 0, d, s, rBlock, which );
         if ( s.count && which == s.fields )
            readAllocatedAny( wSingle, rSingle, r, 0, d, s );
      }
   }

   // ---- limits calculated by WriteData3DData ----
   template <typename T> void calculated( const std::string &file, uint32_t which, size_t count, bool allocated, double shift )
   {
      Scan s;
      s.fields = which;
      s.types = 2;
      s.count = count;
      s.salt = which;
      Data3D d = header( s );
      const Data3D given = d;
      const auto val = [&]( int k, size_t i ) {
         const double v = fields()[k].kind == Time ? 0.125 * ( static_cast<double>( i ) * 3 + k ) + shift
                          : fields()[k].kind == Point || fields()[k].kind == Angle
                             ? static_cast<double>( static_cast<T>( shift + 0.37 * static_cast<double>( i ) -
                                                                    1.9 * k ) )
                             : value( given, s, k, i );
         return v;
      };
      const Flags none;
      d.pointFields.pointRangeMinimum = none.pointRangeMinimum, d.pointFields.pointRangeMaximum = none.pointRangeMaximum;
      d.pointFields.angleMinimum = none.angleMinimum, d.pointFields.angleMaximum = none.angleMaximum;
      d.pointFields.timeMinimum = none.timeMinimum, d.pointFields.timeMaximum = none.timeMaximum;
      const auto write = [&]( e57::Data3DPointsData_t<T> &b ) {
         eachBuffer( b, [&]( int k, auto *&p ) {
            if ( p )
               for ( size_t i = 0; i < count; ++i )
                  p[i] = static_cast<std::remove_reference_t<decltype( *p )>>( val( k, i ) );
         } );
         e57::Writer w( file, e57::WriterOptions{} );
         w.WriteData3DData( d, b );
         w.Close();
      };
      if ( allocated )
      {
         e57::Data3DPointsData_t<T> b( d );
         write( b );
      }
      else
      {
         Buffers<T> b( d.pointFields, count );
         write( b.b );
      }
      e57::Reader r( file, e57::ReaderOptions{} );
      Data3D h;
      CHECK( r.ReadData3D( 0, h ), "ReadData3D returned false" );
      CHECK( h.pointCount == count, "%zu points", static_cast<size_t>( h.pointCount ) );
      if ( !count )
         return;
      Buffers<double> b( h.pointFields, count );
      auto reader = r.SetUpData3DPointsData( 0, count, b.b );
      CHECK( reader.read() == count, "not all points are read" );
      reader.close();
      double lo[3] = { DBL_MAX, DBL_MAX, DBL_MAX }, hi[3] = { -DBL_MAX, -DBL_MAX, -DBL_MAX };
      for ( int k = 0; k < FIELDS; ++k )
         if ( ( which >> k ) & 1 )
            for ( size_t i = 0; i < count; ++i )
            {
               double want = val( k, i );
               const Kind kind = fields()[k].kind;
               if ( kind == Point || kind == Angle )
               {
                  const double scale = scaleOf( given, k );
                  want = static_cast<double>( static_cast<int64_t>( std::floor( want / scale + .5 ) ) ) * scale;
               }
               const double got = b.get( k, i );
               CHECK( got == want, "%s of point %zu is %.17g instead of %.17g", fields()[k].name, i, got, want );
               const int q = kind == Point ? 0 : kind == Angle ? 1 : kind == Time ? 2 : -1;
               if ( q >= 0 )
                  lo[q] = std::min( lo[q], want ), hi[q] = std::max( hi[q], want );
            }
      // the limits have to be those of the points
      const Flags &f = h.pointFields;
      if ( f.cartesianXField || f.sphericalRangeField )
         CHECK( f.pointRangeMinimum == lo[0] && f.pointRangeMaximum == hi[0], "range %.17g to %.17g instead of %.17g to %.17g",
                f.pointRangeMinimum, f.pointRangeMaximum, lo[0], hi[0] );
      if ( f.sphericalAzimuthField )
         CHECK( f.angleMinimum == lo[1] && f.angleMaximum == hi[1], "angles %.17g to %.17g instead of %.17g to %.17g",
                f.angleMinimum, f.angleMaximum, lo[1], hi[1] );
      if ( f.timeStampField )
         CHECK( f.timeMinimum == lo[2] && f.timeMaximum == hi[2], "times %.17g to %.17g instead of %.17g to %.17g",
                f.timeMinimum, f.timeMaximum, lo[2], hi[2] );
   }

   // ---- groups ----
   void groups( const std::string &file, const char *name, size_t n, size_t ask, int null, size_t points )
   {
      std::vector<int64_t> id, start, count;
      for ( size_t i = 0; i < n; ++i )
      {
         id.push_back( static_cast<int64_t>( n - 1 - i ) );
         start.push_back( static_cast<int64_t>( ( i * 7 + 3 ) % points ) );
         count.push_back( static_cast<int64_t>( ( i * 5 + 1 ) % 20 ) );
      }
      Scan s;
      s.fields = 7;
      s.count = points;
      {
         e57::Writer w( file, e57::WriterOptions{} );
         for ( int k = 0; k < 3; ++k ) // one scan without groups
         {
            Data3D d = header( s );
            if ( k != 1 )
            {
               auto &g = d.pointGroupingSchemes.groupingByLine;
               g.idElementName = name;
               g.groupsSize = static_cast<int64_t>( n );
               g.pointCountSize = 19 + k;
            }
            const int64_t index = w.NewData3D( d );
            writePoints<double>( w, index, d, s, points );
            // the second scheme is the reverse
            if ( k == 2 )
            {
               std::reverse( start.begin(), start.end() );
               std::reverse( count.begin(), count.end() );
            }
            const bool ok = w.WriteData3DGroupsData( index, n, id.data(), start.data(), count.data() );
            CHECK( ok == ( k != 1 ), "WriteData3DGroupsData returned %d", ok );
         }
         for ( int64_t bad : { -1, 3 } )
            CHECK( !w.WriteData3DGroupsData( bad, n, id.data(), start.data(), count.data() ), "scan %lld has groups",
                   (long long)bad );
         w.Close();
      }
      e57::Reader r( file, e57::ReaderOptions{} );
      for ( int k : { 2, 1, 0 } )
      {
         std::vector<int64_t> a( ask + 1, -9 ), b( ask + 1, -9 ), c( ask + 1, -9 );
         const bool ok = r.ReadData3DGroupsData( k, ask, null == 1 ? nullptr : a.data(), null == 2 ? nullptr : b.data(),
                                                 null == 3 ? nullptr : c.data() );
         CHECK( ok == ( k != 1 ), "ReadData3DGroupsData returned %d", ok );
         if ( k == 1 )
            continue;
         if ( k == 0 )
         {
            std::reverse( start.begin(), start.end() );
            std::reverse( count.begin(), count.end() );
         }
         for ( size_t i = 0; i <= ask; ++i )
         {
            const bool in = i < ask && i < n;
            CHECK( a[i] == ( in && null != 1 ? id[i] : -9 ), "id of group %zu is %lld", i, (long long)a[i] );
            CHECK( b[i] == ( in && null != 2 ? start[i] : -9 ), "start of group %zu is %lld", i, (long long)b[i] );
            CHECK( c[i] == ( in && null != 3 ? count[i] : -9 ), "count of group %zu is %lld", i, (long long)c[i] );
         }
      }
   }

   // ---- images ----
   const e57::Image2DProjection PROJECTIONS[] = { e57::ProjectionVisual, e57::ProjectionPinhole, e57::ProjectionSpherical,
                                                  e57::ProjectionCylindrical };
   const e57::Image2DType IMAGES[] = { e57::ImageJPEG, e57::ImagePNG, e57::ImageMaskPNG };
   struct Picture
   {
      int projection; // number of PROJECTIONS
      bool png;
      size_t size, mask;
   };
   template <typename R> void sizes( R &r, const Picture &p )
   {
      ( p.png ? r.pngImageSize : r.jpegImageSize ) = static_cast<int64_t>( p.size );
      r.imageMaskSize = static_cast<int64_t>( p.mask );
      r.imageWidth = 10, r.imageHeight = 20;
   }
   void add( Image2D &i, const Picture &p )
   {
      if ( p.projection == 0 )
         sizes( i.visualReferenceRepresentation, p );
      else if ( p.projection == 1 )
         sizes( i.pinholeRepresentation, p );
      else if ( p.projection == 2 )
         sizes( i.sphericalRepresentation, p );
      else
         sizes( i.cylindricalRepresentation, p );
   }
   std::vector<uint8_t> content( size_t image, const Picture &p, bool mask )
   {
      std::vector<uint8_t> out( mask ? p.mask : p.size );
      for ( size_t i = 0; i < out.size(); ++i )
         out[i] = static_cast<uint8_t>( mix( image * 1000 + p.projection * 10 + mask + i * 77777 ) );
      return out;
   }
   // pieces: size of the pieces for writing and reading; backwards: last piece first
   void images( const std::string &file, const std::vector<std::vector<Picture>> &all, size_t wPiece, size_t rPiece,
                bool backwards, bool inOne )
   {
      const auto pieces = []( size_t size, size_t piece, bool back ) {
         std::vector<std::pair<size_t, size_t>> out;
         for ( size_t at = 0; at < size; at += piece )
            out.push_back( { at, std::min( piece, size - at ) } );
         if ( back )
            std::reverse( out.begin(), out.end() );
         return out;
      };
      const auto has = [&]( size_t k, int projection, e57::Image2DType t ) -> const Picture * {
         for ( auto &p : all[k] )
            if ( p.projection == projection && ( t == e57::ImageMaskPNG ? p.mask > 0
                                                 : t == e57::ImagePNG   ? p.png
                                                                        : !p.png ) )
               return &p;
         return nullptr;
      };
      {
         e57::Writer w( file, e57::WriterOptions{} );
         for ( size_t k = 0; k < all.size(); ++k )
         {
            Image2D i;
            i.guid = fmt( "image %zu", k );
            for ( auto &p : all[k] )
               add( i, p );
            if ( inOne )
            {
               const Picture &p = all[k][0];
               auto bytes = content( k, p, false );
               const int64_t n =
                  w.WriteImage2DData( i, p.png ? e57::ImagePNG : e57::ImageJPEG, PROJECTIONS[p.projection], 0,
                                      bytes.data(), static_cast<int64_t>( bytes.size() ) );
               CHECK( n == static_cast<int64_t>( p.size ), "%lld bytes written", (long long)n );
            }
            else
            {
               const int64_t index = w.NewImage2D( i );
               CHECK( index == static_cast<int64_t>( k ), "image number %lld", (long long)index );
            }
         }
         for ( size_t k = 0; k < all.size(); ++k )
            for ( int projection = 0; projection < 4; ++projection )
               for ( auto t : IMAGES )
               {
                  const Picture *p = has( k, projection, t );
                  if ( !p )
                  {
                     uint8_t byte = 1;
                     const int64_t n =
                        w.WriteImage2DData( static_cast<int64_t>( k ), t, PROJECTIONS[projection], &byte, 0, 1 );
                     CHECK( n == 0, "%lld bytes written to an image that is not there", (long long)n );
                     continue;
                  }
                  const bool mask = t == e57::ImageMaskPNG;
                  if ( inOne && p == &all[k][0] && !mask )
                     continue;
                  auto bytes = content( k, *p, mask );
                  for ( auto &x : pieces( bytes.size(), wPiece, backwards ) )
                  {
                     const int64_t n = w.WriteImage2DData( static_cast<int64_t>( k ), t, PROJECTIONS[projection],
                                                           bytes.data() + x.first, static_cast<int64_t>( x.first ),
                                                           static_cast<int64_t>( x.second ) );
                     CHECK( n == static_cast<int64_t>( x.second ), "%lld bytes written", (long long)n );
                  }
               }
         uint8_t byte = 1;
         for ( int64_t bad : { int64_t( -1 ), static_cast<int64_t>( all.size() ) } )
            CHECK( w.WriteImage2DData( bad, e57::ImageJPEG, e57::ProjectionVisual, &byte, 0, 1 ) == 0,
                   "image %lld was written", (long long)bad );
         w.Close();
      }
      e57::Reader r( file, e57::ReaderOptions{} );
      for ( size_t k = all.size(); k-- > 0; )
         for ( int projection = 0; projection < 4; ++projection )
            for ( auto t : IMAGES )
            {
               const Picture *p = has( k, projection, t );
               if ( !p )
               {
                  uint8_t byte = 7;
                  const int64_t n =
                     r.ReadImage2DData( static_cast<int64_t>( k ), PROJECTIONS[projection], t, &byte, 0, 1 );
                  CHECK( n == 0 && byte == 7, "%lld bytes read of an image that is not there", (long long)n );
                  continue;
               }
               const auto bytes = content( k, *p, t == e57::ImageMaskPNG );
               std::vector<uint8_t> got( bytes.size() + 1, 0xEE );
               for ( auto &x : pieces( bytes.size(), rPiece, !backwards ) )
               {
                  const int64_t n = r.ReadImage2DData( static_cast<int64_t>( k ), PROJECTIONS[projection], t,
                                                       got.data() + x.first, static_cast<int64_t>( x.first ),
                                                       static_cast<int64_t>( x.second ) );
                  CHECK( n == static_cast<int64_t>( x.second ), "%lld bytes read", (long long)n );
               }
               CHECK( got.back() == 0xEE, "a byte behind the image was written" );
               got.pop_back();
               CHECK( got == bytes, "image %zu, projection %d, type %d has other bytes", k, projection, t );
            }
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();
   const auto scan = [&]( const Scan &s, bool single, WriteMode mode, size_t wb, size_t rb, uint32_t which ) {
      r.test( fmt( "scan %s %s mode%d %zu %zu %06x", s.show().c_str(), single ? "float" : "double", mode, wb, rb, which ),
              [&] {
                 oneScan( r.path( "p.e57" ), s, single, mode, wb, rb, which );
                 r.outcome( fmt( "scan %06x %d %d %d", s.fields, s.types, single, mode ) );
              } );
   };

   // single fields and pairs of fields
   for ( int a = 0; a < FIELDS; ++a )
      for ( int b = a; b < FIELDS; ++b )
         for ( int types = 0; types < 4; ++types )
            for ( bool single : { false, true } )
               for ( int mode = 0; mode < 3; ++mode )
               {
                  if ( mode == Allocated && single && types >= 2 && a != b && !r.thorough )
                     continue;
                  Scan s;
                  s.fields = ( 1u << a ) | ( 1u << b );
                  s.types = types;
                  s.count = mode == Blocks ? 13 : 7;
                  s.salt = static_cast<uint64_t>( a * 100 + b );
                  scan( s, single, static_cast<WriteMode>( mode ), 5, 4, s.fields );
               }
   // all fields, and all but one
   for ( int a = 0; a <= FIELDS; ++a )
      for ( int types = 0; types < 4; ++types )
         for ( bool single : { false, true } )
            for ( int mode = 0; mode < 3; ++mode )
            {
               Scan s;
               s.fields = a < FIELDS ? ALL & ~( 1u << a ) : ALL;
               s.types = types;
               s.count = 60;
               s.salt = static_cast<uint64_t>( a );
               scan( s, single, static_cast<WriteMode>( mode ), 50, 49, s.fields );
            }
   // parts of the fields are read
   for ( int a = 0; a < FIELDS; ++a )
      for ( int b = a; b < FIELDS; ++b )
      {
         Scan s;
         s.count = 20;
         s.types = ( a + b ) % 4;
         s.salt = 5;
         scan( s, false, Blocks, 20, 7, ( 1u << a ) | ( 1u << b ) );
      }
   // numbers of points and block sizes
   std::vector<size_t> counts = { 0, 1, 2, 49, 50, 51, 99, 100, 101, 800 };
   std::vector<size_t> blocks = { 1, 2, 49, 50, 51, 100, 101, 801 };
   if ( r.thorough )
   {
      counts.insert( counts.end(), { 3, 48, 52, 149, 150, 151, 3000 } );
      blocks.insert( blocks.end(), { 3, 7, 99, 1000 } );
   }
   for ( size_t n : counts )
      for ( int types = 0; types < 4; ++types )
         for ( size_t wb : blocks )
            for ( size_t rb : blocks )
            {
               if ( wb > n + 2 && wb != blocks.back() )
                  continue;
               if ( rb > n + 2 && rb != blocks.back() )
                  continue;
               Scan s;
               s.count = n;
               s.types = types;
               s.fields = types == 1 ? ALL : types == 2 ? 0x7 : types == 3 ? 0x1470 : 0x7F0007;
               s.salt = n;
               scan( s, types & 1, Blocks, wb, rb, s.fields );
            }

   // limits calculated by the writer: every set of the fields concerned, with another field or not
   for ( uint32_t set = 1; set < 128; ++set )
      for ( size_t n : { 1, 2, 60 } )
         for ( int how = 0; how < 4; ++how )
            for ( double shift : { 0.0, 50.0, -70.0 } )
            {
               const uint32_t which = ( set & 7 ) | ( ( set >> 3 & 7 ) << 4 ) | ( ( set >> 6 & 1 ) << 12 );
               r.test( fmt( "limits %06x %zu %d %g", which, n, how, shift ), [&] {
                  if ( how & 1 )
                     calculated<float>( r.path( "p.e57" ), which, n, how & 2, shift );
                  else
                     calculated<double>( r.path( "p.e57" ), which, n, how & 2, shift );
                  r.outcome( fmt( "limits %06x %d", which, how ) );
               } );
            }
   for ( int how = 0; how < 2; ++how )
      for ( uint32_t which : { 0x7u, 0x70u, 0x1077u } )
         r.test( fmt( "limits of nothing %06x %d", which, how ), [&] {
            if ( how )
               calculated<float>( r.path( "p.e57" ), which, 0, false, 0 );
            else
               calculated<double>( r.path( "p.e57" ), which, 0, false, 0 );
            r.outcome( "limits of nothing" );
         } );

   // several scans: every order of writing the points after creating the scans, and of reading
   std::vector<size_t> order = { 0, 1, 2 };
   do
   {
      for ( int inOne = 0; inOne < 2; ++inOne )
         for ( int same = 0; same < 2; ++same )
         {
            const auto o = order;
            r.test( fmt( "scans %zu%zu%zu %d %d", o[0], o[1], o[2], inOne, same ), [&] {
               std::vector<Scan> ss( 3 );
               std::vector<Data3D> ds( 3 );
               for ( size_t k = 0; k < 3; ++k )
               {
                  ss[k].fields = same ? ALL : k == 0 ? 0x7 : k == 1 ? 0x700070 : ALL;
                  ss[k].types = same ? 0 : static_cast<int>( k );
                  ss[k].count = 20 + 37 * k;
                  ss[k].salt = k + 1;
               }
               const std::string file = r.path( "p.e57" );
               {
                  e57::Writer w( file, e57::WriterOptions{} );
                  for ( size_t k = 0; k < 3; ++k )
                     if ( inOne )
                        writeAny( false, w, ss[k], AtOnce, 0, ds[k] );
                     else
                     {
                        ds[k] = header( ss[k] );
                        const int64_t index = w.NewData3D( ds[k] );
                        CHECK( index == static_cast<int64_t>( k ), "scan number %lld", (long long)index );
                     }
                  if ( !inOne )
                     for ( size_t k : o )
                        writePoints<double>( w, static_cast<int64_t>( k ), ds[k], ss[k], 11 );
                  w.Close();
               }
               e57::Reader rd( file, e57::ReaderOptions{} );
               CHECK( rd.GetData3DCount() == 3, "%lld scans", (long long)rd.GetData3DCount() );
               for ( size_t k : o )
               {
                  readAny( false, false, rd, static_cast<int64_t>( k ), ds[k], ss[k], 13, ss[k].fields );
                  readAny( false, true, rd, static_cast<int64_t>( k ), ds[k], ss[k], 200, ss[k].fields );
               }
               r.outcome( fmt( "scans %d %d", inOne, same ) );
            } );
         }
   } while ( std::next_permutation( order.begin(), order.end() ) );

   // groups
   for ( const char *name : { "columnIndex", "rowIndex" } )
      for ( size_t n : { 1, 2, 3, 49, 50, 51, 300 } )
         for ( size_t ask : { n, size_t( 1 ), n + 2, ( n + 1 ) / 2 } )
            for ( int null = 0; null < 4; ++null )
               for ( size_t points : { 1, 40 } )
                  r.test( fmt( "groups %s %zu %zu %d %zu", name, n, ask, null, points ), [&] {
                     groups( r.path( "p.e57" ), name, n, ask, null, points );
                     r.outcome( fmt( "groups %d", null ) );
                  } );

   // images
   for ( int p = 0; p < 4; ++p )
      for ( int png = 0; png < 2; ++png )
         for ( size_t size : { 1, 3, 4, 987, 1020, 1021, 3000 } )
            for ( size_t mask : { 0, 1, 500 } )
               for ( size_t wp : { 5000, 100 } )
                  for ( size_t rp : { 5000, 77 } )
                     for ( int how = 0; how < 4; ++how )
                        r.test( fmt( "image %d %d %zu %zu %zu %zu %d", p, png, size, mask, wp, rp, how ), [&] {
                           images( r.path( "p.e57" ), { { { p, png != 0, size, mask } } }, wp, rp, how & 1, how & 2 );
                           r.outcome( fmt( "image %d %d", p, png ) );
                        } );
   // two representations, three images
   for ( int p = 1; p < 4; ++p )
      for ( int png = 0; png < 4; ++png )
         for ( int how = 0; how < 4; ++how )
            r.test( fmt( "images %d %d %d", p, png, how ), [&] {
               images( r.path( "p.e57" ),
                       { { { 0, ( png & 1 ) != 0, 100, 7 }, { p, ( png & 2 ) != 0, 33, 8 } },
                         { { p, ( png & 1 ) != 0, 100, 0 } },
                         { { p, ( png & 2 ) != 0, 40, 6 }, { 0, ( png & 1 ) != 0, 100, 0 } } },
                       31, 29, how & 1, how & 2 );
               r.outcome( fmt( "images %d", p ) );
            } );
}
