// P15: scan and image metadata survive the Simple API round trip.
//
// Every item of the headers is listed with its values. Each value alone, each pair of items, all
// items together and all but one are written with the Simple API; the reader has to return the
// headers, and the elements in the file have to have the names and values of the standard.
#include <xercesc/util/PlatformUtils.hpp>

#include "E57Version.h"
#include "simple.hpp"

using namespace vh;
using namespace simple;

namespace
{
   struct Header
   {
      e57::WriterOptions o;
      Data3D d;
      Image2D i;
   };
   using Set = std::function<void( Header & )>;
   struct Item
   {
      std::string name;
      std::vector<Set> values;
      char part; // o, d or i
   };

   Header base()
   {
      Header h;
      h.d.pointFields.cartesianXField = true;
      h.d.pointFields.cartesianYField = true;
      h.d.pointFields.cartesianZField = true;
      h.d.pointFields.pointRangeNodeType = Type::Double;
      h.d.pointFields.angleNodeType = Type::Double;
      h.d.pointFields.timeNodeType = Type::Double;
      h.d.pointFields.intensityNodeType = Type::Double;
      h.d.pointCount = 2;
      return h;
   }

   const std::vector<std::string> TEXTS = { "plain",
                                            "<a & 'b' \"c\">",
                                            " lead and trail ",
                                            "]]>",
                                            "x]]>y]]]>z",
                                            "line\nbreak\ttab\rreturn",
                                            "\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80",
                                            " ",
                                            "&amp;&lt;",
                                            std::string( 3000, 'q' ) };
   const std::vector<double> REALS = { 1.0 / 3, -2.5,     1e-300, 5e-324, DBL_MIN, DBL_MAX,    -DBL_MAX,
                                       1e22,    123456789.123456789, -1e-7, 0.1,    3.0,     9007199254740993.0 };
   const std::vector<float> SINGLES = { 0.0f,      20.5f,    -40.1f, 1.0f / 3, 1e-45f,
                                        FLT_MIN, -FLT_MAX, 1e10f,  101325.0f };
   const std::vector<int64_t> INTS = { 7, -3, INT64_MAX, INT64_MIN, 4294967296, 1 };

   std::vector<Item> items;

   template <typename F> void text( char part, const std::string &name, F member )
   {
      Item it{ name, {}, part };
      it.values.push_back( [=]( Header &h ) { member( h ) = "the " + name; } );
      for ( auto &t : TEXTS )
         it.values.push_back( [=]( Header &h ) { member( h ) = t; } );
      items.push_back( it );
   }
   template <typename F> void real( char part, const std::string &name, F member )
   {
      Item it{ name, {}, part };
      const double own = 0.001 * static_cast<double>( items.size() ) + 1.0 / 7;
      it.values.push_back( [=]( Header &h ) { member( h ) = own; } );
      for ( auto v : REALS )
         it.values.push_back( [=]( Header &h ) { member( h ) = v; } );
      items.push_back( it );
   }
   template <typename V, typename F> void numbers( char part, const std::string &name, F member, std::vector<V> vs )
   {
      Item it{ name, {}, part };
      for ( auto v : vs )
         it.values.push_back( [=]( Header &h ) { member( h ) = v; } );
      items.push_back( it );
   }
   void sets( char part, const std::string &name, std::vector<Set> vs )
   {
      items.push_back( { name, vs, part } );
   }
#define TEXT( part, m ) text( #part[0], #m, []( Header &h ) -> e57::ustring & { return h.part.m; } )
#define REAL( part, m ) real( #part[0], #m, []( Header &h ) -> double & { return h.part.m; } )
#define NUMS( part, T, m, ... ) \
   numbers<T>( #part[0], #m, []( Header &h ) -> T & { return h.part.m; }, __VA_ARGS__ )
#define DATE( part, m )                                                                             \
   sets( #part[0], #m,                                                                              \
         { []( Header &h ) { h.part.m.dateTimeValue = 1234567890.125, h.part.m.isAtomicClockReferenced = 1; },  \
           []( Header &h ) { h.part.m.dateTimeValue = 1.0 / 3; },                                   \
           []( Header &h ) { h.part.m.dateTimeValue = 1e-300, h.part.m.isAtomicClockReferenced = 1; },   \
           []( Header &h ) { h.part.m.isAtomicClockReferenced = 1; },                               \
           []( Header &h ) { h.part.m.dateTimeValue = -5.25; },                                     \
           []( Header &h ) { h.part.m.dateTimeValue = -1e9, h.part.m.isAtomicClockReferenced = 1; } } )

   // Limits that belong together: least and greatest, each alone and both
   template <typename F, typename G>
   void range( const std::string &name, F lo, G hi, const std::vector<std::pair<double, double>> &vs )
   {
      Item it{ name, {}, 'd' };
      for ( auto &v : vs )
         it.values.push_back( [=]( Header &h ) { lo( h ) = v.first, hi( h ) = v.second; } );
      items.push_back( it );
   }
#define RANGE( name, l, u, ... )                                                                     \
   range(                                                                                            \
      name, []( Header &h ) -> double & { return h.d.l; }, []( Header &h ) -> double & { return h.d.u; }, __VA_ARGS__ )

   template <typename R> void representation( const char *name, R Image2D::*rep )
   {
      int64_t base = static_cast<int64_t>( items.size() );
      const auto make = [=]( int64_t jpeg, int64_t png, int64_t mask, int w, int hgt ) {
         return [=]( Header &h ) {
            R &r = h.i.*rep;
            r.jpegImageSize = jpeg, r.pngImageSize = png, r.imageMaskSize = mask, r.imageWidth = w,
            r.imageHeight = hgt;
         };
      };
      sets( 'i', name,
            { make( base + 3, 0, 0, 640, 480 ), make( 0, base + 4, 0, 1, 2 ), make( 1000, 0, 2000, INT32_MAX, 1 ),
              make( 0, 1, 1, 1, INT32_MAX ), make( 1, 0, 0, 5, 4 ), make( 0, 5000, 0, 1, 1 ) } );
   }

   void list()
   {
      items.clear();
      TEXT( o, guid );
      TEXT( o, coordinateMetadata );

      TEXT( d, name );
      TEXT( d, guid );
      TEXT( d, description );
      TEXT( d, sensorVendor );
      TEXT( d, sensorModel );
      TEXT( d, sensorSerialNumber );
      TEXT( d, sensorHardwareVersion );
      TEXT( d, sensorSoftwareVersion );
      TEXT( d, sensorFirmwareVersion );
      sets( 'd', "originalGuids",
            { []( Header &h ) { h.d.originalGuids = { "one", "two", "three" }; },
              []( Header &h ) { h.d.originalGuids = { "" }; },
              []( Header &h ) { h.d.originalGuids = { "b", "a", "b", "", "<x>" }; },
              []( Header &h ) { h.d.originalGuids.assign( 300, "g" ), h.d.originalGuids[299] = "last"; } } );
      NUMS( d, float, temperature, SINGLES );
      NUMS( d, float, relativeHumidity, SINGLES );
      NUMS( d, float, atmosphericPressure, SINGLES );
      DATE( d, acquisitionStart );
      DATE( d, acquisitionEnd );
      REAL( d, pose.rotation.w );
      REAL( d, pose.rotation.x );
      REAL( d, pose.rotation.y );
      REAL( d, pose.rotation.z );
      REAL( d, pose.translation.x );
      REAL( d, pose.translation.y );
      REAL( d, pose.translation.z );
      NUMS( d, int64_t, indexBounds.rowMinimum, INTS );
      NUMS( d, int64_t, indexBounds.rowMaximum, INTS );
      NUMS( d, int64_t, indexBounds.columnMinimum, INTS );
      NUMS( d, int64_t, indexBounds.columnMaximum, INTS );
      NUMS( d, int64_t, indexBounds.returnMinimum, INTS );
      NUMS( d, int64_t, indexBounds.returnMaximum, INTS );
      REAL( d, cartesianBounds.xMinimum );
      REAL( d, cartesianBounds.xMaximum );
      REAL( d, cartesianBounds.yMinimum );
      REAL( d, cartesianBounds.yMaximum );
      REAL( d, cartesianBounds.zMinimum );
      REAL( d, cartesianBounds.zMaximum );
      REAL( d, sphericalBounds.rangeMinimum );
      REAL( d, sphericalBounds.rangeMaximum );
      REAL( d, sphericalBounds.elevationMinimum );
      REAL( d, sphericalBounds.elevationMaximum );
      REAL( d, sphericalBounds.azimuthStart );
      REAL( d, sphericalBounds.azimuthEnd );
      RANGE( "intensityLimits", intensityLimits.intensityMinimum, intensityLimits.intensityMaximum,
             { { 0, 255 }, { -5, 0 }, { 3, 2047 }, { -7, -2 }, { 0, 1 }, { -32768, 32767 }, { 0.1, 0.9 } } );
      RANGE( "redLimits", colorLimits.colorRedMinimum, colorLimits.colorRedMaximum,
             { { 0, 251 }, { 3, 200 }, { 0, 65535 }, { 7, 7 } } );
      RANGE( "greenLimits", colorLimits.colorGreenMinimum, colorLimits.colorGreenMaximum,
             { { 0, 252 }, { 4, 201 }, { 0, 65535 }, { 8, 8 } } );
      RANGE( "blueLimits", colorLimits.colorBlueMinimum, colorLimits.colorBlueMaximum,
             { { 0, 253 }, { 5, 202 }, { 0, 65535 }, { 9, 9 } } );
      const auto group = []( const char *name, int64_t groups, int64_t count ) {
         return [=]( Header &h ) {
            auto &g = h.d.pointGroupingSchemes.groupingByLine;
            g.idElementName = name, g.groupsSize = groups, g.pointCountSize = count;
         };
      };
      sets( 'd', "groupingByLine",
            { group( "columnIndex", 2, 5 ), group( "rowIndex", 3, 6 ), group( "rowIndex", 1, 1 ),
              group( "columnIndex", 200, 1 ), group( "columnIndex", 1, INT64_MAX ) } );

      for ( auto &f : fields() )
      {
         bool Flags::*flag = f.flag;
         sets( 'd', f.name, { [=]( Header &h ) { h.d.pointFields.*flag = !( h.d.pointFields.*flag ); } } );
      }
      NUMS( d, size_t, pointCount, { 3, 1, 100 } );
      NUMS( d, uint32_t, pointFields.rowIndexMaximum, { 9, 0, 255, 256, INT32_MAX } );
      NUMS( d, uint32_t, pointFields.columnIndexMaximum, { 11, 0, 1, 65535, INT32_MAX } );
      NUMS( d, uint8_t, pointFields.returnMaximum, { 5, 0, 1, 255 } );
      RANGE( "pointRange", pointFields.pointRangeMinimum, pointFields.pointRangeMaximum,
             { { -100, 100 }, { 0, 10 }, { 5, 10 }, { -10, -5 }, { 0, 0 }, { -0.125, 1e6 }, { 0.1, 0.3 }, { -0.3, -0.1 } } );
      RANGE( "angleRange", pointFields.angleMinimum, pointFields.angleMaximum,
             { { -3.25, 3.25 }, { 0, 6.25 }, { 1, 2 }, { -2, -1 }, { 0, 0 }, { 0.1, 0.7 } } );
      RANGE( "timeRange", pointFields.timeMinimum, pointFields.timeMaximum,
             { { 0, 1000 }, { -5, 5 }, { 100, 200 }, { -200, -100 }, { 0, 0 }, { 0.1, 0.7 }, { -1e12, 1e12 } } );
      const auto types = []( Type Flags::*type, double Flags::*scale, double Flags::*lo, double Flags::*hi,
                             bool integer ) {
         std::vector<Set> out;
         const auto scaled = [=]( double s, double least, double most ) {
            return [=]( Header &h ) {
               Flags &f = h.d.pointFields;
               f.*type = Type::ScaledInteger, f.*scale = s;
               if ( lo && !( f.*lo > -1e9 && f.*hi < 1e9 ) )
                  f.*lo = least, f.*hi = most;
            };
         };
         out.push_back( scaled( 0.25, -50, 50 ) );
         out.push_back( scaled( 0.001, -1, 1 ) );
         out.push_back( scaled( 2, -1000000, 1000000 ) );
         out.push_back( [=]( Header &h ) { h.d.pointFields.*type = Type::Float; } );
         if ( integer )
            out.push_back( [=]( Header &h ) { h.d.pointFields.*type = Type::Integer; } );
         return out;
      };
      sets( 'd', "pointRangeNodeType",
            types( &Flags::pointRangeNodeType, &Flags::pointRangeScale, &Flags::pointRangeMinimum,
                   &Flags::pointRangeMaximum, false ) );
      sets( 'd', "angleNodeType",
            types( &Flags::angleNodeType, &Flags::angleScale, &Flags::angleMinimum, &Flags::angleMaximum,
                   false ) );
      sets( 'd', "timeNodeType",
            types( &Flags::timeNodeType, &Flags::timeScale, &Flags::timeMinimum, &Flags::timeMaximum, true ) );
      sets( 'd', "intensityNodeType",
            types( &Flags::intensityNodeType, &Flags::intensityScale, nullptr, nullptr, true ) );

      TEXT( i, name );
      TEXT( i, guid );
      TEXT( i, description );
      TEXT( i, associatedData3DGuid );
      TEXT( i, sensorVendor );
      TEXT( i, sensorModel );
      TEXT( i, sensorSerialNumber );
      DATE( i, acquisitionDateTime );
      REAL( i, pose.rotation.w );
      REAL( i, pose.rotation.x );
      REAL( i, pose.rotation.y );
      REAL( i, pose.rotation.z );
      REAL( i, pose.translation.x );
      REAL( i, pose.translation.y );
      REAL( i, pose.translation.z );
      representation( "visual", &Image2D::visualReferenceRepresentation );
      // one of the next three at most
      representation( "pinhole", &Image2D::pinholeRepresentation );
      representation( "spherical", &Image2D::sphericalRepresentation );
      representation( "cylindrical", &Image2D::cylindricalRepresentation );
      REAL( i, pinholeRepresentation.focalLength );
      REAL( i, pinholeRepresentation.pixelWidth );
      REAL( i, pinholeRepresentation.pixelHeight );
      REAL( i, pinholeRepresentation.principalPointX );
      REAL( i, pinholeRepresentation.principalPointY );
      REAL( i, sphericalRepresentation.pixelWidth );
      REAL( i, sphericalRepresentation.pixelHeight );
      REAL( i, cylindricalRepresentation.pixelWidth );
      REAL( i, cylindricalRepresentation.pixelHeight );
      REAL( i, cylindricalRepresentation.radius );
      REAL( i, cylindricalRepresentation.principalPointY );
      using D = e57::Extension::PinholeCameraDistortion;
      const auto dist = []( std::function<void( D & )> f ) -> Set {
         return [=]( Header &h ) {
            h.i.pinholeCameraDistortionExt = std::make_unique<D>();
            f( *h.i.pinholeCameraDistortionExt );
         };
      };
      std::vector<Set> ds;
      ds.push_back( dist( []( D &p ) {
         p.cameraNumber = 4, p.type = "OpenCV", p.CV_K1 = 0.1, p.CV_K2 = 0.2, p.CV_K3 = 0.3, p.CV_K4 = 0.4,
         p.CV_K5 = 0.5, p.CV_K6 = 0.6, p.CV_P1 = 0.7, p.CV_P2 = 0.8, p.CV_CX = 320.5, p.CV_CY = 240.5,
         p.CV_FX = 0.9, p.CV_FY = 1.1, p.CV_HEIGHT = 481, p.CV_WIDTH = 641;
      } ) );
      ds.push_back( dist( []( D & ) {} ) );
      ds.push_back( dist( []( D &p ) { p.cameraNumber = INT64_MAX; } ) );
      ds.push_back( dist( []( D &p ) { p.type = "<b> "; } ) );
      for ( double D::*q : { &D::CV_K1, &D::CV_K2, &D::CV_K3, &D::CV_K4, &D::CV_K5, &D::CV_K6, &D::CV_P1, &D::CV_P2,
                             &D::CV_CX, &D::CV_CY, &D::CV_FX, &D::CV_FY } )
         for ( double v : { 1.0 / 3, -DBL_MAX, 5e-324 } )
            ds.push_back( dist( [=]( D &p ) { p.*q = v; } ) );
      for ( int32_t D::*q : { &D::CV_HEIGHT, &D::CV_WIDTH } )
         for ( int32_t v : { 1, -1, INT32_MAX, INT32_MIN } )
            ds.push_back( dist( [=]( D &p ) { p.*q = v; } ) );
      sets( 'i', "pinholeCameraDistortionExt", ds );
   }

   // ---- what is expected of the reader ----
   double single( double v )
   {
      if ( v > FLT_MAX )
         return FLT_MAX;
      if ( v < -FLT_MAX )
         return -FLT_MAX;
      return static_cast<float>( v );
   }
   double rounded( double v, Type t, double scale )
   {
      switch ( t )
      {
         case Type::Integer:
            return v <= -9223372036854775808.0  ? -9223372036854775808.0
                   : v >= 9223372036854775808.0 ? 9223372036854775808.0
                                                : std::trunc( v );
         case Type::ScaledInteger:
            return static_cast<double>( static_cast<int64_t>( std::floor( v / scale + .5 ) ) ) * scale;
         case Type::Float:
            return single( v );
         default:
            return v;
      }
   }
   Data3D expected( Data3D d )
   {
      Flags &f = d.pointFields;
      const auto range = [&]( double &lo, double &hi, Type t, double &scale ) {
         lo = rounded( lo, t, scale ), hi = rounded( hi, t, scale );
         if ( t != Type::ScaledInteger )
            scale = 0;
      };
      range( f.pointRangeMinimum, f.pointRangeMaximum, f.pointRangeNodeType, f.pointRangeScale );
      range( f.angleMinimum, f.angleMaximum, f.angleNodeType, f.angleScale );
      range( f.timeMinimum, f.timeMaximum, f.timeNodeType, f.timeScale );
      auto &il = d.intensityLimits;
      if ( il.intensityMaximum != 0 || il.intensityMinimum != 0 )
         range( il.intensityMinimum, il.intensityMaximum, f.intensityNodeType, f.intensityScale );
      else if ( f.intensityNodeType != Type::ScaledInteger )
         f.intensityScale = 0;
      return d;
   }

   // ---- writing and reading ----
   std::vector<Set> chosen( const std::vector<std::pair<size_t, size_t>> &which )
   {
      std::vector<Set> out;
      for ( auto &w : which )
         out.push_back( items[w.first].values[w.second] );
      return out;
   }
   Header make( const std::vector<Set> &sets )
   {
      Header h = base();
      for ( auto &s : sets )
         s( h );
      return h;
   }
   // Limits have to be in order where a field has them
   void writeScan( e57::Writer &w, Header &h, bool inOne )
   {
      Data3D &d = h.d;
      Buffers<double> b( d.pointFields, d.pointCount );
      for ( size_t k = 0; k < fields().size(); ++k )
      {
         if ( !( d.pointFields.*fields()[k].flag ) )
            continue;
         double lo, hi;
         limits( d, static_cast<int>( k ), lo, hi );
         for ( size_t i = 0; i < d.pointCount; ++i )
            b.set( static_cast<int>( k ), i, within( 0, lo, hi ) );
      }
      const Dump before = dump( d );
      const bool noGuid = d.guid.empty();
      int64_t index;
      if ( inOne )
         index = w.WriteData3DData( d, b.b );
      else
      {
         index = w.NewData3D( d );
         auto writer = w.SetUpData3DPointsData( index, d.pointCount, b.b );
         writer.write( d.pointCount );
         writer.close();
      }
      if ( noGuid )
      {
         CHECK( !d.guid.empty(), "no identifier was added to the scan" );
         Dump after = dump( d );
         after["guid"] = "";
         same( "scan header after writing", after, before );
      }
      else
         same( "scan header after writing", dump( d ), before );
      auto &g = d.pointGroupingSchemes.groupingByLine;
      if ( !g.idElementName.empty() )
      {
         std::vector<int64_t> id, start, count;
         for ( int64_t i = 0; i < g.groupsSize; ++i )
         {
            id.push_back( i );
            start.push_back( 0 );
            count.push_back( 1 );
         }
         CHECK( w.WriteData3DGroupsData( index, id.size(), id.data(), start.data(), count.data() ),
                "WriteData3DGroupsData returned false" );
      }
   }

   // The scan again as elements of the standard
   std::string leaf( e57::StructureNode root, const std::string &path )
   {
      if ( !root.isDefined( path ) )
         return "(none)";
      e57::Node n = root.get( path );
      switch ( n.type() )
      {
         case e57::TypeInteger:
            return show( static_cast<double>( e57::IntegerNode( n ).value() ) );
         case e57::TypeScaledInteger:
            return show( e57::ScaledIntegerNode( n ).scaledValue() );
         case e57::TypeFloat:
            return show( e57::FloatNode( n ).value() );
         case e57::TypeString:
            return "'" + e57::StringNode( n ).value() + "'";
         case e57::TypeBlob:
            return std::to_string( e57::BlobNode( n ).byteCount() );
         case e57::TypeCompressedVector:
            return std::to_string( e57::CompressedVectorNode( n ).childCount() );
         default:
            return "(tree)";
      }
   }
   void standard( const std::string &file, const Header &h )
   {
      e57::ImageFile imf( file, "r" );
      auto root = imf.root();
      const auto is = [&]( const std::string &path, const std::string &want ) {
         const std::string got = leaf( root, path );
         CHECK( got == want, "element %s is %s instead of %s", path.c_str(), got.substr( 0, 60 ).c_str(),
                want.substr( 0, 60 ).c_str() );
      };
      const auto text = [&]( const std::string &path, const std::string &v ) {
         if ( !v.empty() )
            is( path, "'" + v + "'" );
      };
      const auto poses = [&]( const std::string &p, const e57::RigidBodyTransform &t ) {
         if ( t == e57::RigidBodyTransform{} )
            return;
         is( p + "/rotation/w", show( t.rotation.w ) );
         is( p + "/rotation/x", show( t.rotation.x ) );
         is( p + "/rotation/y", show( t.rotation.y ) );
         is( p + "/rotation/z", show( t.rotation.z ) );
         is( p + "/translation/x", show( t.translation.x ) );
         is( p + "/translation/y", show( t.translation.y ) );
         is( p + "/translation/z", show( t.translation.z ) );
      };
      const auto date = [&]( const std::string &p, const e57::DateTime &t ) {
         if ( t == e57::DateTime{} )
            return;
         is( p + "/dateTimeValue", show( t.dateTimeValue ) );
         is( p + "/isAtomicClockReferenced", show( t.isAtomicClockReferenced ) );
      };
      text( "/formatName", "ASTM E57 3D Imaging Data File" );
      text( "/guid", h.o.guid );
      text( "/coordinateMetadata", h.o.coordinateMetadata );
      is( "/versionMajor", show( 1.0 ) );
      is( "/versionMinor", show( 0.0 ) );
      const Data3D d = expected( h.d );
      const std::string s = "/data3D/0/";
#define T( m ) text( s + #m, d.m )
      T( guid );
      T( name );
      T( description );
      T( sensorVendor );
      T( sensorModel );
      T( sensorSerialNumber );
      T( sensorHardwareVersion );
      T( sensorSoftwareVersion );
      T( sensorFirmwareVersion );
      for ( size_t k = 0; k < d.originalGuids.size(); ++k )
         is( s + fmt( "originalGuids/%zu", k ), "'" + d.originalGuids[k] + "'" );
#define V( m )                 \
   if ( d.m != FLT_MAX )       \
      is( s + #m, show( d.m ) )
      V( temperature );
      V( relativeHumidity );
      V( atmosphericPressure );
      date( s + "acquisitionStart", d.acquisitionStart );
      date( s + "acquisitionEnd", d.acquisitionEnd );
      poses( s + "pose", d.pose );
#define B( g, m )                     \
   if ( d.g != decltype( d.g ){} )    \
      is( s + #g "/" #m, show( static_cast<double>( d.g.m ) ) )
      if ( d.indexBounds.rowMinimum || d.indexBounds.rowMaximum )
      {
         B( indexBounds, rowMinimum );
         B( indexBounds, rowMaximum );
      }
      if ( d.indexBounds.columnMinimum || d.indexBounds.columnMaximum )
      {
         B( indexBounds, columnMinimum );
         B( indexBounds, columnMaximum );
      }
      if ( d.indexBounds.returnMinimum || d.indexBounds.returnMaximum )
      {
         B( indexBounds, returnMinimum );
         B( indexBounds, returnMaximum );
      }
      B( cartesianBounds, xMinimum );
      B( cartesianBounds, xMaximum );
      B( cartesianBounds, yMinimum );
      B( cartesianBounds, yMaximum );
      B( cartesianBounds, zMinimum );
      B( cartesianBounds, zMaximum );
      B( sphericalBounds, rangeMinimum );
      B( sphericalBounds, rangeMaximum );
      B( sphericalBounds, elevationMinimum );
      B( sphericalBounds, elevationMaximum );
      B( sphericalBounds, azimuthStart );
      B( sphericalBounds, azimuthEnd );
      B( intensityLimits, intensityMinimum );
      B( intensityLimits, intensityMaximum );
      B( colorLimits, colorRedMinimum );
      B( colorLimits, colorRedMaximum );
      B( colorLimits, colorGreenMinimum );
      B( colorLimits, colorGreenMaximum );
      B( colorLimits, colorBlueMinimum );
      B( colorLimits, colorBlueMaximum );
      const auto &g = d.pointGroupingSchemes.groupingByLine;
      if ( !g.idElementName.empty() )
      {
         const std::string p = s + "pointGroupingSchemes/groupingByLine/";
         text( p + "idElementName", g.idElementName );
         is( p + "groups", std::to_string( g.groupsSize ) );
         e57::StructureNode proto( e57::CompressedVectorNode( root.get( p + "groups" ) ).prototype() );
         for ( auto n : { "idElementValue", "startPointIndex", "pointCount" } )
            CHECK( proto.isDefined( n ), "groups have no %s", n );
      }
      is( s + "points", std::to_string( d.pointCount ) );
      e57::StructureNode proto( e57::CompressedVectorNode( root.get( s + "points" ) ).prototype() );
      int64_t n = 0;
      for ( auto &fi : fields() )
      {
         const bool on = d.pointFields.*fi.flag;
         CHECK( proto.isDefined( fi.name ) == on, "element %s of the points is %s", fi.name,
                on ? "missing" : "not wanted" );
         n += on;
      }
      CHECK( proto.childCount() == n, "the points have %lld fields instead of %lld", (long long)proto.childCount(),
             (long long)n );

      const Image2D &i = h.i;
      const std::string q = "/images2D/0/";
#define U( m ) text( q + #m, i.m )
      U( guid );
      U( name );
      U( description );
      U( associatedData3DGuid );
      U( sensorVendor );
      U( sensorModel );
      U( sensorSerialNumber );
      date( q + "acquisitionDateTime", i.acquisitionDateTime );
      poses( q + "pose", i.pose );
      const auto rep = [&]( const std::string &name, const auto &r ) {
         const std::string p = q + name + "Representation";
         if ( !pictured( r ) )
         {
            is( p, "(none)" );
            return false;
         }
         is( p + "/jpegImage", r.jpegImageSize ? std::to_string( r.jpegImageSize ) : "(none)" );
         is( p + "/pngImage", r.pngImageSize ? std::to_string( r.pngImageSize ) : "(none)" );
         is( p + "/imageMask", r.imageMaskSize ? std::to_string( r.imageMaskSize ) : "(none)" );
         is( p + "/imageWidth", show( r.imageWidth ) );
         is( p + "/imageHeight", show( r.imageHeight ) );
         return true;
      };
#define R( g, m ) is( q + #g "/" #m, show( i.g.m ) )
      rep( "visualReference", i.visualReferenceRepresentation );
      if ( rep( "pinhole", i.pinholeRepresentation ) )
      {
         R( pinholeRepresentation, focalLength );
         R( pinholeRepresentation, pixelWidth );
         R( pinholeRepresentation, pixelHeight );
         R( pinholeRepresentation, principalPointX );
         R( pinholeRepresentation, principalPointY );
      }
      if ( rep( "spherical", i.sphericalRepresentation ) )
      {
         R( sphericalRepresentation, pixelWidth );
         R( sphericalRepresentation, pixelHeight );
      }
      if ( rep( "cylindrical", i.cylindricalRepresentation ) )
      {
         R( cylindricalRepresentation, pixelWidth );
         R( cylindricalRepresentation, pixelHeight );
         R( cylindricalRepresentation, radius );
         R( cylindricalRepresentation, principalPointY );
      }
   }

   void checkScan( e57::Reader &r, int64_t index, const Header &h, Data3D &into )
   {
      CHECK( r.ReadData3D( index, into ), "ReadData3D returned false" );
      same( "scan header", dump( into ), dump( expected( h.d ) ) );

      int64_t row = -1, col = -1, points = -1, groups = -1, count = -1;
      bool byColumn = true;
      CHECK( r.GetData3DSizes( index, row, col, points, groups, count, byColumn ), "GetData3DSizes returned false" );
      const auto &g = h.d.pointGroupingSchemes.groupingByLine;
      const auto &ib = h.d.indexBounds;
      const bool grouped = !g.idElementName.empty();
      const auto size = []( int64_t lo, int64_t hi, int64_t otherwise ) -> std::string {
         if ( lo == 0 && hi == 0 )
            return std::to_string( otherwise );
         if ( hi < lo || static_cast<uint64_t>( hi ) - static_cast<uint64_t>( lo ) >= INT64_MAX )
            return "any"; // no size
         return std::to_string( hi - lo + 1 );
      };
      const bool columns = g.idElementName == "columnIndex";
      const std::string rows =
         size( ib.rowMinimum, ib.rowMaximum, !grouped ? 0 : columns ? g.pointCountSize : g.groupsSize );
      const std::string cols =
         size( ib.columnMinimum, ib.columnMaximum, !grouped ? 0 : columns ? g.groupsSize : g.pointCountSize );
      CHECK( rows == "any" || rows == std::to_string( row ), "%lld rows instead of %s", (long long)row, rows.c_str() );
      CHECK( cols == "any" || cols == std::to_string( col ), "%lld columns instead of %s", (long long)col,
             cols.c_str() );
      CHECK( points == static_cast<int64_t>( h.d.pointCount ), "points size %lld", (long long)points );
      CHECK( groups == ( grouped ? g.groupsSize : 0 ), "groups size %lld", (long long)groups );
      CHECK( count == ( grouped ? g.pointCountSize : 0 ), "count size %lld", (long long)count );
      CHECK( byColumn == columns, "columnIndex is %d", byColumn );
   }
   void checkImage( e57::Reader &r, int64_t index, const Header &h, Image2D &into )
   {
      CHECK( r.ReadImage2D( index, into ), "ReadImage2D returned false" );
      same( "image header", dump( into ), dump( h.i ) );

      e57::Image2DProjection projection = e57::ProjectionNone;
      e57::Image2DType type = e57::ImageNone, mask = e57::ImageNone, visual = e57::ImageNone;
      int64_t w = -1, hgt = -1, size = -1;
      const bool ok = r.GetImage2DSizes( index, projection, type, w, hgt, size, mask, visual );
      const auto matches = [&]( e57::Image2DProjection p, const auto &rep ) {
         return pictured( rep ) && projection == p && w == rep.imageWidth && hgt == rep.imageHeight &&
                size == ( rep.jpegImageSize ? rep.jpegImageSize : rep.pngImageSize ) &&
                type == ( rep.jpegImageSize ? e57::ImageJPEG : e57::ImagePNG ) &&
                mask == ( rep.imageMaskSize ? e57::ImageMaskPNG : e57::ImageNone );
      };
      const Image2D &i = h.i;
      const bool any = pictured( i.visualReferenceRepresentation ) || pictured( i.pinholeRepresentation ) ||
                       pictured( i.sphericalRepresentation ) || pictured( i.cylindricalRepresentation );
      CHECK( ok == any, "GetImage2DSizes returned %d", ok );
      if ( any )
         CHECK( matches( e57::ProjectionVisual, i.visualReferenceRepresentation ) ||
                   matches( e57::ProjectionPinhole, i.pinholeRepresentation ) ||
                   matches( e57::ProjectionSpherical, i.sphericalRepresentation ) ||
                   matches( e57::ProjectionCylindrical, i.cylindricalRepresentation ),
                "GetImage2DSizes: projection %d, type %d, mask %d, %lld x %lld, %lld bytes", projection, type, mask,
                (long long)w, (long long)hgt, (long long)size );
      const auto &v = i.visualReferenceRepresentation;
      CHECK( visual == ( v.jpegImageSize ? e57::ImageJPEG : v.pngImageSize ? e57::ImagePNG : e57::ImageNone ),
             "type of the visual reference is %d", visual );
   }

   // Scans and images of several headers in one file
   std::string roundTrip( const std::string &file, std::vector<Header> &hs, bool inOne, bool elements )
   {
      std::string seen;
      {
         e57::Writer w( file, hs[0].o );
         for ( auto &h : hs )
         {
            writeScan( w, h, inOne );
            const bool noGuid = h.i.guid.empty();
            Dump before = dump( h.i );
            const int64_t index = w.NewImage2D( h.i );
            CHECK( index == &h - hs.data(), "image %lld", (long long)index );
            Dump after = dump( h.i );
            if ( noGuid )
            {
               CHECK( !h.i.guid.empty(), "no identifier was added to the image" );
               after["guid"] = "";
            }
            same( "image header after writing", after, before );
         }
         CHECK( w.Close(), "Close returned false" );
      }
      {
         e57::Reader r( file, e57::ReaderOptions{} );
         e57::E57Root root;
         root.guid = root.coordinateMetadata = root.formatName = "old";
         root.creationDateTime.dateTimeValue = 5;
         CHECK( r.GetE57Root( root ), "GetE57Root returned false" );
         CHECK( root.formatName == "ASTM E57 3D Imaging Data File", "format name %s", root.formatName.c_str() );
         CHECK( root.versionMajor == 1 && root.versionMinor == 0, "version %u.%u", root.versionMajor,
                root.versionMinor );
         CHECK( root.e57LibraryVersion == e57::Version::library(), "library version %s",
                root.e57LibraryVersion.c_str() );
         CHECK( hs[0].o.guid.empty() ? !root.guid.empty() && root.guid != "old" : root.guid == hs[0].o.guid,
                "guid %s", root.guid.c_str() );
         CHECK( root.coordinateMetadata == hs[0].o.coordinateMetadata, "coordinate metadata %s",
                root.coordinateMetadata.c_str() );
         CHECK( root.creationDateTime == e57::DateTime{}, "creation time %g", root.creationDateTime.dateTimeValue );
         const auto n = static_cast<int64_t>( hs.size() );
         CHECK( root.data3DSize == n && r.GetData3DCount() == n, "%lld scans", (long long)root.data3DSize );
         CHECK( root.images2DSize == n && r.GetImage2DCount() == n, "%lld images", (long long)root.images2DSize );
         // The headers to be filled have old content
         Header old;
         for ( auto &it : items )
            if ( it.values.size() )
               it.values[0]( old );
         for ( int64_t k = n; k-- > 0; )
         {
            checkScan( r, k, hs[k], old.d );
            checkImage( r, k, hs[k], old.i );
            for ( auto &x : dump( old.d ) )
               seen += x.second + ";";
            for ( auto &x : dump( old.i ) )
               seen += x.second + ";";
         }
         Data3D d;
         Image2D i;
         for ( int64_t k : { int64_t( -1 ), n, INT64_MAX, INT64_MIN } )
         {
            CHECK( !r.ReadData3D( k, d ), "ReadData3D of scan %lld", (long long)k );
            CHECK( !r.ReadImage2D( k, i ), "ReadImage2D of image %lld", (long long)k );
         }
         CHECK( r.Close(), "Close of the reader returned false" );
      }
      if ( elements )
         standard( file, hs[0] );
      return seen;
   }

   bool exclusive( const std::string &n )
   {
      return n == "pinhole" || n == "spherical" || n == "cylindrical";
   }
}

void vh::enumerate( Run &r )
{
   list();
   xercesc::XMLPlatformUtils::Initialize();
   const auto one = [&]( const std::string &key, const std::vector<std::pair<size_t, size_t>> &which, bool inOne ) {
      r.test( key, [&] {
         std::vector<Header> hs;
         hs.push_back( make( chosen( which ) ) );
         r.outcome( roundTrip( r.path( "m.e57" ), hs, inOne, true ) );
      } );
   };

   // each value of each item alone, or with the flags and representations it needs
   for ( size_t a = 0; a < items.size(); ++a )
      for ( size_t v = 0; v < items[a].values.size(); ++v )
         for ( bool inOne : { false, true } )
         {
            std::vector<std::pair<size_t, size_t>> which;
            const auto &n = items[a].name;
            const auto need = [&]( const char *start ) {
               for ( size_t b = 0; b < items.size(); ++b )
                  if ( items[b].name == start && b != a )
                     which.push_back( { b, 0 } );
            };
            if ( items[a].part == 'i' )
            {
               if ( n.compare( 0, 7, "pinhole" ) == 0 && n != "pinhole" )
                  need( "pinhole" );
               if ( n.compare( 0, 9, "spherical" ) == 0 && n != "spherical" )
                  need( "spherical" );
               if ( n.compare( 0, 11, "cylindrical" ) == 0 && n != "cylindrical" )
                  need( "cylindrical" );
               if ( inOne )
                  continue;
            }
            which.push_back( { a, v } );
            one( fmt( "one %s %zu%s", n.c_str(), v, inOne ? " write" : "" ), which, inOne );
         }

   // values of limits with every node type of the field
   for ( auto &t : { std::make_pair( "pointRange", "pointRangeNodeType" ), std::make_pair( "angleRange", "angleNodeType" ),
                     std::make_pair( "timeRange", "timeNodeType" ),
                     std::make_pair( "intensityLimits", "intensityNodeType" ) } )
   {
      const auto find = [&]( const std::string &n ) {
         for ( size_t k = 0; k < items.size(); ++k )
            if ( items[k].name == n && items[k].part == 'd' )
               return k;
         return items.size();
      };
      const size_t a = find( t.first ), b = find( t.second );
      const size_t az = find( "sphericalAzimuth" ), el = find( "sphericalElevation" ), rg = find( "sphericalRange" );
      for ( size_t v = 0; v < items[a].values.size(); ++v )
         for ( size_t u = 0; u <= items[b].values.size(); ++u )
            for ( int fieldsOn = 0; fieldsOn < 2; ++fieldsOn )
            {
               std::vector<std::pair<size_t, size_t>> which = { { a, v } };
               if ( u < items[b].values.size() )
                  which.push_back( { b, u } );
               if ( fieldsOn )
               {
                  which.push_back( { az, 0 } ), which.push_back( { el, 0 } ), which.push_back( { rg, 0 } );
                  which.push_back( { find( "timeStamp" ), 0 } ), which.push_back( { find( "intensity" ), 0 } );
               }
               one( fmt( "limits %s %zu %zu %d", t.first, v, u, fieldsOn ), which, false );
            }
   }
   // limits of colours with the fields
   for ( size_t a = 0; a < items.size(); ++a )
      if ( items[a].name.size() > 6 && items[a].name.find( "Limits" ) != std::string::npos )
         for ( size_t v = 0; v < items[a].values.size(); ++v )
         {
            std::vector<std::pair<size_t, size_t>> which = { { a, v } };
            for ( size_t b = 0; b < items.size(); ++b )
               if ( items[b].name.compare( 0, 5, "color" ) == 0 || items[b].name == "intensity" )
                  which.push_back( { b, 0 } );
            one( fmt( "colours %s %zu", items[a].name.c_str(), v ), which, false );
         }

   // every pair of items
   for ( size_t a = 0; a < items.size(); ++a )
      for ( size_t b = a + 1; b < items.size(); ++b )
      {
         if ( exclusive( items[a].name ) && exclusive( items[b].name ) )
            continue;
         one( fmt( "pair %s+%s", items[a].name.c_str(), items[b].name.c_str() ), { { a, 0 }, { b, 0 } }, false );
         if ( r.thorough )
            one( fmt( "pair2 %s+%s", items[a].name.c_str(), items[b].name.c_str() ),
                 { { a, items[a].values.size() - 1 }, { b, items[b].values.size() - 1 } }, true );
      }

   // everything, and everything but one, with each of the exclusive representations
   for ( const char *rep : { "pinhole", "spherical", "cylindrical" } )
      for ( size_t out = 0; out <= items.size(); ++out )
         for ( int type = 0; type < 3; ++type )
         {
            std::vector<std::pair<size_t, size_t>> which;
            for ( size_t a = 0; a < items.size(); ++a )
            {
               if ( a == out || ( exclusive( items[a].name ) && items[a].name != rep ) )
                  continue;
               // the base has the Cartesian coordinates already
               if ( items[a].name == "cartesianX" || items[a].name == "cartesianY" || items[a].name == "cartesianZ" )
                  continue;
               which.push_back( { a, std::min<size_t>( type, items[a].values.size() - 1 ) } );
            }
            one( fmt( "all %s but %s %d", rep, out < items.size() ? items[out].name.c_str() : "none", type ), which,
                 type == 2 );
         }

   // several scans and images, different ones after each other
   const auto scans = [&]( const std::string &key, const std::vector<std::vector<std::pair<size_t, size_t>>> &each ) {
      r.test( key, [&] {
         std::vector<Header> hs;
         for ( auto &w : each )
            hs.push_back( make( chosen( w ) ) );
         r.outcome( roundTrip( r.path( "m.e57" ), hs, false, true ) );
      } );
   };
   std::vector<std::pair<size_t, size_t>> all;
   for ( size_t a = 0; a < items.size(); ++a )
      if ( !( items[a].name == "spherical" || items[a].name == "cylindrical" ||
              items[a].name.compare( 0, 9, "cartesian" ) == 0 ) &&
           items[a].part != 'o' )
         all.push_back( { a, 0 } );
   for ( size_t a = 0; a < items.size(); ++a )
   {
      scans( fmt( "scans %s first", items[a].name.c_str() ), { { { a, 0 } }, {}, all } );
      scans( fmt( "scans %s between", items[a].name.c_str() ), { all, { { a, 0 } }, {}, { { a, 0 } } } );
   }
}
