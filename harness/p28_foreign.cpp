// P28: the Simple API reads every legal scan and image, whoever wrote it.
//
// The files are made by the independent writer. Each optional element alone, each pair of them, all
// and all but one, in several orders and next to unknown elements; every numeric type of every point
// field, each pair of fields in both orders; all kinds of groups and images. The headers, points,
// groups and images the Simple API returns are compared with what was put into the file.
#include <xercesc/util/PlatformUtils.hpp>

#include "refw57.hpp"
#include "simple.hpp"

using namespace vh;
using namespace simple;
using m::N;

namespace
{
   const char *const NOR = "http://www.libe57.org/E57_EXT_surface_normals.txt";
   const char *const DIST_URI = "http://www.libe57.org/E57_LEICA_Camera_Distortion.txt";

   // ---- numbers of each type ----
   enum NumType
   {
      Int,
      Sca,
      Single,
      Double
   };
   const char *const TYPENAMES[] = { "Integer", "Scaled", "Single", "Double" };
   // v has to be a multiple of 1/4 (an integer for Integer)
   N number( const std::string &name, NumType t, double v )
   {
      switch ( t )
      {
         case Int:
            return m::integer( name, static_cast<int64_t>( v ) );
         case Sca:
            return m::scaled( name, static_cast<int64_t>( ( v - 2 ) * 4 ), -100000, 100000, 0.25, 2 );
         case Single:
            return m::real( name, v, true );
         default:
            return m::real( name, v, false );
      }
   }

   // ---- optional elements ----
   struct Scan
   {
      std::vector<N> kids;
      Data3D want;
      bool nor = false;
   };
   struct Picture
   {
      std::vector<N> kids;
      Image2D want;
   };
   struct File
   {
      std::vector<N> kids;
      e57::E57Root want;
   };
   template <typename C> struct Item
   {
      std::string name;
      int kind; // items of the same kind exclude each other
      std::function<void( C & )> add;
   };
   std::vector<Item<Scan>> scanItems;
   std::vector<Item<Picture>> imageItems;
   std::vector<Item<File>> fileItems;
   int kinds = 0;

   N date( const std::string &name, double v, int atomic, NumType t = Double )
   {
      N n = m::structure( name, { number( "dateTimeValue", t, v ) } );
      if ( atomic >= 0 )
         n.kids.push_back( m::integer( "isAtomicClockReferenced", atomic ) );
      return n;
   }
   void setDate( e57::DateTime &d, double v, int atomic )
   {
      d.dateTimeValue = v;
      if ( atomic >= 0 )
         d.isAtomicClockReferenced = atomic;
   }
   template <typename C, typename F> void texts( std::vector<Item<C>> &items, const std::string &name, F member )
   {
      const int kind = ++kinds;
      for ( std::string v : { "the " + name, std::string( "<&> \xC3\xA9 " ), std::string() } )
         items.push_back( { name + "=" + v, kind, [=]( C &c ) {
                              c.kids.push_back( m::str( name, v ) );
                              member( c.want ) = v;
                           } } );
   }
   template <typename C, typename F> void dates( std::vector<Item<C>> &items, const std::string &name, F member )
   {
      const int kind = ++kinds;
      for ( int atomic : { -1, 0, 1 } )
         for ( NumType t : { Double, Single } )
            items.push_back( { fmt( "%s %d %s", name.c_str(), atomic, TYPENAMES[t] ), kind, [=]( C &c ) {
                                 c.kids.push_back( date( name, 4096.25 + atomic, atomic, t ) );
                                 setDate( member( c.want ), 4096.25 + atomic, atomic );
                              } } );
   }
   template <typename C> void poses( std::vector<Item<C>> &items )
   {
      const int kind = ++kinds;
      for ( int parts = 0; parts < 4; ++parts )
         for ( NumType t : { Double, Single } )
            for ( bool backwards : { false, true } )
               items.push_back( { fmt( "pose %d %s%s", parts, TYPENAMES[t], backwards ? " backwards" : "" ), kind, [=]( C &c ) {
                                    N p = m::structure( "pose" );
                                    const auto add = [&]( N s ) {
                                       if ( backwards )
                                          std::reverse( s.kids.begin(), s.kids.end() );
                                       p.kids.push_back( s );
                                    };
                                    if ( parts & 1 )
                                    {
                                       add( m::structure( "rotation", { number( "w", t, 0.5 ), number( "x", t, -0.75 ),
                                                                        number( "y", t, 0.25 ), number( "z", t, 8.25 ) } ) );
                                       auto &q = c.want.pose.rotation;
                                       q.w = 0.5, q.x = -0.75, q.y = 0.25, q.z = 8.25;
                                    }
                                    if ( parts & 2 )
                                    {
                                       add( m::structure( "translation", { number( "x", t, 10.25 ), number( "y", t, -11.5 ),
                                                                           number( "z", t, 12.75 ) } ) );
                                       auto &q = c.want.pose.translation;
                                       q.x = 10.25, q.y = -11.5, q.z = 12.75;
                                    }
                                    if ( backwards )
                                       std::reverse( p.kids.begin(), p.kids.end() );
                                    c.kids.push_back( p );
                                 } } );
   }
   // Elements nobody knows
   N unknown( const std::string &prefix )
   {
      N proto = m::structure( "prototype", { m::integer( "k", 0, 0, 9 ) } );
      m::Col col;
      col.path = "k";
      col.type = m::T::Integer;
      col.i = { 1, 2, 3 };
      return m::structure( prefix + ":more",
                           { m::str( prefix + ":name", "n" ), m::vec( prefix + ":list", true, { m::integer( "", 1 ), m::str( "", "x" ) } ),
                             m::blob( prefix + ":bytes", m::pattern( 7 ) ), m::cv( prefix + ":records", proto, { col } ) } );
   }
   template <typename C> void strangers( std::vector<Item<C>> &items )
   {
      items.push_back( { "unknown structure", ++kinds, []( C &c ) { c.kids.push_back( unknown( "zz" ) ); } } );
      items.push_back( { "unknown string", ++kinds, []( C &c ) { c.kids.push_back( m::str( "zz:name", "other" ) ); } } );
      items.push_back( { "unknown number", ++kinds, []( C &c ) { c.kids.push_back( m::integer( "unheardOf", 5 ) ); } } );
   }

   int64_t groupValue( int k, size_t i )
   {
      return static_cast<int64_t>( 3 + static_cast<size_t>( k ) * 20 + i % 30 );
   }
   N group( const std::string &idName, int fields, int order, bool bounded, size_t count )
   {
      // order: a permutation of the three fields
      static const int ORDERS[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
      static const char *const NAMES[] = { "idElementValue", "startPointIndex", "pointCount" };
      N proto = m::structure( "prototype" );
      std::vector<m::Col> cols;
      for ( int k : ORDERS[order] )
         if ( fields & ( 1 << k ) )
         {
            proto.kids.push_back( bounded ? m::integer( NAMES[k], k == 0 ? 3 : 0, k == 0 ? 3 : 0, k == 0 ? 40 : k == 1 ? 1000 : 77 )
                                          : m::integer( NAMES[k], 0 ) );
            m::Col c;
            c.path = NAMES[k];
            c.type = m::T::Integer;
            for ( size_t i = 0; i < count; ++i )
               c.i.push_back( groupValue( k, i ) );
            cols.push_back( c );
         }
      return m::structure( "pointGroupingSchemes",
                           { m::structure( "groupingByLine", { m::str( "idElementName", idName ), m::cv( "groups", proto, cols ) } ) } );
   }

   void listScan()
   {
      auto &I = scanItems;
      const auto text = [&]( const char *name, e57::ustring Data3D::*member ) {
         texts( I, name, [=]( Data3D &d ) -> e57::ustring & { return d.*member; } );
      };
      text( "name", &Data3D::name );
      text( "description", &Data3D::description );
      text( "sensorVendor", &Data3D::sensorVendor );
      text( "sensorModel", &Data3D::sensorModel );
      text( "sensorSerialNumber", &Data3D::sensorSerialNumber );
      text( "sensorHardwareVersion", &Data3D::sensorHardwareVersion );
      text( "sensorSoftwareVersion", &Data3D::sensorSoftwareVersion );
      text( "sensorFirmwareVersion", &Data3D::sensorFirmwareVersion );
      ++kinds;
      for ( size_t n : { 0, 1, 3 } )
         for ( bool hetero : { false, true } )
            I.push_back( { fmt( "originalGuids %zu %d", n, hetero ), kinds, [=]( Scan &s ) {
                             N v = m::vec( "originalGuids", hetero );
                             for ( size_t k = 0; k < n; ++k )
                             {
                                v.kids.push_back( m::str( "", fmt( "guid%zu", k ) ) );
                                s.want.originalGuids.push_back( fmt( "guid%zu", k ) );
                             }
                             s.kids.push_back( v );
                          } } );
      const auto weather = [&]( const char *name, float Data3D::*member, double v ) {
         ++kinds;
         for ( NumType t : { Double, Single } )
            I.push_back( { fmt( "%s %s", name, TYPENAMES[t] ), kinds, [=]( Scan &s ) {
                             s.kids.push_back( number( name, t, v ) );
                             s.want.*member = static_cast<float>( v );
                          } } );
      };
      weather( "temperature", &Data3D::temperature, -20.25 );
      weather( "relativeHumidity", &Data3D::relativeHumidity, 55.5 );
      weather( "atmosphericPressure", &Data3D::atmosphericPressure, 101325.75 );
      dates( I, "acquisitionStart", []( Data3D &d ) -> e57::DateTime & { return d.acquisitionStart; } );
      dates( I, "acquisitionEnd", []( Data3D &d ) -> e57::DateTime & { return d.acquisitionEnd; } );
      poses( I );
      ++kinds;
      for ( int parts = 0; parts < 8; ++parts )
         I.push_back( { fmt( "indexBounds %d", parts ), kinds, [=]( Scan &s ) {
                          N b = m::structure( "indexBounds" );
                          auto &w = s.want.indexBounds;
                          if ( parts & 1 )
                          {
                             b.kids.push_back( m::integer( "rowMinimum", -3 ) );
                             b.kids.push_back( m::integer( "rowMaximum", 40 ) );
                             w.rowMinimum = -3, w.rowMaximum = 40;
                          }
                          if ( parts & 2 )
                          {
                             b.kids.push_back( m::integer( "columnMaximum", 50 ) );
                             b.kids.push_back( m::integer( "columnMinimum", 5 ) );
                             w.columnMinimum = 5, w.columnMaximum = 50;
                          }
                          if ( parts & 4 )
                          {
                             b.kids.push_back( m::integer( "returnMinimum", 1 ) );
                             b.kids.push_back( m::integer( "returnMaximum", 6 ) );
                             w.returnMinimum = 1, w.returnMaximum = 6;
                          }
                          s.kids.push_back( b );
                       } } );
      ++kinds;
      for ( NumType t : { Sca, Single, Double } )
         for ( bool backwards : { false, true } )
            I.push_back( { fmt( "cartesianBounds %s %d", TYPENAMES[t], backwards ), kinds, [=]( Scan &s ) {
                             N b = m::structure( "cartesianBounds",
                                                 { number( "xMinimum", t, -1.25 ), number( "xMaximum", t, 1.5 ), number( "yMinimum", t, -2.25 ),
                                                   number( "yMaximum", t, 2.5 ), number( "zMinimum", t, -3.25 ), number( "zMaximum", t, 3.5 ) } );
                             if ( backwards )
                                std::reverse( b.kids.begin(), b.kids.end() );
                             s.kids.push_back( b );
                             auto &w = s.want.cartesianBounds;
                             w.xMinimum = -1.25, w.xMaximum = 1.5, w.yMinimum = -2.25, w.yMaximum = 2.5, w.zMinimum = -3.25, w.zMaximum = 3.5;
                          } } );
      ++kinds;
      // the range and the angles may have different types
      for ( NumType t : { Sca, Single, Double } )
         for ( NumType u : { Sca, Single, Double } )
            for ( NumType v : { Sca, Single, Double } )
               I.push_back( { fmt( "sphericalBounds %s %s %s", TYPENAMES[t], TYPENAMES[u], TYPENAMES[v] ), kinds, [=]( Scan &s ) {
                                s.kids.push_back( m::structure(
                                   "sphericalBounds", { number( "azimuthEnd", v, 5.25 ), number( "rangeMinimum", t, 0.25 ), number( "rangeMaximum", t, 100.5 ),
                                                        number( "elevationMaximum", u, 1.5 ), number( "elevationMinimum", u, -1.25 ), number( "azimuthStart", v, -3.25 ) } ) );
                                auto &w = s.want.sphericalBounds;
                                w.rangeMinimum = 0.25, w.rangeMaximum = 100.5, w.elevationMinimum = -1.25, w.elevationMaximum = 1.5, w.azimuthStart = -3.25,
                                w.azimuthEnd = 5.25;
                             } } );
      ++kinds;
      for ( NumType t : { Int, Sca, Single, Double } )
         for ( auto &v : { std::make_pair( 3.0, 200.0 ), std::make_pair( 0.0, 1.0 ), std::make_pair( -5.0, -1.0 ) } )
            I.push_back( { fmt( "intensityLimits %s %g %g", TYPENAMES[t], v.first, v.second ), kinds, [=]( Scan &s ) {
                             s.kids.push_back(
                                m::structure( "intensityLimits", { number( "intensityMaximum", t, v.second ), number( "intensityMinimum", t, v.first ) } ) );
                             s.want.intensityLimits.intensityMinimum = v.first, s.want.intensityLimits.intensityMaximum = v.second;
                          } } );
      ++kinds;
      for ( NumType t : { Int, Sca, Single, Double } )
         I.push_back( { fmt( "colorLimits %s", TYPENAMES[t] ), kinds, [=]( Scan &s ) {
                          s.kids.push_back( m::structure(
                             "colorLimits", { number( "colorRedMinimum", t, 1 ), number( "colorRedMaximum", t, 250 ), number( "colorGreenMinimum", t, 2 ),
                                              number( "colorGreenMaximum", t, 251 ), number( "colorBlueMinimum", t, 3 ), number( "colorBlueMaximum", t, 252 ) } ) );
                          auto &w = s.want.colorLimits;
                          w.colorRedMinimum = 1, w.colorRedMaximum = 250, w.colorGreenMinimum = 2, w.colorGreenMaximum = 251, w.colorBlueMinimum = 3,
                          w.colorBlueMaximum = 252;
                       } } );
      ++kinds;
      for ( const char *id : { "columnIndex", "rowIndex" } )
         for ( int fields : { 7, 3, 5 } )
            for ( size_t n : { 1, 4 } )
               I.push_back( { fmt( "groups %s %d %zu", id, fields, n ), kinds, [=]( Scan &s ) {
                                s.kids.push_back( group( id, fields, 3, true, n ) );
                                auto &w = s.want.pointGroupingSchemes.groupingByLine;
                                w.idElementName = id;
                                w.groupsSize = static_cast<int64_t>( n );
                                if ( fields & 4 )
                                   w.pointCountSize = 77;
                             } } );
      I.push_back( { "no grouping", kinds, []( Scan &s ) { s.kids.push_back( m::structure( "pointGroupingSchemes" ) ); } } );
      strangers( I );
   }

   template <typename R> void picture( N &n, R &r, int pictures, unsigned salt )
   {
      const auto add = [&]( const char *name, int64_t &size, size_t bytes ) {
         n.kids.push_back( m::blob( name, m::pattern( bytes, salt ) ) );
         size = static_cast<int64_t>( bytes );
      };
      if ( pictures & 4 )
         add( "imageMask", r.imageMaskSize, 31 + salt );
      n.kids.push_back( m::integer( "imageHeight", 480 + salt ) );
      if ( pictures & 1 )
         add( "jpegImage", r.jpegImageSize, 1100 + salt );
      n.kids.push_back( m::integer( "imageWidth", 640 + salt ) );
      if ( pictures & 2 )
         add( "pngImage", r.pngImageSize, 90 + salt );
      r.imageHeight = static_cast<int32_t>( 480 + salt ), r.imageWidth = static_cast<int32_t>( 640 + salt );
   }
   void listImage()
   {
      auto &I = imageItems;
      const auto text = [&]( const char *name, e57::ustring Image2D::*member ) {
         texts( I, name, [=]( Image2D &d ) -> e57::ustring & { return d.*member; } );
      };
      text( "name", &Image2D::name );
      text( "description", &Image2D::description );
      text( "sensorVendor", &Image2D::sensorVendor );
      text( "sensorModel", &Image2D::sensorModel );
      text( "sensorSerialNumber", &Image2D::sensorSerialNumber );
      text( "associatedData3DGuid", &Image2D::associatedData3DGuid );
      dates( I, "acquisitionDateTime", []( Image2D &d ) -> e57::DateTime & { return d.acquisitionDateTime; } );
      poses( I );
      ++kinds;
      for ( int p = 1; p < 8; ++p )
         I.push_back( { fmt( "visual %d", p ), kinds, [=]( Picture &x ) {
                          N n = m::structure( "visualReferenceRepresentation" );
                          picture( n, x.want.visualReferenceRepresentation, p, 1 );
                          x.kids.push_back( n );
                       } } );
      ++kinds;
      for ( int p = 1; p < 8; ++p )
         for ( NumType t : { Double, Single } )
         {
            I.push_back( { fmt( "pinhole %d %s", p, TYPENAMES[t] ), kinds, [=]( Picture &x ) {
                             auto &w = x.want.pinholeRepresentation;
                             N n = m::structure( "pinholeRepresentation", { number( "principalPointY", t, 7.25 ), number( "pixelHeight", t, 0.25 ) } );
                             picture( n, w, p, 2 );
                             for ( auto &k : { number( "focalLength", t, 35.5 ), number( "pixelWidth", t, 0.5 ), number( "principalPointX", t, 6.75 ) } )
                                n.kids.push_back( k );
                             x.kids.push_back( n );
                             w.focalLength = 35.5, w.pixelWidth = 0.5, w.pixelHeight = 0.25, w.principalPointX = 6.75, w.principalPointY = 7.25;
                          } } );
            I.push_back( { fmt( "spherical %d %s", p, TYPENAMES[t] ), kinds, [=]( Picture &x ) {
                             auto &w = x.want.sphericalRepresentation;
                             N n = m::structure( "sphericalRepresentation", { number( "pixelHeight", t, 0.25 ) } );
                             picture( n, w, p, 3 );
                             n.kids.push_back( number( "pixelWidth", t, 0.75 ) );
                             x.kids.push_back( n );
                             w.pixelWidth = 0.75, w.pixelHeight = 0.25;
                          } } );
            I.push_back( { fmt( "cylindrical %d %s", p, TYPENAMES[t] ), kinds, [=]( Picture &x ) {
                             auto &w = x.want.cylindricalRepresentation;
                             N n = m::structure( "cylindricalRepresentation", { number( "radius", t, 12.5 ), number( "pixelHeight", t, 0.25 ) } );
                             picture( n, w, p, 4 );
                             n.kids.push_back( number( "principalPointY", t, 9.25 ) );
                             n.kids.push_back( number( "pixelWidth", t, 1.25 ) );
                             x.kids.push_back( n );
                             w.radius = 12.5, w.pixelWidth = 1.25, w.pixelHeight = 0.25, w.principalPointY = 9.25;
                          } } );
         }
      ++kinds;
      using D = e57::Extension::PinholeCameraDistortion;
      static const std::vector<std::pair<const char *, double D::*>> reals = {
         { "CV_K1", &D::CV_K1 }, { "CV_K2", &D::CV_K2 }, { "CV_K3", &D::CV_K3 }, { "CV_K4", &D::CV_K4 }, { "CV_K5", &D::CV_K5 }, { "CV_K6", &D::CV_K6 },
         { "CV_P1", &D::CV_P1 }, { "CV_P2", &D::CV_P2 }, { "CV_CX", &D::CV_CX }, { "CV_CY", &D::CV_CY }, { "CV_FX", &D::CV_FX }, { "CV_FY", &D::CV_FY } };
      static const std::vector<std::pair<const char *, int32_t D::*>> ints = { { "CV_HEIGHT", &D::CV_HEIGHT }, { "CV_WIDTH", &D::CV_WIDTH } };
      // one element alone, all but one, all, none
      const int count = static_cast<int>( reals.size() + ints.size() ) + 2;
      for ( int how = 0; how < 2 * count + 2; ++how )
         I.push_back( { fmt( "distortion %d", how ), kinds, [=]( Picture &x ) {
                          const auto has = [&]( int k ) { return how < count ? how == k : how < 2 * count ? how - count != k : how == 2 * count; };
                          N n = m::structure( "dist:distortion" );
                          auto d = std::make_unique<D>();
                          int at = 0;
                          for ( auto &q : reals )
                             if ( has( at++ ) )
                             {
                                n.kids.push_back( m::real( std::string( "dist:" ) + q.first, at + 0.25 ) );
                                ( *d ).*q.second = at + 0.25;
                             }
                          for ( auto &q : ints )
                             if ( has( at++ ) )
                             {
                                n.kids.push_back( m::integer( std::string( "dist:" ) + q.first, 100 + at ) );
                                ( *d ).*q.second = 100 + at;
                             }
                          if ( has( at++ ) )
                          {
                             n.kids.push_back( m::integer( "dist:CameraNumber", 8 ) );
                             d->cameraNumber = 8;
                          }
                          if ( has( at++ ) )
                          {
                             n.kids.push_back( m::str( "dist:Type", "OpenCV" ) );
                             d->type = "OpenCV";
                          }
                          x.kids.push_back( n );
                          x.want.pinholeCameraDistortionExt = std::move( d );
                       } } );
      strangers( I );
   }
   void listFile()
   {
      auto &I = fileItems;
      texts( I, "e57LibraryVersion", []( e57::E57Root &f ) -> e57::ustring & { return f.e57LibraryVersion; } );
      texts( I, "coordinateMetadata", []( e57::E57Root &f ) -> e57::ustring & { return f.coordinateMetadata; } );
      dates( I, "creationDateTime", []( e57::E57Root &f ) -> e57::DateTime & { return f.creationDateTime; } );
      strangers( I );
   }

   // ---- point fields ----
   struct FieldType
   {
      NumType t;
      bool bounded;
   };
   std::vector<FieldType> typesOf( int k )
   {
      switch ( fields()[k].kind )
      {
         case Point:
         case Time:
         case Intensity:
         case Colour:
            return { { Int, true }, { Sca, true }, { Single, false }, { Double, false }, { Single, true }, { Double, true } };
         case Angle:
         case Normal:
            return { { Sca, true }, { Single, false }, { Double, false }, { Single, true }, { Double, true } };
         default:
            return { { Int, true } };
      }
   }
   // Limits of the values of a field as numbers
   void fieldLimits( int k, NumType t, double &lo, double &hi )
   {
      switch ( fields()[k].kind )
      {
         case State:
            lo = 0, hi = 2;
            break;
         case Flag:
            lo = 0, hi = 1;
            break;
         case Return:
            lo = 0, hi = 100 + k;
            break;
         case Row:
         case Column:
            lo = 0, hi = 5000 + k;
            break;
         case Colour:
            lo = k, hi = t == Sca ? 255 + k : 230 + k;
            break;
         case Normal:
            lo = -1, hi = 1;
            break;
         case Angle:
            lo = -4, hi = 6.25;
            break;
         default:
            lo = t == Int ? -7 - k : -100.25 - k, hi = t == Int ? 1000 + k : 1000.5 + k;
      }
   }
   struct Proto
   {
      std::vector<N> kids;
      std::vector<m::Col> cols;
      std::vector<std::vector<double>> values; // of field k, as numbers
      Proto() : values( fields().size() )
      {
      }
   };
   const double SCALE = 0.25, OFFSET = 2;
   void addField( Proto &p, int k, FieldType ft, size_t count )
   {
      double lo, hi;
      fieldLimits( k, ft.t, lo, hi );
      const std::string name = fields()[k].name;
      const bool whole = fields()[k].kind == Colour || ft.t == Int;
      const double step = whole ? 1 : 0.25;
      const double steps = ( hi - lo ) / step;
      m::Col c;
      c.path = name;
      for ( size_t i = 0; i < count; ++i )
      {
         double v = i % 5 == 0 ? lo : i % 5 == 1 ? hi : lo + step * std::fmod( static_cast<double>( i * 37 + static_cast<size_t>( k ) ), steps + 1 );
         p.values[static_cast<size_t>( k )].push_back( v );
         if ( ft.t == Int )
            c.i.push_back( static_cast<int64_t>( v ) );
         else if ( ft.t == Sca )
            c.i.push_back( static_cast<int64_t>( ( v - OFFSET ) / SCALE ) );
         else
            c.d.push_back( v );
      }
      N n;
      switch ( ft.t )
      {
         case Int:
            n = m::integer( name, static_cast<int64_t>( lo ), static_cast<int64_t>( lo ), static_cast<int64_t>( hi ) );
            break;
         case Sca:
         {
            const auto a = static_cast<int64_t>( ( lo - OFFSET ) / SCALE ), b = static_cast<int64_t>( ( hi - OFFSET ) / SCALE );
            n = m::scaled( name, a, a, b, SCALE, OFFSET );
            break;
         }
         default:
            n = ft.bounded ? m::real( name, lo, ft.t == Single, lo, hi ) : m::real( name, 0, ft.t == Single );
      }
      c.type = n.type;
      c.single = ft.t == Single;
      p.kids.push_back( n );
      p.cols.push_back( c );
   }
   void addStranger( Proto &p, int which, size_t count )
   {
      m::Col c;
      if ( which == 0 )
      {
         p.kids.push_back( m::str( "zz:label" ) );
         for ( size_t i = 0; i < count; ++i )
            c.s.push_back( fmt( "l%zu", i ) );
      }
      else
      {
         p.kids.push_back( m::integer( fmt( "other%d", which ), 0, 0, 1000 ) );
         for ( size_t i = 0; i < count; ++i )
            c.i.push_back( static_cast<int64_t>( i ) );
      }
      c.path = p.kids.back().name;
      c.type = p.kids.back().type;
      p.cols.push_back( c );
   }
   // What a header has to tell about the fields
   void expectFields( Scan &s, const Proto &p, bool &pointRange )
   {
      Data3D &d = s.want;
      Flags &f = d.pointFields;
      const auto find = [&]( const char *name ) -> const N * {
         for ( auto &n : p.kids )
            if ( n.name == name )
               return &n;
         return nullptr;
      };
      for ( auto &fi : fields() )
         f.*fi.flag = find( fi.name ) != nullptr;
      const auto limitsOf = [&]( const N &n, double &lo, double &hi, Type &type, double &scale ) {
         if ( n.type == m::T::Integer )
            lo = static_cast<double>( n.min ), hi = static_cast<double>( n.max ), type = Type::Integer;
         else if ( n.type == m::T::Scaled )
            lo = static_cast<double>( n.min ) * n.scale + n.offset, hi = static_cast<double>( n.max ) * n.scale + n.offset, type = Type::ScaledInteger,
            scale = n.scale;
         else
         {
            lo = n.fmin, hi = n.fmax, type = n.single ? Type::Float : Type::Double;
            if ( n.single )
               lo = std::max<double>( lo, -FLT_MAX ), hi = std::min<double>( hi, FLT_MAX );
         }
      };
      const N *x = find( "cartesianX" );
      if ( !x )
         x = find( "sphericalRange" );
      pointRange = x && x->type != m::T::Integer; // the range of whole-numbered coordinates is not reported
      if ( pointRange )
         limitsOf( *x, f.pointRangeMinimum, f.pointRangeMaximum, f.pointRangeNodeType, f.pointRangeScale );
      if ( auto a = find( "sphericalAzimuth" ) )
         limitsOf( *a, f.angleMinimum, f.angleMaximum, f.angleNodeType, f.angleScale );
      if ( auto a = find( "timeStamp" ) )
         limitsOf( *a, f.timeMinimum, f.timeMaximum, f.timeNodeType, f.timeScale );
      const auto has = [&]( const char *name ) {
         for ( auto &k : s.kids )
            if ( k.name == name )
               return true;
         return false;
      };
      if ( auto a = find( "intensity" ) )
      {
         // the limits of the scan come first
         double lo = 0, hi = 0;
         limitsOf( *a, lo, hi, f.intensityNodeType, f.intensityScale );
         if ( !has( "intensityLimits" ) )
            d.intensityLimits.intensityMinimum = lo, d.intensityLimits.intensityMaximum = hi;
      }
      const auto colour = [&]( const char *name, double &lo, double &hi ) {
         auto a = find( name );
         if ( !a || has( "colorLimits" ) )
            return;
         Type t;
         double scale;
         limitsOf( *a, lo, hi, t, scale );
         lo = within( lo, 0, UINT16_MAX ), hi = within( hi, 0, UINT16_MAX );
      };
      colour( "colorRed", d.colorLimits.colorRedMinimum, d.colorLimits.colorRedMaximum );
      colour( "colorGreen", d.colorLimits.colorGreenMinimum, d.colorLimits.colorGreenMaximum );
      colour( "colorBlue", d.colorLimits.colorBlueMinimum, d.colorLimits.colorBlueMaximum );
      if ( auto a = find( "rowIndex" ) )
         f.rowIndexMaximum = static_cast<uint32_t>( a->max );
      if ( auto a = find( "columnIndex" ) )
         f.columnIndexMaximum = static_cast<uint32_t>( a->max );
      if ( auto a = find( "returnIndex" ) )
         f.returnMaximum = static_cast<uint8_t>( a->max );
   }

   // ---- whole files ----
   N document( const File &f, const std::vector<N> &scans, const std::vector<N> &images, int lists )
   {
      N root = m::structure( "" );
      root.kids = { m::str( "formatName", "ASTM E57 3D Imaging Data File" ), m::str( "guid", "the file" ), m::integer( "versionMajor", 1 ),
                    m::integer( "versionMinor", 0 ) };
      for ( auto &k : f.kids )
         root.kids.push_back( k );
      if ( lists & 1 )
         root.kids.push_back( m::vec( "data3D", true, scans ) );
      if ( lists & 2 )
         root.kids.push_back( m::vec( "images2D", true, images ) );
      return root;
   }
   void turn( std::vector<N> &kids, int order )
   {
      if ( order == 1 )
         std::reverse( kids.begin(), kids.end() );
      else if ( order == 2 )
         std::rotate( kids.begin(), kids.begin() + static_cast<long>( kids.size() / 2 ), kids.end() );
   }
   void save( const std::string &path, const N &doc, int style )
   {
      refw::Layout l;
      l.cut = refw::onePacket;
      l.extensions = { { "nor", NOR }, { "zz", "urn:zz" }, { "dist", DIST_URI } };
      if ( style == 1 )
      {
         l.cut = []( const std::vector<size_t> &n ) { return refw::fixedCut( n, 24 ); };
         l.indent = false, l.explicitDefaults = true, l.comments = true, l.reverseAttrs = true, l.xmlFirst = true;
      }
      m::spit( path, refw::write( doc, l ) );
   }

   Dump withoutRange( Dump d, bool pointRange )
   {
      if ( !pointRange )
         for ( const char *k : { "pointFields.pointRangeMinimum", "pointFields.pointRangeMaximum", "pointFields.pointRangeScale", "pointRangeNodeType" } )
            d.erase( k );
      return d;
   }

   template <typename T> void readPoints( e57::Reader &r, int64_t index, const Data3D &h, const Proto &p, size_t count, size_t block )
   {
      Buffers<T> b( h.pointFields, block );
      auto reader = r.SetUpData3DPointsData( index, block, b.b );
      size_t from = 0;
      while ( size_t n = reader.read() )
      {
         CHECK( from + n <= count, "%zu points after %zu of %zu", n, from, count );
         for ( size_t k = 0; k < fields().size(); ++k )
            if ( !p.values[k].empty() )
               for ( size_t i = 0; i < n; ++i )
               {
                  const double want = p.values[k][from + i], got = b.get( static_cast<int>( k ), i );
                  CHECK( got == want, "%s of point %zu is %.17g instead of %.17g", fields()[k].name, from + i, got, want );
               }
         from += n;
      }
      CHECK( from == count, "%zu points read instead of %zu", from, count );
      reader.close();
   }

   struct Use
   {
      std::vector<const Item<Scan> *> scan;
      std::vector<std::pair<int, FieldType>> fields;
      bool strangers = false;
      size_t count = 3;
      int order = 0, style = 0;
   };
   std::vector<std::pair<int, FieldType>> plainFields()
   {
      return { { 0, { Double, false } }, { 1, { Double, false } }, { 2, { Double, false } } };
   }
   N scanNode( const Use &u, Scan &s, Proto &p, bool &pointRange )
   {
      s.want.guid = "the scan";
      s.want.pointCount = u.count;
      for ( auto i : u.scan )
         i->add( s );
      int n = 0;
      for ( auto &f : u.fields )
      {
         if ( u.strangers )
            addStranger( p, n++, u.count );
         addField( p, f.first, f.second, u.count );
      }
      expectFields( s, p, pointRange );
      std::vector<N> kids = s.kids;
      kids.insert( kids.begin(), m::str( "guid", "the scan" ) );
      kids.push_back( m::cv( "points", m::structure( "prototype", p.kids ), p.cols ) );
      turn( kids, u.order );
      return m::structure( "", kids );
   }
   void oneScan( Run &r, const Use &u )
   {
      const std::string path = r.path( "f.e57" );
      Scan s;
      Proto p;
      bool pointRange = false;
      const N node = scanNode( u, s, p, pointRange );
      save( path, document( {}, { node }, {}, 1 ), u.style );
      e57::Reader reader( path, e57::ReaderOptions{} );
      CHECK( reader.GetData3DCount() == 1 && reader.GetImage2DCount() == 0, "number of scans or images" );
      Data3D got;
      got.name = "left over"; // from the scan read before
      got.temperature = 1;
      got.originalGuids = { "a" };
      CHECK( reader.ReadData3D( 0, got ), "ReadData3D returned false" );
      same( "scan", withoutRange( dump( got ), pointRange ), withoutRange( dump( s.want ), pointRange ) );
      readPoints<double>( reader, 0, got, p, u.count, u.count );
      readPoints<float>( reader, 0, got, p, u.count, 2 );
      r.outcome( vh::fmt( "%d %016llx", u.order, (unsigned long long)hash( [&] {
                             std::string all;
                             for ( auto &x : dump( got ) )
                                all += x.first + "=" + x.second + ";";
                             return all;
                          }() ) ) );
   }

   const std::vector<e57::Image2DProjection> PROJECTIONS = { e57::ProjectionVisual, e57::ProjectionPinhole, e57::ProjectionSpherical,
                                                             e57::ProjectionCylindrical };
   const std::vector<const char *> REPRESENTATIONS = { "visualReferenceRepresentation", "pinholeRepresentation", "sphericalRepresentation",
                                                       "cylindricalRepresentation" };
   const N *child( const std::vector<N> &kids, const char *name )
   {
      for ( auto &k : kids )
         if ( k.name == name )
            return &k;
      return nullptr;
   }
   void checkImage( e57::Reader &reader, int64_t index, const Picture &p )
   {
      Image2D got;
      got.description = "left over";
      got.pinholeRepresentation.jpegImageSize = 5;
      CHECK( reader.ReadImage2D( index, got ), "ReadImage2D returned false" );
      same( "image", dump( got ), dump( p.want ) );
      std::map<int, const N *> there; // representations by projection
      for ( size_t q = 0; q < PROJECTIONS.size(); ++q )
      {
         const N *rep = child( p.kids, REPRESENTATIONS[q] );
         if ( rep )
            there[PROJECTIONS[q]] = rep;
         for ( auto &t : { std::make_pair( "jpegImage", e57::ImageJPEG ), std::make_pair( "pngImage", e57::ImagePNG ),
                           std::make_pair( "imageMask", e57::ImageMaskPNG ) } )
         {
            const N *b = rep ? child( rep->kids, t.first ) : nullptr;
            const size_t size = b ? b->bytes.size() : 0;
            // in one and in pieces
            for ( size_t piece : { size + 1, size_t( 50 ) } )
            {
               std::vector<uint8_t> all;
               for ( size_t at = 0; at <= size; at += piece )
               {
                  const size_t n = std::min( piece, size - at );
                  std::vector<uint8_t> buf( n + 1, 0xEE );
                  if ( n == 0 && size > 0 )
                     break;
                  const int64_t done = reader.ReadImage2DData( index, PROJECTIONS[q], t.second, buf.data(), static_cast<int64_t>( at ),
                                                               static_cast<int64_t>( b ? n : 1 ) );
                  CHECK( done == static_cast<int64_t>( n ), "%lld bytes of %s in %s instead of %zu", (long long)done, t.first, REPRESENTATIONS[q], n );
                  CHECK( buf[n] == 0xEE, "a byte too many was written" );
                  all.insert( all.end(), buf.begin(), buf.end() - 1 );
               }
               CHECK( !b || all == b->bytes, "%s in %s has other bytes", t.first, REPRESENTATIONS[q] );
            }
         }
      }
      e57::Image2DProjection projection = e57::ProjectionCylindrical;
      e57::Image2DType type = e57::ImagePNG, mask = e57::ImagePNG, visual = e57::ImagePNG;
      int64_t width = -1, height = -1, size = -1;
      const bool ok = reader.GetImage2DSizes( index, projection, type, width, height, size, mask, visual );
      CHECK( ok == !there.empty(), "GetImage2DSizes returned %d", ok );
      if ( there.empty() )
      {
         CHECK( projection == e57::ProjectionNone, "projection %d", projection );
         return;
      }
      // with a visual reference beside another projection: either of them
      CHECK( there.count( projection ), "projection %d is not there", projection );
      const auto typeOf = [&]( const N &rep ) {
         return child( rep.kids, "jpegImage" ) ? e57::ImageJPEG : child( rep.kids, "pngImage" ) ? e57::ImagePNG : e57::ImageMaskPNG;
      };
      const N *rep = there[projection];
      const N *jpeg = child( rep->kids, "jpegImage" ), *png = child( rep->kids, "pngImage" ), *m = child( rep->kids, "imageMask" );
      const N *b = jpeg ? jpeg : png ? png : m;
      CHECK( type == typeOf( *rep ), "type %d instead of %d", type, typeOf( *rep ) );
      CHECK( size == static_cast<int64_t>( b->bytes.size() ), "size %lld instead of %zu", (long long)size, b->bytes.size() );
      CHECK( width == child( rep->kids, "imageWidth" )->value && height == child( rep->kids, "imageHeight" )->value, "%lld x %lld pixels", (long long)width,
             (long long)height );
      CHECK( mask == ( m ? e57::ImageMaskPNG : e57::ImageNone ), "mask type %d", mask );
      CHECK( visual == ( there.count( e57::ProjectionVisual ) ? typeOf( *there[e57::ProjectionVisual] ) : e57::ImageNone ), "visual type %d", visual );
   }
   void oneImage( Run &r, const std::vector<const Item<Picture> *> &items, int order, int style )
   {
      const std::string path = r.path( "f.e57" );
      Picture p;
      p.want.guid = "the image";
      for ( auto i : items )
         i->add( p );
      auto kids = p.kids;
      kids.insert( kids.begin(), m::str( "guid", "the image" ) );
      turn( kids, order );
      save( path, document( {}, {}, { m::structure( "", kids ) }, 2 ), style );
      e57::Reader reader( path, e57::ReaderOptions{} );
      CHECK( reader.GetData3DCount() == 0 && reader.GetImage2DCount() == 1, "number of scans or images" );
      checkImage( reader, 0, p );
      std::string all = std::to_string( order );
      for ( auto &x : dump( p.want ) )
         all += x.first + "=" + x.second + ";";
      r.outcome( fmt( "image %016llx", (unsigned long long)hash( all ) ) );
   }
   void oneFile( Run &r, const std::vector<const Item<File> *> &items, int lists, int order )
   {
      const std::string path = r.path( "f.e57" );
      File f;
      for ( auto i : items )
         i->add( f );
      N doc = document( f, {}, {}, lists );
      turn( doc.kids, order );
      save( path, doc, 0 );
      e57::Reader reader( path, e57::ReaderOptions{} );
      CHECK( reader.GetData3DCount() == 0 && reader.GetImage2DCount() == 0, "number of scans or images" );
      e57::E57Root got;
      got.coordinateMetadata = "left over";
      got.e57LibraryVersion = "left over";
      CHECK( reader.GetE57Root( got ), "GetE57Root returned false" );
      CHECK( got.formatName == "ASTM E57 3D Imaging Data File" && got.guid == "the file" && got.versionMajor == 1 && got.versionMinor == 0,
             "first items of the file" );
      CHECK( got.e57LibraryVersion == f.want.e57LibraryVersion, "e57LibraryVersion is '%s'", got.e57LibraryVersion.c_str() );
      CHECK( got.coordinateMetadata == f.want.coordinateMetadata, "coordinateMetadata is '%s'", got.coordinateMetadata.c_str() );
      CHECK( show( got.creationDateTime ) == show( f.want.creationDateTime ), "creationDateTime is %s", show( got.creationDateTime ).c_str() );
      CHECK( got.data3DSize == 0 && got.images2DSize == 0, "number of scans or images in the header" );
      Data3D d;
      Image2D i;
      for ( int64_t k : { -1, 0, 1 } )
         CHECK( !reader.ReadData3D( k, d ) && !reader.ReadImage2D( k, i ), "scan or image %lld", (long long)k );
      r.outcome( fmt( "file %d %d %zu", lists, order, items.size() ) );
   }

   void groups( Run &r, const std::string &id, int fields, int order, bool bounded, size_t count, int bounds, int wanted )
   {
      const std::string path = r.path( "f.e57" );
      Scan s;
      s.kids = { group( id, fields, order, bounded, count ) };
      if ( bounds )
      {
         N b = m::structure( "indexBounds" );
         if ( bounds & 1 )
            b.kids.push_back( m::integer( "rowMinimum", 2 ) ), b.kids.push_back( m::integer( "rowMaximum", 11 ) );
         if ( bounds & 2 )
            b.kids.push_back( m::integer( "columnMinimum", -1 ) ), b.kids.push_back( m::integer( "columnMaximum", 18 ) );
         s.kids.push_back( b );
      }
      Proto p;
      for ( auto &f : plainFields() )
         addField( p, f.first, f.second, 3 );
      s.kids.insert( s.kids.begin(), m::str( "guid", "the scan" ) );
      s.kids.push_back( m::cv( "points", m::structure( "prototype", p.kids ), p.cols ) );
      save( path, document( {}, { m::structure( "", s.kids ) }, {}, 1 ), order % 2 );
      e57::Reader reader( path, e57::ReaderOptions{} );
      int64_t row = -1, column = -1, points = -1, groupsSize = -1, countSize = -1;
      bool byColumn = false;
      CHECK( reader.GetData3DSizes( 0, row, column, points, groupsSize, countSize, byColumn ), "GetData3DSizes returned false" );
      CHECK( points == 3, "%lld points", (long long)points );
      CHECK( groupsSize == static_cast<int64_t>( count ), "%lld groups instead of %zu", (long long)groupsSize, count );
      CHECK( byColumn == ( id == "columnIndex" ), "by column: %d", byColumn );
      if ( bounds & 1 )
         CHECK( row == 10, "%lld rows", (long long)row );
      if ( bounds & 2 )
         CHECK( column == 20, "%lld columns", (long long)column );
      // the groups tell what the bounds do not
      if ( bounded )
      {
         if ( fields & 4 )
         {
            CHECK( countSize == 77, "%lld points per group", (long long)countSize );
            if ( !( bounds & 1 ) && byColumn )
               CHECK( row == 77, "%lld rows of %lld points", (long long)row, (long long)countSize );
            if ( !( bounds & 2 ) && !byColumn )
               CHECK( column == 77, "%lld columns of %lld points", (long long)column, (long long)countSize );
         }
         if ( fields & 1 )
         {
            if ( !( bounds & 1 ) && !byColumn )
               CHECK( row == 38, "%lld rows", (long long)row );
            if ( !( bounds & 2 ) && byColumn )
               CHECK( column == 38, "%lld columns", (long long)column );
         }
      }
      std::vector<int64_t> got[3];
      for ( auto &g : got )
         g.assign( count + 1, -9 );
      if ( wanted & fields )
         CHECK( reader.ReadData3DGroupsData( 0, count, wanted & 1 ? got[0].data() : nullptr, wanted & 2 ? got[1].data() : nullptr,
                                             wanted & 4 ? got[2].data() : nullptr ),
                "ReadData3DGroupsData returned false" );
      for ( int k = 0; k < 3; ++k )
         for ( size_t i = 0; i <= count; ++i )
         {
            const int64_t want = i < count && ( fields & wanted & ( 1 << k ) ) ? groupValue( k, i ) : -9;
            CHECK( got[k][i] == want, "item %d of group %zu is %lld instead of %lld", k, i, (long long)got[k][i], (long long)want );
         }
      r.outcome( fmt( "groups %s %d %d %lld %lld", id.c_str(), fields, wanted, (long long)row, (long long)column ) );
   }

   // Every subset of size at most two, all, and all but one of the first item of each kind
   template <typename C> void subsets( const std::vector<Item<C>> &items, const std::function<void( const std::string &, const std::vector<const Item<C> *> & )> &f )
   {
      f( "none", {} );
      for ( auto &a : items )
         f( a.name, { &a } );
      for ( size_t a = 0; a < items.size(); ++a )
         for ( size_t b = a + 1; b < items.size(); ++b )
            if ( items[a].kind != items[b].kind )
               f( items[a].name + " + " + items[b].name, { &items[a], &items[b] } );
      // item "variant" of each kind; left out: kind number "without"
      std::map<int, std::vector<const Item<C> *>> byKind;
      for ( auto &a : items )
         byKind[a.kind].push_back( &a );
      for ( size_t variant = 0; variant < 27; ++variant )
         for ( int without = -1; without < static_cast<int>( byKind.size() ); ++without )
         {
            std::vector<const Item<C> *> some;
            int k = 0;
            for ( auto &g : byKind )
               if ( k++ != without )
                  some.push_back( g.second[variant % g.second.size()] );
            f( fmt( "variant %zu without %d", variant, without ), some );
         }
   }
}

void vh::enumerate( Run &r )
{
   scanItems.clear(), imageItems.clear(), fileItems.clear();
   listScan();
   listImage();
   listFile();
   xercesc::XMLPlatformUtils::Initialize();

   // optional elements
   subsets<File>( fileItems, [&]( const std::string &key, const std::vector<const Item<File> *> &items ) {
      for ( int lists = 0; lists < 4; ++lists )
         for ( int order = 0; order < 3; ++order )
            r.test( fmt( "file %d %d ", lists, order ) + key, [&] { oneFile( r, items, lists, order ); } );
   } );
   subsets<Scan>( scanItems, [&]( const std::string &key, const std::vector<const Item<Scan> *> &items ) {
      for ( int order = 0; order < 3; ++order )
      {
         // the order matters less for pairs
         if ( items.size() == 2 && order != static_cast<int>( key.size() % 3 ) && !r.thorough )
            continue;
         r.test( fmt( "scan %d ", order ) + key, [&] {
            Use u;
            u.scan = items;
            u.fields = plainFields();
            u.order = order;
            u.style = order % 2;
            oneScan( r, u );
         } );
      }
   } );
   subsets<Picture>( imageItems, [&]( const std::string &key, const std::vector<const Item<Picture> *> &items ) {
      for ( int order = 0; order < 3; ++order )
      {
         if ( items.size() == 2 && order != static_cast<int>( key.size() % 3 ) && !r.thorough )
            continue;
         r.test( fmt( "image %d ", order ) + key, [&] { oneImage( r, items, order, order % 2 ); } );
      }
   } );

   // fields: each alone, with the limits of the scan, and in pairs in both orders
   const int FIELDS = static_cast<int>( fields().size() );
   const auto fieldKey = []( int k, FieldType t ) { return fmt( "%s:%s%s", fields()[static_cast<size_t>( k )].name, TYPENAMES[t.t], t.bounded ? "" : "*" ); };
   for ( int a = 0; a < FIELDS; ++a )
      for ( auto &t : typesOf( a ) )
      {
         for ( size_t count : { 1, 2, 3, 11, 600 } )
            for ( int style = 0; style < 2; ++style )
               for ( bool strange : { false, true } )
                  r.test( fmt( "field %s %zu %d %d", fieldKey( a, t ).c_str(), count, style, strange ), [&] {
                     Use u;
                     u.fields = { { a, t } };
                     u.count = count;
                     u.style = style;
                     u.strangers = strange;
                     oneScan( r, u );
                  } );
         for ( auto &item : scanItems )
            if ( item.name.find( "Limits" ) != std::string::npos || item.name.find( "Bounds" ) != std::string::npos )
               r.test( "field " + fieldKey( a, t ) + " and " + item.name, [&] {
                  Use u;
                  u.fields = { { a, t } };
                  u.scan = { &item };
                  oneScan( r, u );
               } );
         for ( int b = 0; b < FIELDS; ++b )
            if ( b != a )
               for ( auto &t2 : typesOf( b ) )
                  r.test( "fields " + fieldKey( a, t ) + " " + fieldKey( b, t2 ), [&] {
                     Use u;
                     u.fields = { { a, t }, { b, t2 } };
                     u.strangers = ( a + b ) % 2;
                     oneScan( r, u );
                  } );
      }
   // all fields, forwards and backwards, each type first
   for ( size_t variant = 0; variant < 6; ++variant )
      for ( bool backwards : { false, true } )
         for ( int without = -1; without < FIELDS; ++without )
            for ( bool strange : { false, true } )
               r.test( fmt( "all fields %zu %d without %d %d", variant, backwards, without, strange ), [&] {
                  Use u;
                  for ( int k = 0; k < FIELDS; ++k )
                     if ( k != without )
                     {
                        auto ts = typesOf( k );
                        u.fields.push_back( { k, ts[( variant + static_cast<size_t>( k ) * ( variant / 3 ) ) % ts.size()] } );
                     }
                  if ( backwards )
                     std::reverse( u.fields.begin(), u.fields.end() );
                  u.strangers = strange;
                  u.count = 50;
                  u.style = strange;
                  oneScan( r, u );
               } );

   // groups
   for ( const char *id : { "columnIndex", "rowIndex", "other" } )
      for ( int fields = 1; fields < 8; ++fields )
         for ( int order = 0; order < 6; ++order )
            for ( bool bounded : { false, true } )
               for ( size_t count : { 1, 5, 70 } )
                  for ( int bounds = 0; bounds < 4; ++bounds )
                     for ( int wanted = 1; wanted < 8; ++wanted )
                     {
                        if ( wanted != 7 && ( count != 5 || bounds != 0 ) && !r.thorough )
                           continue;
                        r.test( fmt( "groups %s %d %d %d %zu %d %d", id, fields, order, bounded, count, bounds, wanted ),
                                [&] { groups( r, id, fields, order, bounded, count, bounds, wanted ); } );
                     }

   // several scans and images in one file, each with one element
   const auto several = [&]( const std::string &key, const std::vector<const Item<Scan> *> &ss, const std::vector<const Item<Picture> *> &is ) {
      r.test( key, [&] {
         std::vector<Scan> scans( ss.size() );
         std::vector<Proto> protos( ss.size() );
         std::vector<Picture> images( is.size() );
         std::vector<N> a, b;
         for ( size_t k = 0; k < ss.size(); ++k )
         {
            Use u;
            if ( ss[k] )
               u.scan = { ss[k] };
            u.fields = plainFields();
            u.fields.resize( 1 + k % 3 );
            u.count = 2 + k;
            bool pointRange;
            a.push_back( scanNode( u, scans[k], protos[k], pointRange ) );
         }
         for ( size_t k = 0; k < is.size(); ++k )
         {
            images[k].want.guid = fmt( "image %zu", k );
            if ( is[k] )
               is[k]->add( images[k] );
            auto kids = images[k].kids;
            kids.push_back( m::str( "guid", images[k].want.guid ) );
            b.push_back( m::structure( "", kids ) );
         }
         const std::string path = r.path( "f.e57" );
         save( path, document( {}, a, b, 3 ), 0 );
         e57::Reader reader( path, e57::ReaderOptions{} );
         e57::E57Root root;
         CHECK( reader.GetE57Root( root ), "GetE57Root returned false" );
         CHECK( root.data3DSize == static_cast<int64_t>( ss.size() ) && root.images2DSize == static_cast<int64_t>( is.size() ), "numbers in the header" );
         CHECK( reader.GetData3DCount() == static_cast<int64_t>( ss.size() ) && reader.GetImage2DCount() == static_cast<int64_t>( is.size() ),
                "number of scans or images" );
         Data3D got;
         for ( int round = 0; round < 2; ++round )
            for ( size_t q = 0; q < ss.size(); ++q )
            {
               const size_t k = round ? ss.size() - 1 - q : q;
               CHECK( reader.ReadData3D( static_cast<int64_t>( k ), got ), "ReadData3D returned false" );
               same( fmt( "scan %zu", k ), dump( got ), dump( scans[k].want ) );
               readPoints<double>( reader, static_cast<int64_t>( k ), got, protos[k], 2 + k, 2 );
            }
         for ( size_t k = is.size(); k-- > 0; )
            checkImage( reader, static_cast<int64_t>( k ), images[k] );
         r.outcome( key );
      } );
   };
   for ( size_t k = 0; k < scanItems.size(); ++k )
   {
      const auto *a = &scanItems[k], *b = &scanItems[( k + 7 ) % scanItems.size()];
      several( "several scans " + a->name, { a, nullptr, b }, {} );
   }
   for ( size_t k = 0; k < imageItems.size(); ++k )
   {
      const auto *a = &imageItems[k], *b = &imageItems[( k + 11 ) % imageItems.size()];
      several( "several images " + a->name, {}, { a, nullptr, b } );
      several( "both " + a->name, { &scanItems[k % scanItems.size()] }, { nullptr, b, a } );
   }
}
