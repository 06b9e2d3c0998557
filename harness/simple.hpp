// Helpers for the Simple API: the point fields and buffers for them.
#pragma once

#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <functional>
#include <map>

#include "E57SimpleData.h"
#include "E57SimpleReader.h"
#include "E57SimpleWriter.h"
#include "model.hpp"

namespace simple
{
   using e57::Data3D;
   using e57::Image2D;
   using Type = e57::NumericalNodeType;
   using Flags = e57::PointStandardizedFieldsAvailable;

   enum Kind
   {
      Point,
      Angle,
      Intensity,
      Colour,
      Row,
      Column,
      Return,
      Time,
      State, // 0..2
      Flag,  // 0..1
      Normal
   };
   struct FieldInfo
   {
      const char *name; // element name in the file
      bool Flags::*flag;
      Kind kind;
   };
   inline const std::vector<FieldInfo> &fields()
   {
      static const std::vector<FieldInfo> all = {
         { "cartesianX", &Flags::cartesianXField, Point },
         { "cartesianY", &Flags::cartesianYField, Point },
         { "cartesianZ", &Flags::cartesianZField, Point },
         { "cartesianInvalidState", &Flags::cartesianInvalidStateField, State },
         { "sphericalRange", &Flags::sphericalRangeField, Point },
         { "sphericalAzimuth", &Flags::sphericalAzimuthField, Angle },
         { "sphericalElevation", &Flags::sphericalElevationField, Angle },
         { "sphericalInvalidState", &Flags::sphericalInvalidStateField, State },
         { "rowIndex", &Flags::rowIndexField, Row },
         { "columnIndex", &Flags::columnIndexField, Column },
         { "returnIndex", &Flags::returnIndexField, Return },
         { "returnCount", &Flags::returnCountField, Return },
         { "timeStamp", &Flags::timeStampField, Time },
         { "isTimeStampInvalid", &Flags::isTimeStampInvalidField, Flag },
         { "intensity", &Flags::intensityField, Intensity },
         { "isIntensityInvalid", &Flags::isIntensityInvalidField, Flag },
         { "colorRed", &Flags::colorRedField, Colour },
         { "colorGreen", &Flags::colorGreenField, Colour },
         { "colorBlue", &Flags::colorBlueField, Colour },
         { "isColorInvalid", &Flags::isColorInvalidField, Flag },
         { "nor:normalX", &Flags::normalXField, Normal },
         { "nor:normalY", &Flags::normalYField, Normal },
         { "nor:normalZ", &Flags::normalZField, Normal },
      };
      return all;
   }

   // Calls f( number of the field, pointer member ) for all buffers
   template <typename T, typename F> void eachBuffer( e57::Data3DPointsData_t<T> &b, F f )
   {
      f( 0, b.cartesianX );
      f( 1, b.cartesianY );
      f( 2, b.cartesianZ );
      f( 3, b.cartesianInvalidState );
      f( 4, b.sphericalRange );
      f( 5, b.sphericalAzimuth );
      f( 6, b.sphericalElevation );
      f( 7, b.sphericalInvalidState );
      f( 8, b.rowIndex );
      f( 9, b.columnIndex );
      f( 10, b.returnIndex );
      f( 11, b.returnCount );
      f( 12, b.timeStamp );
      f( 13, b.isTimeStampInvalid );
      f( 14, b.intensity );
      f( 15, b.isIntensityInvalid );
      f( 16, b.colorRed );
      f( 17, b.colorGreen );
      f( 18, b.colorBlue );
      f( 19, b.isColorInvalid );
      f( 20, b.normalX );
      f( 21, b.normalY );
      f( 22, b.normalZ );
   }

   // Buffers of its own for all fields that are set in a header (or for a given set of fields)
   template <typename T> struct Buffers
   {
      e57::Data3DPointsData_t<T> b;
      std::vector<std::vector<double>> memory; // aligned for every type

      Buffers( const Flags &flags, size_t count ) : memory( fields().size() )
      {
         eachBuffer( b, [&]( int k, auto *&p ) {
            if ( !( flags.*fields()[k].flag ) )
               return;
            memory[k].assign( count + 1, 0 );
            using E = std::remove_reference_t<decltype( *p )>;
            p = reinterpret_cast<E *>( memory[k].data() );
         } );
      }
      void set( int field, size_t i, double v )
      {
         eachBuffer( b, [&]( int k, auto *&p ) {
            if ( k == field )
               p[i] = static_cast<std::remove_reference_t<decltype( *p )>>( v );
         } );
      }
      double get( int field, size_t i )
      {
         double v = 0;
         eachBuffer( b, [&]( int k, auto *&p ) {
            if ( k == field )
               v = static_cast<double>( p[i] );
         } );
         return v;
      }
   };

   inline double within( double v, double lo, double hi )
   {
      return std::max( lo, std::min( hi, v ) );
   }
   // The legal values of a field
   inline void limits( const Data3D &d, int field, double &lo, double &hi )
   {
      const Flags &f = d.pointFields;
      lo = 0;
      switch ( fields()[field].kind )
      {
         case Point:
            lo = f.pointRangeMinimum, hi = f.pointRangeMaximum;
            break;
         case Angle:
            lo = f.angleMinimum, hi = f.angleMaximum;
            break;
         case Intensity:
            lo = d.intensityLimits.intensityMinimum, hi = d.intensityLimits.intensityMaximum;
            break;
         case Colour:
            if ( field == 16 )
               lo = d.colorLimits.colorRedMinimum, hi = d.colorLimits.colorRedMaximum;
            else if ( field == 17 )
               lo = d.colorLimits.colorGreenMinimum, hi = d.colorLimits.colorGreenMaximum;
            else
               lo = d.colorLimits.colorBlueMinimum, hi = d.colorLimits.colorBlueMaximum;
            break;
         case Row:
            hi = std::min<double>( f.rowIndexMaximum, INT32_MAX );
            break;
         case Column:
            hi = std::min<double>( f.columnIndexMaximum, INT32_MAX );
            break;
         case Return:
            hi = std::min<double>( f.returnMaximum, INT8_MAX );
            break;
         case Time:
            lo = f.timeMinimum, hi = f.timeMaximum;
            break;
         case State:
            hi = 2;
            break;
         case Flag:
            hi = 1;
            break;
         case Normal:
            lo = -1, hi = 1;
            break;
      }
   }

   // ---- comparison of headers ----
   inline std::string show( double v )
   {
      return vh::fmt( "%a", v + 0.0 ); // a zero may lose its sign
   }
   inline std::string show( const e57::DateTime &t )
   {
      return show( t.dateTimeValue ) + vh::fmt( "/%d", t.isAtomicClockReferenced );
   }
   using Dump = std::map<std::string, std::string>;
   inline void pose( Dump &o, const e57::RigidBodyTransform &p )
   {
      o["pose.rotation.w"] = show( p.rotation.w );
      o["pose.rotation.x"] = show( p.rotation.x );
      o["pose.rotation.y"] = show( p.rotation.y );
      o["pose.rotation.z"] = show( p.rotation.z );
      o["pose.translation.x"] = show( p.translation.x );
      o["pose.translation.y"] = show( p.translation.y );
      o["pose.translation.z"] = show( p.translation.z );
   }
   inline Dump dump( const Data3D &d )
   {
      Dump o;
      o["name"] = d.name;
      o["guid"] = d.guid;
      for ( size_t k = 0; k < d.originalGuids.size(); ++k )
         o[vh::fmt( "originalGuids.%zu", k )] = d.originalGuids[k];
      o["description"] = d.description;
      o["sensorVendor"] = d.sensorVendor;
      o["sensorModel"] = d.sensorModel;
      o["sensorSerialNumber"] = d.sensorSerialNumber;
      o["sensorHardwareVersion"] = d.sensorHardwareVersion;
      o["sensorSoftwareVersion"] = d.sensorSoftwareVersion;
      o["sensorFirmwareVersion"] = d.sensorFirmwareVersion;
      o["temperature"] = show( d.temperature );
      o["relativeHumidity"] = show( d.relativeHumidity );
      o["atmosphericPressure"] = show( d.atmosphericPressure );
      o["acquisitionStart"] = show( d.acquisitionStart );
      o["acquisitionEnd"] = show( d.acquisitionEnd );
      pose( o, d.pose );
#define BOUND( g, m ) o[#g "." #m] = std::to_string( d.g.m )
      BOUND( indexBounds, rowMinimum );
      BOUND( indexBounds, rowMaximum );
      BOUND( indexBounds, columnMinimum );
      BOUND( indexBounds, columnMaximum );
      BOUND( indexBounds, returnMinimum );
      BOUND( indexBounds, returnMaximum );
#undef BOUND
#define BOUND( g, m ) o[#g "." #m] = show( d.g.m )
      BOUND( cartesianBounds, xMinimum );
      BOUND( cartesianBounds, xMaximum );
      BOUND( cartesianBounds, yMinimum );
      BOUND( cartesianBounds, yMaximum );
      BOUND( cartesianBounds, zMinimum );
      BOUND( cartesianBounds, zMaximum );
      BOUND( sphericalBounds, rangeMinimum );
      BOUND( sphericalBounds, rangeMaximum );
      BOUND( sphericalBounds, elevationMinimum );
      BOUND( sphericalBounds, elevationMaximum );
      BOUND( sphericalBounds, azimuthStart );
      BOUND( sphericalBounds, azimuthEnd );
      BOUND( intensityLimits, intensityMinimum );
      BOUND( intensityLimits, intensityMaximum );
      BOUND( colorLimits, colorRedMinimum );
      BOUND( colorLimits, colorRedMaximum );
      BOUND( colorLimits, colorGreenMinimum );
      BOUND( colorLimits, colorGreenMaximum );
      BOUND( colorLimits, colorBlueMinimum );
      BOUND( colorLimits, colorBlueMaximum );
      const auto &g = d.pointGroupingSchemes.groupingByLine;
      o["grouping.idElementName"] = g.idElementName;
      o["grouping.groupsSize"] = std::to_string( g.groupsSize );
      o["grouping.pointCountSize"] = std::to_string( g.pointCountSize );
      const Flags &f = d.pointFields;
      for ( auto &fi : fields() )
         o[std::string( "field." ) + fi.name] = f.*fi.flag ? "1" : "0";
      o["pointCount"] = std::to_string( d.pointCount );
      if ( f.cartesianXField || f.sphericalRangeField )
      {
         BOUND( pointFields, pointRangeMinimum );
         BOUND( pointFields, pointRangeMaximum );
         BOUND( pointFields, pointRangeScale );
         o["pointRangeNodeType"] = std::to_string( static_cast<int>( f.pointRangeNodeType ) );
      }
      if ( f.sphericalAzimuthField )
      {
         BOUND( pointFields, angleMinimum );
         BOUND( pointFields, angleMaximum );
         BOUND( pointFields, angleScale );
         o["angleNodeType"] = std::to_string( static_cast<int>( f.angleNodeType ) );
      }
      if ( f.timeStampField )
      {
         BOUND( pointFields, timeMinimum );
         BOUND( pointFields, timeMaximum );
         BOUND( pointFields, timeScale );
         o["timeNodeType"] = std::to_string( static_cast<int>( f.timeNodeType ) );
      }
      if ( f.intensityField )
      {
         BOUND( pointFields, intensityScale );
         o["intensityNodeType"] = std::to_string( static_cast<int>( f.intensityNodeType ) );
      }
      if ( f.rowIndexField )
         o["rowIndexMaximum"] = std::to_string( f.rowIndexMaximum );
      if ( f.columnIndexField )
         o["columnIndexMaximum"] = std::to_string( f.columnIndexMaximum );
      if ( f.returnIndexField )
         o["returnMaximum"] = std::to_string( f.returnMaximum );
      return o;
   }
   template <typename R> bool pictured( const R &r )
   {
      return r.jpegImageSize > 0 || r.pngImageSize > 0;
   }
   template <typename R> void picture( Dump &o, const std::string &n, const R &r )
   {
      o[n + ".jpeg"] = std::to_string( r.jpegImageSize );
      o[n + ".png"] = std::to_string( r.pngImageSize );
      o[n + ".mask"] = std::to_string( r.imageMaskSize );
      o[n + ".width"] = std::to_string( r.imageWidth );
      o[n + ".height"] = std::to_string( r.imageHeight );
   }
   inline Dump dump( const Image2D &d )
   {
      Dump o;
      o["name"] = d.name;
      o["guid"] = d.guid;
      o["description"] = d.description;
      o["associatedData3DGuid"] = d.associatedData3DGuid;
      o["sensorVendor"] = d.sensorVendor;
      o["sensorModel"] = d.sensorModel;
      o["sensorSerialNumber"] = d.sensorSerialNumber;
      o["acquisitionDateTime"] = show( d.acquisitionDateTime );
      pose( o, d.pose );
      // the further items of a representation without an image have no meaning
      if ( pictured( d.visualReferenceRepresentation ) )
         picture( o, "visual", d.visualReferenceRepresentation );
      if ( pictured( d.pinholeRepresentation ) )
      {
         picture( o, "pinhole", d.pinholeRepresentation );
         BOUND( pinholeRepresentation, focalLength );
         BOUND( pinholeRepresentation, pixelWidth );
         BOUND( pinholeRepresentation, pixelHeight );
         BOUND( pinholeRepresentation, principalPointX );
         BOUND( pinholeRepresentation, principalPointY );
      }
      if ( pictured( d.sphericalRepresentation ) )
      {
         picture( o, "spherical", d.sphericalRepresentation );
         BOUND( sphericalRepresentation, pixelWidth );
         BOUND( sphericalRepresentation, pixelHeight );
      }
      if ( pictured( d.cylindricalRepresentation ) )
      {
         picture( o, "cylindrical", d.cylindricalRepresentation );
         BOUND( cylindricalRepresentation, pixelWidth );
         BOUND( cylindricalRepresentation, pixelHeight );
         BOUND( cylindricalRepresentation, radius );
         BOUND( cylindricalRepresentation, principalPointY );
      }
      if ( auto *p = d.pinholeCameraDistortionExt.get() )
      {
         o["dist.cameraNumber"] = std::to_string( p->cameraNumber );
         o["dist.type"] = p->type;
#define DIST( m ) o["dist." #m] = show( p->m )
         DIST( CV_K1 );
         DIST( CV_K2 );
         DIST( CV_K3 );
         DIST( CV_K4 );
         DIST( CV_K5 );
         DIST( CV_K6 );
         DIST( CV_P1 );
         DIST( CV_P2 );
         DIST( CV_CX );
         DIST( CV_CY );
         DIST( CV_FX );
         DIST( CV_FY );
         DIST( CV_HEIGHT );
         DIST( CV_WIDTH );
      }
      return o;
   }
   inline void same( const std::string &what, const Dump &got, const Dump &want )
   {
      for ( auto &w : want )
      {
         auto g = got.find( w.first );
         CHECK( g != got.end(), "%s: %s is missing", what.c_str(), w.first.c_str() );
         CHECK( g->second == w.second, "%s: %s is %s instead of %s", what.c_str(), w.first.c_str(),
                g->second.substr( 0, 60 ).c_str(), w.second.substr( 0, 60 ).c_str() );
      }
      for ( auto &g : got )
         CHECK( want.count( g.first ), "%s: %s was not given", what.c_str(), g.first.c_str() );
   }
#undef BOUND
#undef DIST
}
