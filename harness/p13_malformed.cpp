// P13: malformed input is refused cleanly.
//
// Systematic changes to well-formed files (with checksums made valid again) are opened, walked and
// read in every way the API offers.
#include "fields.hpp"
#include "model.hpp"
#include "ref57.hpp"
#include "refw57.hpp"
#include "shim.hpp"

#include "E57SimpleReader.h"
#include "E57SimpleWriter.h"

#include <cmath>
#include <unistd.h>

#include <xercesc/util/PlatformUtils.hpp>

using namespace vh;

namespace
{
   uint64_t ops = 0;

   // ---- reading everything, as far as it goes ----
   std::string touch( const std::function<void()> &f )
   {
      ++ops;
      return m::attempt( f );
   }
   void readVector( e57::ImageFile &f, e57::CompressedVectorNode cv, unsigned flags )
   {
      e57::StructureNode proto( cv.prototype() );
      touch( [&] { cv.codecs().childCount(); } );
      std::vector<std::unique_ptr<m::Buf>> bufs;
      std::vector<e57::SourceDestBuffer> sdb;
      size_t n = ( flags & 1 ) ? 3 : 70;
      std::function<void( const e57::Node &, const std::string & )> add = [&]( const e57::Node &x, const std::string &path ) {
         if ( x.type() == e57::TypeStructure )
         {
            e57::StructureNode s( x );
            for ( int64_t i = 0; i < s.childCount(); ++i )
               add( s.get( i ), path.empty() ? s.get( i ).elementName() : path + "/" + s.get( i ).elementName() );
            return;
         }
         if ( x.type() == e57::TypeVector )
         {
            e57::VectorNode s( x );
            for ( int64_t i = 0; i < s.childCount(); ++i )
               add( s.get( i ), path.empty() ? s.get( i ).elementName() : path + "/" + s.get( i ).elementName() );
            return;
         }
         e57::MemoryRepresentation rep = e57::Real64;
         if ( x.type() == e57::TypeString )
            rep = e57::UString;
         else if ( x.type() == e57::TypeInteger )
            rep = ( flags & 2 ) ? e57::Int8 : e57::Int64;
         else if ( flags & 2 )
            rep = e57::Real32;
         if ( bufs.size() < 40 && ( touch( [&] {
                                      bufs.emplace_back( new m::Buf( rep, n ) );
                                      sdb.push_back( bufs.back()->sdb( f, path, true, true ) );
                                   } ) != "ok" ) )
            return;
      };
      add( proto, "" );
      touch( [&] {
         auto rd = cv.reader( sdb );
         for ( int i = 0; i < 40; ++i )
            if ( touch( [&] {
                    if ( rd.read() == 0 )
                       i = 40;
                 } ) != "ok" )
               break;
         touch( [&] { rd.checkInvariant(); } );
         rd.close();
      } );
   }
   void readBlob( e57::BlobNode b )
   {
      const int64_t n = b.byteCount();
      std::vector<uint8_t> buf( 3000 );
      for ( int64_t at : { int64_t( 0 ), int64_t( 1 ), n / 2, n > 5 ? n - 5 : 0, n > 1 ? n - 1 : 0, n } )
         for ( size_t len : { size_t( 0 ), size_t( 1 ), size_t( 5 ), size_t( 3000 ) } )
            touch( [&] { b.read( buf.data(), at, len ); } );
      if ( n >= 0 && n <= 3000 )
         touch( [&] { b.read( buf.data(), 0, static_cast<size_t>( n ) ); } );
   }
   void walk( e57::ImageFile &f, e57::Node n, unsigned flags, size_t &budget )
   {
      if ( budget == 0 )
         return;
      --budget;
      touch( [&] { n.pathName(); } );
      touch( [&] { n.elementName(); } );
      touch( [&] { n.parent().type(); } );
      touch( [&] { n.isAttached(); } );
      switch ( n.type() )
      {
         case e57::TypeStructure:
            touch( [&] {
               e57::StructureNode s( n );
               touch( [&] { s.checkInvariant( false ); } );
               for ( int64_t i = 0; i < s.childCount(); ++i )
               {
                  walk( f, s.get( i ), flags, budget );
                  touch( [&] { s.get( s.get( i ).elementName() ); } );
               }
            } );
            break;
         case e57::TypeVector:
            touch( [&] {
               e57::VectorNode s( n );
               s.allowHeteroChildren();
               for ( int64_t i = 0; i < s.childCount(); ++i )
                  walk( f, s.get( i ), flags, budget );
            } );
            break;
         case e57::TypeCompressedVector:
            touch( [&] {
               e57::CompressedVectorNode s( n );
               s.childCount();
               touch( [&] { s.checkInvariant( false ); } );
               touch( [&] { walk( f, s.prototype(), flags, budget ); } );
               touch( [&] { walk( f, s.codecs(), flags, budget ); } );
               readVector( f, s, flags );
               if ( flags & 4 )
                  readVector( f, s, flags ^ 3 );
            } );
            break;
         case e57::TypeInteger:
            touch( [&] {
               e57::IntegerNode s( n );
               touch( [&] { s.checkInvariant( false ); } );
               s.value(), s.minimum(), s.maximum();
            } );
            break;
         case e57::TypeScaledInteger:
            touch( [&] {
               e57::ScaledIntegerNode s( n );
               touch( [&] { s.checkInvariant( false ); } );
               s.rawValue(), s.scaledValue(), s.minimum(), s.maximum(), s.scaledMinimum(), s.scaledMaximum(), s.scale(), s.offset();
            } );
            break;
         case e57::TypeFloat:
            touch( [&] {
               e57::FloatNode s( n );
               touch( [&] { s.checkInvariant( false ); } );
               s.value(), s.minimum(), s.maximum();
            } );
            break;
         case e57::TypeString:
            touch( [&] { e57::StringNode( n ).value(); } );
            break;
         case e57::TypeBlob:
            touch( [&] { readBlob( e57::BlobNode( n ) ); } );
            break;
      }
   }
   std::string foundation( e57::ImageFile &f, unsigned flags )
   {
      size_t budget = 400;
      return touch( [&] {
         walk( f, f.root(), flags, budget );
         for ( size_t i = 0; i < f.extensionsCount(); ++i )
         {
            f.extensionsPrefix( i );
            f.extensionsUri( i );
         }
         f.checkInvariant( true );
         f.close();
      } );
   }
   template <class P> void points( const e57::Reader &rd, int64_t i, const e57::Data3D &h )
   {
      // A caller makes room for the points it is told of; this one has only so much memory
      if ( h.pointCount > 2000 )
         return;
      e57::Data3D copy = h;
      P p( copy );
      auto v = rd.SetUpData3DPointsData( i, 2000, p );
      for ( int k = 0; k < 10 && v.read(); ++k )
         ++ops;
      v.close();
   }
   std::string simple( const std::string &file, int policy )
   {
      return touch( [&] {
         e57::ReaderOptions o;
         o.checksumPolicy = policy;
         e57::Reader rd( file, o );
         rd.IsOpen();
         e57::E57Root root;
         touch( [&] { rd.GetE57Root( root ); } );
         int64_t n = 0;
         touch( [&] { n = rd.GetImage2DCount(); } );
         for ( int64_t i = 0; i <= std::min<int64_t>( n, 5 ); ++i )
         {
            e57::Image2D h;
            touch( [&] { rd.ReadImage2D( i, h ); } );
            e57::Image2DProjection p = e57::ProjectionNone, v = e57::ProjectionNone;
            e57::Image2DType t = e57::ImageNone, mt = e57::ImageNone, vt = e57::ImageNone;
            int64_t w = 0, hh = 0, size = 0;
            touch( [&] { rd.GetImage2DSizes( i, p, t, w, hh, size, mt, vt ); } );
            std::vector<uint8_t> buf( 4000 );
            for ( auto pr : { e57::ProjectionVisual, e57::ProjectionPinhole, e57::ProjectionSpherical, e57::ProjectionCylindrical } )
               for ( auto ty : { e57::ImageJPEG, e57::ImagePNG, e57::ImageMaskPNG } )
                  touch( [&] { rd.ReadImage2DData( i, pr, ty, buf.data(), 0, buf.size() ); } );
         }
         n = 0;
         touch( [&] { n = rd.GetData3DCount(); } );
         for ( int64_t i = 0; i <= std::min<int64_t>( n, 5 ); ++i )
         {
            e57::Data3D h;
            const bool have = touch( [&] { rd.ReadData3D( i, h ); } ) == "ok";
            int64_t r = 0, c = 0, ps = 0, gs = 0, cs = 0;
            bool ci = false;
            touch( [&] { rd.GetData3DSizes( i, r, c, ps, gs, cs, ci ); } );
            if ( gs >= 0 && gs < 2000 )
            {
               std::vector<int64_t> a( 2000 ), b( 2000 ), d( 2000 );
               touch( [&] { rd.ReadData3DGroupsData( i, static_cast<size_t>( gs ), a.data(), b.data(), d.data() ); } );
            }
            if ( have )
            {
               touch( [&] { points<e57::Data3DPointsDouble>( rd, i, h ); } );
               touch( [&] { points<e57::Data3DPointsFloat>( rd, i, h ); } );
            }
         }
         touch( [&] { rd.GetRawE57Root().childCount(); } );
         touch( [&] { rd.GetRawData3D().childCount(); } );
         touch( [&] { rd.GetRawImages2D().childCount(); } );
         rd.Close();
      } );
   }

   // ---- the files that are changed ----
   struct Base
   {
      std::string name;
      std::vector<char> file;
      ref::Decoded d;
      std::vector<uint8_t> binary; // logical bytes between header and XML
   };
   m::N document()
   {
      auto proto = m::structure( "", { m::integer( "i", 0, -3, 60 ), m::str( "s" ), m::structure( "t", { m::real( "f" ), m::scaled( "q", 0, -8, 7, 0.5, 1 ) } ),
                                       m::integer( "k", 5, 5, 5 ) } );
      std::vector<m::Col> cols( 5 );
      const char *paths[] = { "i", "s", "t/f", "t/q", "k" };
      const m::T kinds[] = { m::T::Integer, m::T::String, m::T::Float, m::T::Scaled, m::T::Integer };
      for ( int c = 0; c < 5; ++c )
      {
         cols[c].path = paths[c];
         cols[c].type = kinds[c];
         for ( int i = 0; i < 9; ++i )
         {
            cols[c].i.push_back( c == 4 ? 5 : i - 3 );
            cols[c].d.push_back( i * 0.5 );
            cols[c].s.push_back( std::string( i, 'x' ) );
         }
      }
      m::N cv = m::cv( "v", proto, cols );
      return m::structure( "", { m::integer( "a", 7, 0, 9 ), m::blob( "b", m::pattern( 90 ) ), cv,
                                 m::vec( "w", true, { m::scaled( "", 3, -5, 5, 0.5, 2 ), m::real( "", 0.1 ) } ), m::str( "t", "te<xt" ) } );
   }
   Base base( Run &r, const std::string &name )
   {
      Base b;
      b.name = name;
      if ( name == "small" || name == "packets" )
      {
         refw::Layout l;
         if ( name == "packets" )
            l.cut = []( const std::vector<size_t> &lengths ) {
               auto data = refw::fixedCut( lengths, 20 );
               std::vector<refw::Packet> out;
               refw::Packet empty;
               empty.type = 2;
               empty.length = 8;
               for ( size_t i = 0; i < data.size(); ++i )
               {
                  out.push_back( data[i] );
                  if ( i == 0 )
                     out.push_back( empty );
               }
               refw::Packet index;
               index.type = 0;
               index.entries = { { 0, 0 } };
               out.insert( out.begin() + 1, index );
               return out;
            };
         else
            l.cut = refw::onePacket;
         b.file = refw::write( document(), l );
      }
      else
      {
         const std::string file = r.path( "base.e57" );
         e57::WriterOptions o;
         o.guid = "file";
         o.coordinateMetadata = "meta";
         e57::Writer w( file, o );
         if ( name == "scan" )
         {
         e57::Data3D h;
         h.guid = "scan";
         h.name = "n";
         h.originalGuids = { "o1", "o2" };
         h.pose.translation.x = 1;
         h.acquisitionStart.dateTimeValue = h.acquisitionEnd.dateTimeValue = 5;
         h.temperature = 1, h.relativeHumidity = 2, h.atmosphericPressure = 3;
         h.pointCount = 4;
         h.indexBounds.rowMaximum = 1, h.indexBounds.columnMaximum = 1;
         h.cartesianBounds.xMinimum = 0, h.cartesianBounds.xMaximum = 9;
         h.sphericalBounds.rangeMinimum = 0, h.sphericalBounds.rangeMaximum = 9;
         h.intensityLimits.intensityMaximum = 1;
         h.colorLimits.colorRedMaximum = h.colorLimits.colorGreenMaximum = h.colorLimits.colorBlueMaximum = 255;
         h.pointGroupingSchemes.groupingByLine.groupsSize = 2;
         h.pointGroupingSchemes.groupingByLine.pointCountSize = 2;
         h.pointGroupingSchemes.groupingByLine.idElementName = "rowIndex";
         auto &pf = h.pointFields;
         pf.cartesianXField = pf.cartesianYField = pf.cartesianZField = pf.cartesianInvalidStateField = true;
         pf.sphericalRangeField = pf.sphericalAzimuthField = pf.sphericalElevationField = true;
         pf.rowIndexField = pf.columnIndexField = true;
         pf.rowIndexMaximum = pf.columnIndexMaximum = 1;
         pf.returnIndexField = pf.returnCountField = true;
         pf.returnMaximum = 1;
         pf.intensityField = pf.isIntensityInvalidField = true;
         pf.colorRedField = pf.colorGreenField = pf.colorBlueField = pf.isColorInvalidField = true;
         pf.timeStampField = pf.isTimeStampInvalidField = true;
         pf.pointRangeNodeType = e57::NumericalNodeType::Double;
         pf.timeNodeType = e57::NumericalNodeType::Double;
         pf.intensityNodeType = e57::NumericalNodeType::Float;
         e57::Data3DPointsDouble p( h );
         for ( int i = 0; i < 4; ++i )
         {
            p.cartesianX[i] = p.cartesianY[i] = p.cartesianZ[i] = i;
            p.sphericalRange[i] = p.sphericalAzimuth[i] = p.sphericalElevation[i] = 0.5;
            p.rowIndex[i] = i / 2, p.columnIndex[i] = i % 2;
            p.returnIndex[i] = 0, p.returnCount[i] = 1;
            p.intensity[i] = 0.5, p.timeStamp[i] = 1;
            p.colorRed[i] = p.colorGreen[i] = p.colorBlue[i] = 200;
            p.cartesianInvalidState[i] = p.isIntensityInvalid[i] = p.isColorInvalid[i] = p.isTimeStampInvalid[i] = 0;
         }
         const int64_t at = w.NewData3D( h );
         auto cw = w.SetUpData3DPointsData( at, 4, p );
         cw.write( 4 );
         cw.close();
         std::vector<int64_t> id = { 0, 1 }, start = { 0, 2 }, count = { 2, 2 };
         w.WriteData3DGroupsData( at, 2, id.data(), start.data(), count.data() );
         }
         for ( int k = 0; k < ( name == "scan" ? 0 : 4 ); ++k )
         {
            e57::Image2D im;
            im.guid = fmt( "image%d", k );
            im.name = "i";
            im.associatedData3DGuid = "scan";
            im.acquisitionDateTime.dateTimeValue = 3;
            im.pose.translation.y = 1;
            auto b2 = m::pattern( 60 );
            const e57::Image2DProjection pr[] = { e57::ProjectionVisual, e57::ProjectionPinhole, e57::ProjectionSpherical,
                                                  e57::ProjectionCylindrical };
            im.visualReferenceRepresentation.imageWidth = im.visualReferenceRepresentation.imageHeight = 3;
            if ( k == 0 )
               im.visualReferenceRepresentation.jpegImageSize = 60, im.visualReferenceRepresentation.imageMaskSize = 60;
            if ( k == 1 )
               im.pinholeRepresentation.imageWidth = im.pinholeRepresentation.imageHeight = 3, im.pinholeRepresentation.pngImageSize = 60;
            if ( k == 2 )
               im.sphericalRepresentation.imageWidth = im.sphericalRepresentation.imageHeight = 3, im.sphericalRepresentation.jpegImageSize = 60;
            if ( k == 3 )
               im.cylindricalRepresentation.imageWidth = im.cylindricalRepresentation.imageHeight = 3, im.cylindricalRepresentation.pngImageSize = 60;
            w.WriteImage2DData( im, ( k & 1 ) ? e57::ImagePNG : e57::ImageJPEG, pr[k], 0, b2.data(), 60 );
         }
         w.Close();
         b.file = m::slurp( file );
      }
      b.d = ref::decode( b.file );
      b.binary.assign( b.d.logical.begin() + 48, b.d.logical.begin() + static_cast<long>( b.d.xmlStart ) );
      return b;
   }

   // ---- one changed file ----
   struct Judge
   {
      Run &r;
      Base &b;
      std::string group;
      bool simpleApi;
      int n = 0;
      void operator()( const std::vector<char> &content, const std::string &what )
      {
         const std::string file = r.path( "bad.e57" );
         m::spit( file, content );
         const int fds = Run::openDescriptors();
         const unsigned flags = static_cast<unsigned>( n++ );
         std::string res;
         const char *stage = "";
         try
         {
            stage = "opened";
            if ( !simpleApi || r.thorough || flags % 8 == 0 )
               res = touch( [&] {
                  e57::ImageFile f( file, "r", ( flags & 8 ) ? 0 : 100 );
                  stage = "read";
                  foundation( f, flags );
               } );
            if ( simpleApi )
            {
               stage = "read by the Simple API";
               res = simple( file, ( flags & 8 ) ? 0 : 100 );
            }
            if ( r.thorough || flags % 16 == 0 || ( !simpleApi && flags % 2 == 0 ) )
            {
               stage = "opened in memory";
               std::vector<char> mem = content; // exactly this many bytes
               touch( [&] {
                  e57::ImageFile f( mem.data(), mem.size() );
                  foundation( f, flags );
               } );
            }
         }
         catch ( const Failure & )
         {
            throw;
         }
         catch ( const std::exception &e )
         {
            fail( "%s: an exception of the kind %s (%s) came out when it was %s", what.c_str(), typeid( e ).name(), e.what(), stage );
         }
         catch ( ... )
         {
            fail( "%s: an exception of a foreign kind came out when it was %s", what.c_str(), stage );
         }
         CHECK( Run::openDescriptors() == fds, "%s: a descriptor is still open", what.c_str() );
         r.outcome( group + " " + res );
         r.count( "files read" );
      }
      void xml( const std::string &x, const std::string &what )
      {
         ( *this )( refw::withXml( x, b.binary ), what );
      }
      void logical( const std::vector<uint8_t> &l, const std::string &what )
      {
         ( *this )( ref::pack( l ), what );
      }
   };
   // Everything was given back and the library still works
   void after( Run &r, const Base &b )
   {
      const std::string file = r.path( "good.e57" );
      m::spit( file, b.file );
      e57::ImageFile f( file, "r" );
      const std::string d = m::diff( b.d.root, m::observeFile( f ) );
      CHECK( d.empty(), "a good file does not read right afterwards: %s", d.c_str() );
      f.close();
   }

   // ---- the changes ----
   std::vector<uint64_t> interesting( uint64_t old, uint64_t size )
   {
      std::vector<uint64_t> v = { 0, 1, 2, 3, 4, 7, 8, 16, 31, 32, 47, 48, 49, 52, 1019, 1020, 1021, 1023, 1024, 1025, 2048, 4096, 65535, 65536, 65540 };
      for ( uint64_t x : { old, size, size * 1020 / 1024 } )
         for ( int64_t dlt : { -1024, -1020, -64, -48, -32, -16, -8, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 8, 16, 32, 48, 64, 1020, 1024 } )
            v.push_back( x + static_cast<uint64_t>( dlt ) );
      v.push_back( size );
      v.push_back( size * 2 );
      for ( int k : { 15, 16, 24, 31, 32, 40, 47, 62, 63 } )
         for ( int64_t dlt : { -4, -1, 0, 1, 4 } )
            v.push_back( ( uint64_t( 1 ) << k ) + static_cast<uint64_t>( dlt ) );
      for ( uint64_t x : { 1, 2, 3, 4, 5, 8, 16, 32, 48, 1024 } )
         v.push_back( uint64_t( 0 ) - x );
      std::sort( v.begin(), v.end() );
      v.erase( std::unique( v.begin(), v.end() ), v.end() );
      return v;
   }
   uint64_t get( const std::vector<uint8_t> &v, size_t at, size_t n )
   {
      uint64_t x = 0;
      for ( size_t i = 0; i < n; ++i )
         x |= uint64_t( v[at + i] ) << ( 8 * i );
      return x;
   }
   void put( std::vector<uint8_t> &v, size_t at, size_t n, uint64_t x )
   {
      for ( size_t i = 0; i < n; ++i )
         v[at + i] = static_cast<uint8_t>( x >> ( 8 * i ) );
   }
   struct Field
   {
      std::string name;
      size_t at, n;
   };
   std::vector<Field> fieldsOf( const Base &b )
   {
      std::vector<Field> f = { { "major", 8, 4 }, { "minor", 12, 4 }, { "length", 16, 8 }, { "xml offset", 24, 8 }, { "xml length", 32, 8 }, { "page size", 40, 8 } };
      for ( auto &s : b.d.sections )
      {
         f.push_back( { s.what + " id", s.start, 1 } );
         f.push_back( { s.what + " section length", s.start + 8, 8 } );
         if ( b.d.logical[s.start] == 1 )
         {
            f.push_back( { s.what + " data offset", s.start + 16, 8 } );
            f.push_back( { s.what + " index offset", s.start + 24, 8 } );
         }
      }
      int k = 0;
      for ( auto &p : b.d.packets )
      {
         const std::string n = fmt( "packet %d ", k++ );
         f.push_back( { n + "type", p.start, 1 } );
         f.push_back( { n + "flags", p.start + 1, 1 } );
         f.push_back( { n + "length", p.start + 2, 2 } );
         if ( p.type != 2 )
            f.push_back( { n + "count", p.start + 4, 2 } );
         for ( size_t i = 0; i < p.streams.size(); ++i )
            f.push_back( { n + fmt( "stream %zu", i ), p.start + 6 + 2 * i, 2 } );
         if ( p.type == 0 )
         {
            f.push_back( { n + "level", p.start + 6, 1 } );
            f.push_back( { n + "record", p.start + 16, 8 } );
            f.push_back( { n + "offset", p.start + 24, 8 } );
         }
      }
      return f;
   }

   // Text of the XML, cut at its tags
   struct Tag
   {
      size_t from, to; // of <...>
      size_t end;      // behind the end of the whole element; 0 for end tags
      std::string name;
   };
   std::vector<Tag> tagsOf( const std::string &x )
   {
      std::vector<Tag> t;
      std::vector<size_t> open;
      for ( size_t i = 0; i < x.size(); )
      {
         if ( x.compare( i, 9, "<![CDATA[" ) == 0 )
         {
            i = x.find( "]]>", i ) + 3;
            continue;
         }
         if ( x[i] != '<' || x[i + 1] == '?' )
         {
            ++i;
            continue;
         }
         const size_t e = x.find( '>', i ) + 1;
         if ( x[i + 1] == '/' )
         {
            t[open.back()].end = e;
            open.pop_back();
         }
         else
         {
            Tag g;
            g.from = i;
            g.to = e;
            g.end = e;
            g.name = x.substr( i + 1, x.find_first_of( " />", i ) - i - 1 );
            t.push_back( g );
            if ( x[e - 2] != '/' )
               open.push_back( t.size() - 1 );
         }
         i = e;
      }
      return t;
   }
   const char *hostile[] = { "", " ", "0", "-0", "1", "-1", "2", "5x", "x", "+7", " 3 ", "0x10", "1e3", "1.5", "-1.5", "9223372036854775807", "9223372036854775808",
                             "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "99999999999999999999999999", "1e308", "1e309", "-1e309",
                             "1e-320", "1e-400", "nan", "inf", "-inf", "NaN", "infinity", "3.4028235e38", "3.5e38", "4294967296", "1023", "1024", "48", "64",
                             "Integer", "single", "double", "half", "&#0;", "&#55555;", "&#x20AC;", "\xff\xfe", "\xc0\x80", "a/b", "<", "&", "&lt;", "true", "1 0" };
   const char *types[] = { "Integer", "ScaledInteger", "Float", "String", "Blob", "Structure", "Vector", "CompressedVector", "Nonsense", "" };

   std::string nested( size_t depth, const char *type )
   {
      std::string x = "<?xml version=\"1.0\"?><e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\">";
      for ( size_t i = 0; i < depth; ++i )
         x += std::string( "<a type=\"" ) + type + "\">";
      for ( size_t i = 0; i < depth; ++i )
         x += "</a>";
      return x + "</e57Root>";
   }
   std::vector<std::pair<std::string, std::string>> strange( const std::string &secret )
   {
      const std::string open = "<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\">";
      const std::string ns = " xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\"";
      const std::string end = "</e57Root>";
      std::vector<std::pair<std::string, std::string>> v;
      auto add = [&]( const std::string &n, const std::string &x ) { v.emplace_back( n, x ); };
      std::string laughs = "<!DOCTYPE e57Root [<!ENTITY a0 \"ha\">";
      for ( int i = 1; i <= 12; ++i )
      {
         laughs += fmt( "<!ENTITY a%d \"", i );
         for ( int k = 0; k < 10; ++k )
            laughs += fmt( "&a%d;", i - 1 );
         laughs += "\">";
      }
      laughs += "]>";
      const std::string rules = "<!ELEMENT e57Root ANY><!ATTLIST e57Root type CDATA #REQUIRED xmlns CDATA #IMPLIED><!ELEMENT s ANY><!ATTLIST s type CDATA #REQUIRED x CDATA #IMPLIED>";
      std::string valid = laughs;
      valid.insert( valid.find( '[' ) + 1, rules );
      add( "valid laughs", valid + open + "<s type=\"String\">&a12;</s>" + end );
      add( "valid laughs in attribute", valid + open + "<s type=\"String\" x=\"&a12;\"/>" + end );
      add( "valid few", valid + open + "<s type=\"String\">&a2;</s>" + end );
      add( "valid external entity", "<!DOCTYPE e57Root [" + rules + "<!ENTITY e SYSTEM \"file://" + secret + "\">]>" + open + "<s type=\"String\">&e;</s>" + end );
      add( "valid entity", "<!DOCTYPE e57Root [" + rules + "<!ENTITY e \"text\">]>" + open + "<s type=\"String\">&e;</s>" + end );
      add( "valid recursive entity", "<!DOCTYPE e57Root [" + rules + "<!ENTITY e \"&f;\"><!ENTITY f \"&e;\">]>" + open + "<s type=\"String\">&e;</s>" + end );
      add( "laughs", laughs + open + "<s type=\"String\">&a12;</s>" + end );
      add( "laughs in attribute", laughs + open + "<s type=\"String\" x=\"&a12;\"/>" + end );
      add( "entity", "<!DOCTYPE e57Root [<!ENTITY e \"text\">]>" + open + "<s type=\"String\">&e;</s>" + end );
      add( "recursive entity", "<!DOCTYPE e57Root [<!ENTITY e \"&f;\"><!ENTITY f \"&e;\">]>" + open + "<s type=\"String\">&e;</s>" + end );
      add( "external entity", "<!DOCTYPE e57Root [<!ENTITY e SYSTEM \"file://" + secret + "\">]>" + open + "<s type=\"String\">&e;</s>" + end );
      add( "external missing", "<!DOCTYPE e57Root [<!ENTITY e SYSTEM \"file://" + secret + ".none\">]>" + open + "<s type=\"String\">&e;</s>" + end );
      add( "parameter entity", "<!DOCTYPE e57Root [<!ENTITY % e SYSTEM \"file://" + secret + "\">%e;]>" + open + end );
      add( "external dtd", "<!DOCTYPE e57Root SYSTEM \"file://" + secret + "\">" + open + end );
      add( "relative dtd", "<!DOCTYPE e57Root SYSTEM \"no-such.dtd\">" + open + end );
      add( "url dtd", "<!DOCTYPE e57Root SYSTEM \"http://127.0.0.1:9/x.dtd\">" + open + end );
      add( "odd scheme", "<!DOCTYPE e57Root SYSTEM \"gopher://x/y\">" + open + end );
      add( "bad url", "<!DOCTYPE e57Root SYSTEM \"http://[\">" + open + end );
      add( "unparsed entity", "<!DOCTYPE e57Root [<!NOTATION n SYSTEM \"n\"><!ENTITY e SYSTEM \"x\" NDATA n>]>" + open + end );
      add( "dtd with rules", "<!DOCTYPE e57Root [<!ELEMENT e57Root (a)><!ATTLIST e57Root type CDATA #REQUIRED>]>" + open + end );
      add( "dtd default attribute", "<!DOCTYPE e57Root [<!ATTLIST s type CDATA \"String\">]>" + open + "<s>x</s>" + end );
      add( "schema", "<e57Root type=\"Structure\"" + ns + " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0 file://" + secret + "\">" + end );
      add( "schema relative", "<e57Root type=\"Structure\"" + ns + " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0 none.xsd\">" + end );
      add( "schema no namespace", "<e57Root type=\"Structure\"" + ns + " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:noNamespaceSchemaLocation=\"file://" + secret + "\">" + end );
      add( "xsi type", "<e57Root type=\"Structure\"" + ns + " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:type=\"q\">" + end );
      add( "xinclude", "<e57Root type=\"Structure\"" + ns + " xmlns:xi=\"http://www.w3.org/2001/XInclude\"><xi:include href=\"" + secret + "\" parse=\"text\"/>" + end );
      add( "stylesheet", "<?xml-stylesheet href=\"" + secret + "\"?>" + open + end );
      for ( const char *e : { "UTF-8", "utf-8", "UTF-16", "UTF-16LE", "UCS-4", "US-ASCII", "ISO-8859-1", "windows-1252", "IBM037", "EBCDIC-CP-US", "nonsense", "", "-", "UTF-8x" } )
         add( std::string( "encoding " ) + e, std::string( "<?xml version=\"1.0\" encoding=\"" ) + e + "\"?>" + open + "<s type=\"String\">\xc3\xa9\xff</s>" + end );
      for ( const char *ver : { "1.1", "1.2", "2.0", "0.9", "", "x" } )
         add( std::string( "version " ) + ver, std::string( "<?xml version=\"" ) + ver + "\"?>" + open + "<s type=\"String\">\x01\x85</s>" + end );
      add( "standalone", "<?xml version=\"1.0\" standalone=\"yes\"?>" + open + end );
      add( "bom", "\xef\xbb\xbf" + open + end );
      add( "bom utf16le", std::string( "\xff\xfe<\0e\0", 6 ) );
      add( "bom utf16be", std::string( "\xfe\xff\0<\0e", 6 ) );
      add( "ucs4", std::string( "\0\0\0<\0\0\0e", 8 ) );
      add( "ebcdic", std::string( "\x4c\x6f\xa7\x94\x93", 5 ) );
      {
         std::string u;
         for ( char c : "\xff" + open + end )
            u += ( c == '\xff' ) ? std::string( "\xff\xfe", 2 ) : std::string( { c, '\0' } );
         add( "all utf16le", u );
      }
      add( "empty", "" );
      add( "blank", "  \n " );
      add( "no root", "<?xml version=\"1.0\"?>" );
      add( "comment only", "<!-- x -->" );
      add( "two roots", open + end + open + end );
      add( "text before", "x" + open + end );
      add( "text behind", open + end + "x" );
      add( "null bytes", open + std::string( 5, '\0' ) + end );
      add( "unclosed", open );
      add( "unclosed comment", open + "<!-- " + end );
      add( "unclosed cdata", open + "<s type=\"String\"><![CDATA[x</s>" + end );
      add( "unclosed attribute", open + "<s type=\"String></s>" + end );
      add( "cut character", open + "<s type=\"String\">\xe2\x82" );
      add( "no namespace", "<e57Root type=\"Structure\"></e57Root>" );
      add( "other root", "<root type=\"Structure\"" + ns + "></root>" );
      add( "other root, children", "<root type=\"Structure\"" + ns + "><a type=\"Integer\"/><b type=\"Structure\"/></root>" );
      add( "prefixed root", "<p:e57Root type=\"Structure\" xmlns:p=\"u\"" + ns + "></p:e57Root>" );
      add( "prefixed root with uri", "<p:e57Root type=\"Structure\" xmlns:p=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\"></p:e57Root>" );
      for ( const char *t : types )
      {
         add( std::string( "root of type " ) + t, std::string( "<e57Root type=\"" ) + t + "\"" + ns + " fileOffset=\"48\" length=\"1\" recordCount=\"0\"></e57Root>" );
         add( std::string( "root without children of type " ) + t, std::string( "<x type=\"" ) + t + "\" fileOffset=\"48\" length=\"1\" recordCount=\"0\"/>" );
      }
      add( "root in root", open + open + end + end );
      add( "root in structure", open + "<a type=\"Structure\">" + open + "<i type=\"Integer\"/>" + end + "</a>" + end );
      add( "declaration below", open + "<a type=\"Structure\" xmlns:q=\"uq\"><q:i type=\"Integer\"/></a>" + end );
      add( "undeclared prefix", open + "<q:i type=\"Integer\"/>" + end );
      add( "same uri", "<e57Root type=\"Structure\"" + ns + " xmlns:a=\"u\" xmlns:b=\"u\">" + end );
      add( "same prefix", "<e57Root type=\"Structure\"" + ns + " xmlns:a=\"u\" xmlns:a=\"v\">" + end );
      add( "empty uri", "<e57Root type=\"Structure\"" + ns + " xmlns:a=\"\">" + end );
      add( "empty default", "<e57Root type=\"Structure\" xmlns=\"\">" + end );
      add( "wrong default", "<e57Root type=\"Structure\" xmlns=\"u\">" + end );
      add( "prefix xml", "<e57Root type=\"Structure\"" + ns + " xmlns:xml=\"http://www.w3.org/XML/1998/namespace\">" + end );
      add( "prefix xmlns", "<e57Root type=\"Structure\"" + ns + " xmlns:xmlns=\"u\">" + end );
      add( "same uri as default", "<e57Root type=\"Structure\"" + ns + " xmlns:a=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\"><a:i type=\"Integer\"/>" + end );
      add( "prefixed type", "<e57Root type=\"Structure\"" + ns + " xmlns:a=\"u\"><i a:type=\"Integer\"/>" + end );
      const std::string protoA = "<prototype type=\"Structure\"><i type=\"Integer\" minimum=\"0\" maximum=\"9\"/></prototype>";
      const std::string codecs = "<codecs type=\"Vector\" allowHeterogeneousChildren=\"1\"></codecs>";
      for ( const char *count : { "0", "1", "-1", "5" } )
      {
         const std::string cv = std::string( "<v type=\"CompressedVector\" fileOffset=\"48\" recordCount=\"" ) + count + "\">";
         add( std::string( "cv bare " ) + count, open + cv + "</v>" + end );
         add( std::string( "cv no codecs " ) + count, open + cv + protoA + "</v>" + end );
         add( std::string( "cv no prototype " ) + count, open + cv + codecs + "</v>" + end );
         add( std::string( "cv two prototypes " ) + count, open + cv + protoA + protoA + codecs + "</v>" + end );
         add( std::string( "cv two codecs " ) + count, open + cv + protoA + codecs + codecs + "</v>" + end );
         add( std::string( "cv empty prototype " ) + count, open + cv + "<prototype type=\"Structure\"/>" + codecs + "</v>" + end );
         for ( const char *t : types )
            add( std::string( "cv prototype " ) + t + " " + count, open + cv + "<prototype type=\"" + t + "\" fileOffset=\"48\" length=\"1\" recordCount=\"0\"/>" + codecs + "</v>" + end );
         for ( const char *t : types )
            add( std::string( "cv codecs " ) + t + " " + count, open + cv + protoA + "<codecs type=\"" + t + "\" fileOffset=\"48\" length=\"1\" recordCount=\"0\"/></v>" + end );
         for ( const char *t : types )
            add( std::string( "cv field " ) + t + " " + count,
                 open + cv + "<prototype type=\"Structure\"><i type=\"" + t + "\" fileOffset=\"48\" length=\"1\" recordCount=\"0\"/></prototype>" + codecs + "</v>" + end );
         add( std::string( "cv unknown child " ) + count, open + cv + protoA + codecs + "<x type=\"Integer\"/></v>" + end );
      }
      return v;
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize(); // so that it is not done anew for each file
   const std::string secret = r.path( "secret.txt" );
   for ( const char *name : { "small", "packets", "scan", "images" } )
   {
      Base b = base( r, name );
      const bool sapi = b.name == "scan" || b.name == "images";
      auto group = [&]( const std::string &key, const std::function<void( Judge & )> &f ) {
         r.test( b.name + " " + key, [&] {
            auto g = [&] {
               Judge j{ r, b, b.name + " " + key.substr( 0, key.find( ' ' ) ), sapi };
               f( j );
            };
            ops = 0;
            r.noLeak( g );
            r.transitions( ops );
            after( r, b );
         } );
      };

      // Fields of the binary part
      const auto fields = fieldsOf( b );
      auto values = [&]( const Field &f ) {
         std::vector<uint64_t> v;
         if ( f.n == 1 )
            for ( unsigned i = 0; i < 256; ++i )
               v.push_back( i );
         else
            v = interesting( get( b.d.logical, f.at, f.n ), b.file.size() );
         for ( auto &x : v )
            if ( f.n < 8 )
               x &= ( uint64_t( 1 ) << ( 8 * f.n ) ) - 1;
         std::sort( v.begin(), v.end() );
         v.erase( std::unique( v.begin(), v.end() ), v.end() );
         return v;
      };
      for ( auto &f : fields )
         group( "field " + f.name, [&]( Judge &j ) {
            for ( uint64_t x : values( f ) )
            {
               auto l = b.d.logical;
               put( l, f.at, f.n, x );
               j.logical( l, fmt( "%s=%llu", f.name.c_str(), static_cast<unsigned long long>( x ) ) );
            }
         } );
      // Pairs of fields with a shorter list of values
      for ( size_t p = 0; p < fields.size(); ++p )
         for ( size_t q = p + 1; q < fields.size(); ++q )
            if ( r.thorough || ( !sapi && ( q < 6 || q - p < 5 ) ) )
               group( "pair " + fields[p].name + "," + fields[q].name, [&]( Judge &j ) {
                  auto some = [&]( const Field &f ) {
                     const uint64_t old = get( b.d.logical, f.at, f.n );
                     std::vector<uint64_t> v = { 0, 1, old - 4, old + 4, old + 1, b.file.size(), 1024, 48, 65535, uint64_t( 1 ) << 63, ~uint64_t( 0 ), uint64_t( 0 ) - 48 };
                     for ( auto &x : v )
                        if ( f.n < 8 )
                           x &= ( uint64_t( 1 ) << ( 8 * f.n ) ) - 1;
                     std::sort( v.begin(), v.end() );
                     v.erase( std::unique( v.begin(), v.end() ), v.end() );
                     return v;
                  };
                  for ( uint64_t x : some( fields[p] ) )
                     for ( uint64_t y : some( fields[q] ) )
                     {
                        auto l = b.d.logical;
                        put( l, fields[p].at, fields[p].n, x );
                        put( l, fields[q].at, fields[q].n, y );
                        j.logical( l, fmt( "%s=%llu %s=%llu", fields[p].name.c_str(), static_cast<unsigned long long>( x ), fields[q].name.c_str(),
                                           static_cast<unsigned long long>( y ) ) );
                     }
               } );

      // Truncations, with and without the header telling the new length; bytes appended
      for ( size_t from = 0; from < b.file.size(); from += 64 )
         if ( !sapi || r.thorough || from % 1024 == 0 )
            group( fmt( "cut at %zu", from ), [&]( Judge &j ) {
               for ( size_t n = from; n < std::min( from + 64, b.file.size() ); ++n )
                  j( std::vector<char>( b.file.begin(), b.file.begin() + static_cast<long>( n ) ), fmt( "first %zu bytes", n ) );
            } );
      group( "resize", [&]( Judge &j ) {
         for ( size_t pages = 0; pages <= b.d.logical.size() / 1020 + 3; ++pages )
         {
            auto l = b.d.logical;
            l.resize( pages * 1020 );
            if ( pages )
               put( l, 16, 8, pages * 1024 );
            j.logical( l, fmt( "%zu pages, known to the header", pages ) );
            if ( pages )
               put( l, 16, 8, b.file.size() );
            j.logical( l, fmt( "%zu pages", pages ) );
            auto bytes = ref::pack( l );
            for ( size_t extra : { 1, 3, 1020, 1023 } )
            {
               auto c = bytes;
               c.resize( c.size() + extra );
               j( c, fmt( "%zu pages and %zu bytes", pages, extra ) );
            }
         }
      } );

      // Every byte of the binary part and of the XML
      const uint8_t few[] = { 0x00, 0x01, 0x7f, 0x80, 0xff };
      const char chars[] = "<>&\"'/=; \n0-9az:!?]\x01\x80\xff";
      const size_t binEnd = b.d.xmlStart;
      for ( size_t from = 0; from < binEnd; from += 16 )
         if ( !sapi || r.thorough )
            group( fmt( "byte %zu", from ), [&]( Judge &j ) {
               for ( size_t at = from; at < std::min( from + 16, binEnd ); ++at )
               {
                  std::vector<uint8_t> v( few, few + 5 );
                  if ( r.thorough )
                     for ( unsigned k = 0; k < 256; ++k )
                        v.push_back( static_cast<uint8_t>( k ) );
                  else
                     for ( unsigned k = 0; k < 8; ++k )
                        v.push_back( static_cast<uint8_t>( b.d.logical[at] ^ ( 1u << k ) ) );
                  for ( uint8_t x : v )
                  {
                     auto l = b.d.logical;
                     l[at] = x;
                     j.logical( l, fmt( "byte %zu=%u", at, x ) );
                  }
               }
            } );
      for ( size_t from = 0; from < b.d.xml.size(); from += 8 )
         if ( !sapi || r.thorough )
            group( fmt( "char %zu", from ), [&]( Judge &j ) {
               for ( size_t at = from; at < std::min( from + 8, b.d.xml.size() ); ++at )
               {
                  for ( const char *c = chars; *c; ++c )
                  {
                     if ( !r.thorough && ( c - chars ) % 3 != static_cast<long>( at % 3 ) && b.name != "small" )
                        continue;
                     auto x = b.d.xml;
                     x[at] = *c;
                     j.xml( x, fmt( "character %zu=%02x", at, static_cast<uint8_t>( *c ) ) );
                  }
                  auto x = b.d.xml;
                  x.erase( at, 1 );
                  j.xml( x, fmt( "character %zu deleted", at ) );
                  x = b.d.xml;
                  x.insert( at, 1, x[at] );
                  j.xml( x, fmt( "character %zu twice", at ) );
                  j.xml( b.d.xml.substr( 0, at ), fmt( "XML ends at %zu", at ) );
               }
            } );
      if ( b.name == "packets" )
         continue;

      // Elements and attributes
      const auto tags = tagsOf( b.d.xml );
      for ( size_t t = 0; t < tags.size(); ++t )
      {
         const Tag &g = tags[t];
         const std::string element = b.d.xml.substr( g.from, g.end - g.from );
         group( fmt( "element %zu %s", t, g.name.c_str() ), [&]( Judge &j ) {
            const std::string what = fmt( "element %zu (%s) ", t, g.name.c_str() );
            auto x = b.d.xml;
            x.erase( g.from, g.end - g.from );
            j.xml( x, what + "removed" );
            x = b.d.xml;
            x.insert( g.from, element );
            j.xml( x, what + "twice" );
            x = b.d.xml;
            x.insert( g.to, "text" );
            j.xml( x, what + "text inside" );
            for ( const char *type : types )
            {
               x = b.d.xml;
               x.replace( g.from, g.end - g.from, "<" + g.name + " type=\"" + type + "\" fileOffset=\"48\" length=\"1\" recordCount=\"0\"/>" );
               j.xml( x, what + "replaced by an empty " + type );
               x = b.d.xml;
               x.replace( g.from, g.end - g.from, "<" + g.name + " type=\"" + type + "\" fileOffset=\"48\" length=\"1\" recordCount=\"0\">7</" + g.name + ">" );
               j.xml( x, what + "replaced by " + type + " 7" );
               x = b.d.xml;
               x.replace( g.from, g.end - g.from, "<" + g.name + " type=\"" + type + "\" allowHeterogeneousChildren=\"1\"><a type=\"Integer\"/><b type=\"String\"/></" + g.name + ">" );
               j.xml( x, what + "replaced by " + type + " with children" );
            }
            for ( const char *nm : { "e57Root", "a", "0", "vectorChild", "prototype", "codecs", "ab:c", "guid", "points", "data3D" } )
            {
               x = b.d.xml;
               std::string e = element;
               e.replace( 1, g.name.size(), nm );
               if ( element[element.size() - 2] != '/' )
                  e.replace( e.rfind( "</" ) + 2, g.name.size(), nm );
               x.replace( g.from, g.end - g.from, e );
               j.xml( x, what + "named " + nm );
            }
            // moved to other places
            for ( size_t u = 0; u < tags.size(); ++u )
               if ( ( u < t || tags[u].from >= g.end ) && ( !sapi || r.thorough || ( u + t ) % 7 == 0 ) )
               {
                  x = b.d.xml;
                  if ( tags[u].from >= g.end )
                  {
                     x.insert( tags[u].from, element );
                     x.erase( g.from, g.end - g.from );
                  }
                  else
                  {
                     x.erase( g.from, g.end - g.from );
                     x.insert( tags[u].from, element );
                  }
                  j.xml( x, what + fmt( "moved to %zu", u ) );
                  if ( b.d.xml[tags[u].to - 2] != '/' )
                  {
                     x = b.d.xml;
                     x.insert( tags[u].to, element );
                     j.xml( x, what + fmt( "copied into %zu", u ) );
                  }
               }
         } );
         // text
         if ( g.end > g.to && b.d.xml[g.to - 2] != '/' )
            group( fmt( "text %zu %s", t, g.name.c_str() ), [&]( Judge &j ) {
               const std::string tail = "</" + g.name + ">";
               for ( const char *h : hostile )
               {
                  auto x = b.d.xml;
                  x.replace( g.to, g.end - g.to - tail.size(), h );
                  j.xml( x, fmt( "element %zu (%s) with the text '%s'", t, g.name.c_str(), h ) );
               }
            } );
         // attributes
         for ( size_t at = b.d.xml.find( "=\"", g.from ), k = 0; at != std::string::npos && at < g.to; at = b.d.xml.find( "=\"", at + 2 ), ++k )
         {
            const size_t nameAt = b.d.xml.rfind( ' ', at ) + 1;
            const size_t from = at + 2, to = b.d.xml.find( '"', from );
            const std::string attr = b.d.xml.substr( nameAt, at - nameAt );
            group( fmt( "attribute %zu.%zu %s %s", t, k, g.name.c_str(), attr.c_str() ), [&]( Judge &j ) {
               const std::string what = fmt( "attribute %s of element %zu (%s) ", attr.c_str(), t, g.name.c_str() );
               auto x = b.d.xml;
               x.erase( nameAt, to + 1 - nameAt );
               j.xml( x, what + "removed" );
               x = b.d.xml;
               x.insert( nameAt, b.d.xml.substr( nameAt, to + 1 - nameAt ) + " " );
               j.xml( x, what + "twice" );
               for ( const char *const &h : hostile )
               {
                  if ( sapi && !r.thorough && ( &h - hostile + static_cast<long>( t ) ) % 2 )
                     continue; // the element parser sees the others in the small file
                  x = b.d.xml;
                  x.replace( from, to - from, h );
                  j.xml( x, what + "= '" + h + "'" );
               }
               if ( attr == "type" )
                  for ( const char *h : types )
                  {
                     x = b.d.xml;
                     x.replace( from, to - from, h );
                     j.xml( x, what + "= " + h );
                     x.insert( to - ( to - from ) + strlen( h ) + 1, " fileOffset=\"48\" length=\"1\" recordCount=\"1\"" );
                     j.xml( x, what + "= " + h + " with offsets" );
                  }
               if ( attr == "fileOffset" || attr == "recordCount" || attr == "length" )
                  for ( uint64_t v : interesting( strtoull( b.d.xml.substr( from, to - from ).c_str(), nullptr, 10 ), b.file.size() ) )
                  {
                     x = b.d.xml;
                     x.replace( from, to - from, fmt( "%lld", static_cast<long long>( v ) ) );
                     j.xml( x, what + fmt( "= %lld", static_cast<long long>( v ) ) );
                  }
            } );
         }
      }

      // Strange XML
      if ( b.name == "small" )
      {
         for ( auto &s : strange( secret ) )
            group( "strange " + s.first, [&]( Judge &j ) {
               m::spit( secret, { 'S', 'E', 'C', 'R', 'E', 'T' } );
               j.simpleApi = true;
               for ( int i = 0; i < 4; ++i )
                  j.xml( s.second, s.first );
               ::unlink( secret.c_str() );
            } );
         for ( const char *type : { "Structure", "Vector" } )
            for ( size_t depth : { 10, 100, 1000, 10000, 100000 } )
               group( fmt( "nested %s %zu", type, depth ), [&]( Judge &j ) {
                  j.n = 1;
                  j.simpleApi = true;
                  j.xml( nested( depth, type ), fmt( "%zu elements nested", depth ) );
               } );
         // many elements
         for ( size_t n : { 100, 2000 } )
            group( fmt( "many %zu", n ), [&]( Judge &j ) {
               std::string x = "<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\">";
               for ( size_t i = 0; i < n; ++i )
                  x += fmt( "<a%zu type=\"Integer\"/>", i );
               j.xml( x + "</e57Root>", "many elements" );
               x = "<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\"><v type=\"Vector\">";
               for ( size_t i = 0; i < n; ++i )
                  x += "<a type=\"Integer\"/>";
               j.xml( x + "</v></e57Root>", "many elements in a vector" );
               x = "<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\"";
               for ( size_t i = 0; i < n; ++i )
                  x += fmt( " a%zu=\"\"", i );
               j.xml( x + "/>", "many attributes" );
               x = "<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\">";
               x += "<s type=\"String\">" + std::string( n * 50, 'x' ) + "</s>";
               j.xml( x + "</e57Root>", "long text" );
            } );
      }
   }
}
